package schema

import (
	"encoding/xml"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

// maker writes anonymous types, each recognizable by a marker.
type maker struct {
	s     string // prefix of the schema namespace, with its colon
	marks int
	owned []func()   // checks, once the schema is parsed
	seen  []xsd.Type // every anonymous type met by the checks
}

var digits = "0123456789abcdefghijklmnopqrstuvwxyz"

func (m *maker) mark() string {
	m.marks++
	return "m" + digits[m.marks:m.marks+1]
}

// met records an anonymous type, which nothing else may share.
func (m *maker) met(t xsd.Type) {
	for _, u := range m.seen {
		vnd.Assert(u != t, "anonymous types are not shared")
	}
	m.seen = append(m.seen, t)
}

// simple returns an anonymous simpleType and a check that a type is it.
func (m *maker) simple(depth int) (string, func(xsd.Type)) {
	open, end := "<"+m.s+"simpleType>", "</"+m.s+"simpleType>"
	k := 0
	if depth > 0 {
		k = vnd.Choose(4)
	}
	switch k {
	case 1:
		in, chk := m.simple(depth - 1)
		return open + "<" + m.s + "list>" + in + "</" + m.s + "list>" + end, func(t xsd.Type) {
			st, ok := t.(*xsd.SimpleType)
			vnd.Assert(ok && st != nil && st.List, "the owner's type is the list it contains")
			m.met(t)
			chk(st.Base)
		}
	case 2:
		mt := []string{"-", m.s + "int", m.s + "int " + m.s + "date"}[vnd.Choose(3)]
		first := map[string]int{"-": 0, m.s + "int": 1, m.s + "int " + m.s + "date": 2}[mt]
		doc := open + "<" + m.s + "union" + attr("memberTypes", mt) + ">"
		var chks []func(xsd.Type)
		for i := 1 + vnd.Choose(2); i > 0; i-- {
			in, chk := m.simple(depth - 1)
			doc += in
			chks = append(chks, chk)
			depth = 1
		}
		return doc + "</" + m.s + "union>" + end, func(t xsd.Type) {
			st, ok := t.(*xsd.SimpleType)
			vnd.Assert(ok && st != nil && len(st.Union) == first+len(chks), "the owner's type is the union it contains")
			vnd.Assert(first < 1 || st.Union[0] == xsd.Type(xsd.Int), "members in order")
			vnd.Assert(first < 2 || st.Union[1] == xsd.Type(xsd.Date), "members in order")
			m.met(t)
			for i, c := range chks {
				c(st.Union[first+i])
			}
		}
	case 3:
		in, chk := m.simple(depth - 1)
		mk := m.mark()
		return open + "<" + m.s + "restriction>" + in + "<" + m.s + "enumeration value='" + mk + "'/></" + m.s + "restriction>" + end, func(t xsd.Type) {
			m.marked(t, mk)
			chk(t.(*xsd.SimpleType).Base)
		}
	}
	mk := m.mark()
	return open + "<" + m.s + "restriction base='" + m.s + "token'><" + m.s + "enumeration value='" + mk + "'/></" + m.s + "restriction>" + end, func(t xsd.Type) {
		m.marked(t, mk)
		vnd.Assert(t.(*xsd.SimpleType).Base == xsd.Type(xsd.Token), "its base")
	}
}

func (m *maker) marked(t xsd.Type, mk string) {
	st, ok := t.(*xsd.SimpleType)
	vnd.Assert(ok && st != nil && len(st.Restriction.Enum) == 1, "the owner's type is the restriction it contains")
	vnd.Assert(st.Restriction.Enum[0] == mk, "the owner's type is the very one it contains")
	m.met(t)
}

// complex returns an anonymous complexType.
func (m *maker) complex(depth int, name func() string) (string, func(xsd.Type)) {
	mk := m.mark()
	doc := "<" + m.s + "complexType>"
	var chks []func(xsd.Element)
	count := 0
	if depth > 0 {
		doc += "<" + m.s + "sequence>"
		count = 1 + vnd.Choose(2)
		for i := 0; i < count; i++ {
			in, chk := m.element(depth-1, name(), vnd.Choose(2))
			doc += in
			chks = append(chks, chk)
			depth = 1
		}
		doc += "</" + m.s + "sequence>"
	}
	doc += "<" + m.s + "attribute name='" + mk + "' type='" + m.s + "int'/></" + m.s + "complexType>"
	return doc, func(t xsd.Type) {
		ct, ok := t.(*xsd.ComplexType)
		vnd.Assert(ok && ct != nil && len(ct.Attributes) == 1, "the owner's type is the complex type it contains")
		vnd.Assert(ct.Attributes[0].Name.Local == mk, "the owner's type is the very one it contains")
		vnd.Assert(len(ct.Elements) == count, "with its elements")
		m.met(t)
		for i, c := range chks {
			c(ct.Elements[i])
		}
	}
}

func (m *maker) element(depth int, name string, kind int) (string, func(xsd.Element)) {
	var in string
	var chk func(xsd.Type)
	if kind == 0 {
		in, chk = m.simple(depth)
	} else {
		k := 0
		in, chk = m.complex(depth, func() string { k++; return "pq"[k-1 : k] })
	}
	return "<" + m.s + "element name='" + name + "'>" + in + "</" + m.s + "element>", func(e xsd.Element) {
		vnd.Assert(e.Name.Local == name, "elements in order")
		chk(e.Type)
	}
}

// distinct asserts that the schema holds exactly the types met and the given
// number of named ones, each under its own name.
func (m *maker) distinct(s xsd.Schema, named int) {
	for name, t := range s.Types {
		vnd.Assert(xsd.XMLName(t) == name, "every type is listed under its name")
	}
	for _, t := range m.seen {
		vnd.Assert(s.Types[xsd.XMLName(t)] == t, "every anonymous type is listed")
	}
	vnd.Assert(len(s.Types) == len(m.seen)+named, "no type is dropped or added")
}

// header starts a schema by one of the ways to bind namespaces.
func header(k int) (doc, s, t, end string) {
	switch k {
	case 0:
		return open("u"), "s:", "t:", "</s:schema>"
	case 1:
		return "<schema xmlns='" + xs + "' xmlns:t='u' targetNamespace='u'>", "", "t:", "</schema>"
	case 2:
		return "<s:schema xmlns:s='" + xs + "' xmlns='u' targetNamespace='u'>", "s:", "", "</s:schema>"
	case 3: // no prefix for the target namespace
		return "<s:schema xmlns:s='" + xs + "' targetNamespace='u'>", "s:", "-", "</s:schema>"
	}
	return "<schema xmlns='" + xs + "' targetNamespace='u'>", "", "-", "</schema>"
}

// H_anon_nested: one element or attribute containing types of types.
func H_anon_nested() {
	doc, s, _, end := header(vnd.Choose(5))
	m := &maker{s: s}
	top := vnd.Bool()
	depth := 2 + vnd.Tier()
	kind := vnd.Choose(2)
	if kind == 1 {
		depth--
	}
	in, chk := m.element(depth, "e", kind)
	if top {
		all := mustParse(doc + in + end)
		closed(all)
		self := complexOf(all["u"], "_self")
		vnd.Assert(len(self.Elements) == 1, "one element")
		chk(self.Elements[0])
		m.distinct(all["u"], 1)
		return
	}
	all := mustParse(doc + "<" + s + "complexType name='T'><" + s + "choice>" + in + "</" + s + "choice></" + s + "complexType>" + end)
	closed(all)
	t := complexOf(all["u"], "T")
	vnd.Assert(len(t.Elements) == 1, "one element")
	chk(t.Elements[0])
	m.distinct(all["u"], 2)
}

// H_anon_owners: several owners of anonymous types next to one another, with
// names that collide with one another, with named types or with generated
// names.
func H_anon_owners() {
	doc, s, _, end := header(vnd.Choose(5))
	m := &maker{s: s}
	names := "TUe"
	type part struct {
		name string
		chk  func(xsd.Element)
	}
	var tops []part
	count := 1 + vnd.Choose(2)
	used := ""
	for i := 0; i < count; i++ {
		nm := vnd.StringOf(names, 1)
		if nm == used {
			return
		}
		used = nm
		in, chk := m.element(0, nm, vnd.Choose(2))
		doc += in
		tops = append(tops, part{nm, chk})
	}
	// named types, with elements of the same names
	var locals []part
	in1, chk1 := m.element(0, vnd.StringOf(names, 1), vnd.Choose(2))
	in2, chk2 := m.element(0, "_anon1", 0)
	locals = append(locals, part{"", chk1}, part{"", chk2})
	at, atchk := m.simple(0)
	doc += "<" + s + "complexType name='T'><" + s + "sequence>" + in1 + in2 + "</" + s + "sequence><" + s + "attribute name='" + vnd.StringOf("e_", 1) + "'>" + at + "</" + s + "attribute></" + s + "complexType>"
	gen := "_anon" + vnd.StringOf("12", 1)
	doc += "<" + s + "simpleType name='" + gen + "'><" + s + "restriction base='" + s + "byte'/></" + s + "simpleType>"
	lst, lstchk := m.simple(0)
	doc += "<" + s + "simpleType name='U'><" + s + "list>" + lst + "</" + s + "list></" + s + "simpleType>"
	all := mustParse(doc + end)
	closed(all)
	u := all["u"]
	self := complexOf(u, "_self")
	vnd.Assert(len(self.Elements) == len(tops), "every top-level element")
	for i, p := range tops {
		p.chk(self.Elements[i])
	}
	t := complexOf(u, "T")
	vnd.Assert(len(t.Elements) == 2 && len(t.Attributes) == 1, "the named type has its elements and attribute")
	chk1(t.Elements[0])
	chk2(t.Elements[1])
	atchk(t.Attributes[0].Type)
	vnd.Assert(simpleOf(u, gen).Base == xsd.Type(xsd.Byte), "the type with the name of a generated one")
	l := simpleOf(u, "U")
	vnd.Assert(l.List, "the named list")
	lstchk(l.Base)
	m.distinct(u, 4)
}

// H_anon_many: more top-level elements than fit without moving them.
func H_anon_many() {
	doc, s, _, end := header(vnd.Choose(5))
	m := &maker{s: s}
	count := 1 + vnd.Choose(8)
	at := vnd.Choose(count)
	var chks []func(xsd.Element)
	for i := 0; i < count; i++ {
		k := 0
		d := 0
		if i == at {
			k = vnd.Choose(2)
			d = 1
		}
		in, chk := m.element(d, "e"+digits[i:i+1], k)
		doc += in
		chks = append(chks, chk)
	}
	all := mustParse(doc + end)
	closed(all)
	self := complexOf(all["u"], "_self")
	vnd.Assert(len(self.Elements) == count, "every top-level element")
	for i, c := range chks {
		c(self.Elements[i])
	}
	m.distinct(all["u"], 1)
}

// H_anon_docs: documents of one or two namespaces, each with anonymous types
// and elements of the same names.
func H_anon_docs() {
	ns := []string{"u", []string{"u", "v"}[vnd.Choose(2)], "u"}
	count := 2 + vnd.Choose(2)
	k := vnd.Choose(2)
	makers := map[string]*maker{"u": {s: "s:"}, "v": {s: "s:"}}
	var docs []string
	type exp struct {
		ns  string
		loc string
		chk func(xsd.Element)
	}
	var want []exp
	named := map[string]int{"u": 1, "v": 1}
	for i := 0; i < count; i++ {
		m := makers[ns[i]]
		doc := "<s:schema xmlns:s='" + xs + "' targetNamespace='" + ns[i] + "'>"
		if vnd.Bool() {
			doc = open(ns[i])
		}
		l := digits[10+i : 11+i]
		in1, chk1 := m.element(0, "e", k)
		d := 0
		if i == 1 || vnd.Tier() == 1 {
			d = 1
		}
		in2, chk2 := m.element(d, "f", 0)
		doc += "<s:complexType name='" + l + "'><s:sequence>" + in1 + in2 + "</s:sequence></s:complexType>"
		named[ns[i]]++
		want = append(want, exp{ns[i], l, func(e xsd.Element) { chk1(e) }}, exp{ns[i], l, func(e xsd.Element) { chk2(e) }})
		if i == 0 && vnd.Bool() {
			doc += "<s:simpleType name='e'><s:list itemType='s:int'/></s:simpleType>"
			named[ns[i]]++
		}
		docs = append(docs, doc+end)
		k = 1 - k
	}
	all := mustParse(docs...)
	closed(all)
	for i, w := range want {
		t := complexOf(all[w.ns], w.loc)
		vnd.Assert(len(t.Elements) == 2, "two elements")
		w.chk(t.Elements[i%2])
	}
	for ns, m := range makers {
		if len(m.seen) > 0 {
			m.distinct(all[ns], named[ns])
		}
	}
}

// H_anon_groups: anonymous types in groups, attribute groups, references and
// simple content.
func H_anon_groups() {
	doc, s, t, end := header(vnd.Choose(3))
	m := &maker{s: s}
	in1, chk1 := m.element(1, "e", vnd.Choose(2))
	in2, chk2 := m.element(0, "f", vnd.Choose(2))
	at, atchk := m.simple(1)
	g := "<" + s + "group name='g'><" + s + "sequence>" + in1 + "<" + s + "element ref='" + t + "f'/></" + s + "sequence></" + s + "group>" + in2
	ag := "<" + s + "attributeGroup name='g'><" + s + "attribute name='e'>" + at + "</" + s + "attribute></" + s + "attributeGroup>"
	typ := "<" + s + "complexType name='T'><" + s + "group ref='" + t + "g'/><" + s + "attributeGroup ref='" + t + "g'/></" + s + "complexType>"
	switch vnd.Choose(3) {
	case 0:
		doc += g + ag + typ
	case 1:
		doc += typ + ag + g
	case 2:
		doc += g + typ + ag
	}
	all := mustParse(doc + end)
	closed(all)
	u := all["u"]
	T := complexOf(u, "T")
	vnd.Assert(len(T.Elements) == 2 && len(T.Attributes) == 1, "the members of the groups")
	chk1(T.Elements[0])
	chk2(T.Elements[1])
	atchk(T.Attributes[0].Type)
	self := complexOf(u, "_self")
	vnd.Assert(len(self.Elements) == 1 && self.Elements[0].Type == T.Elements[1].Type, "the element itself has the same type")
	m.distinct(u, 2)
}

// H_anon_named: what the author named keeps its name and content, whatever
// the names.
func H_anon_named() {
	names := []string{"_anon1", "_anon2", "e", "T"}
	doc := open("u")
	count := 1 + vnd.Choose(3)
	i0 := vnd.Choose(len(names))
	for i := 0; i < count; i++ {
		nm := names[(i0+i)%len(names)]
		if i%2 == 0 {
			doc += "<s:simpleType name='" + nm + "'><s:restriction base='s:string'><s:enumeration value='" + nm + "'/></s:restriction></s:simpleType>"
		} else {
			doc += "<s:complexType name='" + nm + "'><s:attribute name='" + nm + "' type='s:int'/></s:complexType>"
		}
	}
	m := &maker{s: "s:"}
	in, chk := m.element(1, "e", vnd.Choose(2))
	if vnd.Bool() {
		in += "<s:element name='f' type='t:" + names[i0] + "'/>"
	}
	if vnd.Bool() {
		doc = doc[:len(open("u"))] + in + doc[len(open("u")):]
	} else {
		doc += in
	}
	all := mustParse(doc + end)
	u := all["u"]
	for i := 0; i < count; i++ {
		nm := names[(i0+i)%len(names)]
		if i%2 == 0 {
			t := simpleOf(u, nm)
			vnd.Assert(!t.Anonymous && len(t.Restriction.Enum) == 1 && t.Restriction.Enum[0] == nm, "a named type keeps its content")
		} else {
			t := complexOf(u, nm)
			vnd.Assert(!t.Anonymous && len(t.Attributes) == 1 && t.Attributes[0].Name.Local == nm, "a named type keeps its content")
		}
	}
	self := complexOf(u, "_self")
	chk(self.Elements[0])
	for _, t := range m.seen {
		vnd.Assert(u.Types[xsd.XMLName(t)] == t, "every anonymous type is listed")
	}
	if len(self.Elements) == 2 {
		vnd.Assert(self.Elements[1].Type == u.Types[xml.Name{Space: "u", Local: names[i0]}], "the element of a named type")
	}
}

// H_anon_content: a simple type that restricts the content of a complex type.
func H_anon_content() {
	ns := []string{"u", "v"}[vnd.Choose(2)]
	decls := []string{
		"<s:simpleType name='S'><s:restriction base='s:string'/></s:simpleType>",
		"<s:complexType name='B'><s:simpleContent><s:extension base='" + []string{"s:string", "b:S"}[vnd.Choose(2)] + "'><s:attribute name='a' type='s:int'/></s:extension></s:simpleContent></s:complexType>",
		"<s:complexType name='C'><s:simpleContent><s:restriction base='b:B'/></s:simpleContent></s:complexType>",
		"<s:element name='E'><s:complexType><s:simpleContent><s:extension base='b:B'/></s:simpleContent></s:complexType></s:element>",
	}
	if vnd.Bool() {
		for i, j := 0, len(decls)-1; i < j; i, j = i+1, j-1 {
			decls[i], decls[j] = decls[j], decls[i]
		}
	}
	inner := "<s:simpleType><s:restriction base='s:string'><s:enumeration value='x'/></s:restriction></s:simpleType>"
	if vnd.Bool() {
		inner = "<s:simpleType><s:restriction>" + inner + "<s:maxLength value='3'/></s:restriction></s:simpleType>"
	}
	base := []string{"B", "C", "E"}[vnd.Choose(3)]
	typ := "<s:simpleContent><s:restriction base='b:" + base + "'>" + inner + "<s:maxLength value='2'/></s:restriction></s:simpleContent></s:complexType>"
	if vnd.Bool() {
		typ = "<s:complexType name='R'>" + typ
	} else {
		typ = "<s:element name='R'><s:complexType>" + typ + "</s:element>"
	}
	bind := func(tns string) string {
		return "<s:schema xmlns:s='" + xs + "' xmlns:b='" + ns + "' targetNamespace='" + tns + "'>"
	}
	var docs []string
	text := ""
	for _, d := range decls {
		text += d
	}
	switch {
	case ns == "v":
		docs = []string{bind("u") + typ + end, bind("v") + text + end}
	case vnd.Bool():
		docs = []string{bind("u") + typ + text + end}
	default:
		docs = []string{bind("u") + text + typ + end}
	}
	if len(docs) == 2 && vnd.Bool() {
		docs[0], docs[1] = docs[1], docs[0]
	}
	all := mustParse(docs...)
	closed(all)
	r := complexOf(all["u"], "R")
	vnd.Assert(r.Base == all[ns].Types[n(ns, base)], "the type still derives from its base")
	vnd.Assert(!r.Extends && r.Mixed && len(r.Elements) == 0 && len(r.Attributes) == 0, "by restriction")
	enums, limits := 0, 0
	for _, t := range all["u"].Types {
		if t, ok := t.(*xsd.SimpleType); ok && t.Anonymous {
			if len(t.Restriction.Enum) == 1 && t.Restriction.Enum[0] == "x" {
				enums++
			}
			if t.Restriction.MaxLength == 3 {
				limits++
				b, ok := t.Base.(*xsd.SimpleType)
				vnd.Assert(ok && len(b.Restriction.Enum) == 1, "a simple type that restricts another")
			}
		}
	}
	vnd.Assert(enums == 1 && limits == len(inner)/150, "every anonymous type is listed")
}
