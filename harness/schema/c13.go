package schema

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

// alike asserts that two types have the same content. Their names are only
// compared if the schema's author gave them.
func alike(a, b xsd.Type, depth int, what string) {
	switch a := a.(type) {
	case xsd.Builtin:
		vnd.Assert(xsd.Type(a) == b, what+": the same built-in type")
	case *xsd.SimpleType:
		b, ok := b.(*xsd.SimpleType)
		vnd.Assert(ok, what+": a simple type")
		vnd.Assert(a.List == b.List && len(a.Union) == len(b.Union), what+": the same kind of simple type")
		vnd.Assert(len(a.Restriction.Enum) == len(b.Restriction.Enum), what+": as many values")
		for i := range a.Restriction.Enum {
			vnd.Assert(a.Restriction.Enum[i] == b.Restriction.Enum[i], what+": the same values")
		}
		if depth > 0 {
			alike(a.Base, b.Base, depth-1, what+", base")
		}
	case *xsd.ComplexType:
		b, ok := b.(*xsd.ComplexType)
		vnd.Assert(ok, what+": a complex type")
		vnd.Assert(a.Extends == b.Extends && a.Mixed == b.Mixed && a.Abstract == b.Abstract, what+": the same flags")
		alikeContent(a, b, depth, what)
		if depth > 0 {
			alike(a.Base, b.Base, depth-1, what+", base")
		}
	default:
		vnd.Assert(false, what+": resolved")
	}
}

func alikeContent(a, b *xsd.ComplexType, depth int, what string) {
	vnd.Assert(len(a.Elements) == len(b.Elements), what+": the same number of elements")
	for i, x := range a.Elements {
		y := b.Elements[i]
		vnd.Assert(x.Name == y.Name, what+": the same element names in the same order")
		vnd.Assert(x.Plural == y.Plural, what+": Plural")
		vnd.Assert(x.Optional == y.Optional, what+": Optional")
		vnd.Assert(x.Nillable == y.Nillable && x.Abstract == y.Abstract && x.Wildcard == y.Wildcard, what+": element flags")
		vnd.Assert(x.Default == y.Default, what+": element default")
		if depth > 0 {
			alike(x.Type, y.Type, depth-1, what+", element")
		}
	}
	vnd.Assert(len(a.Attributes) == len(b.Attributes), what+": the same number of attributes")
	for i, x := range a.Attributes {
		y := b.Attributes[i]
		vnd.Assert(x.Name == y.Name, what+": the same attribute names in the same order")
		vnd.Assert(x.Optional == y.Optional, what+": attribute use")
		vnd.Assert(x.Default == y.Default, what+": attribute default")
		if depth > 0 {
			alike(x.Type, y.Type, depth-1, what+", attribute")
		}
	}
}

// sameT compares type T of two schemas, one with references, one without.
func sameT(refs, inline string) {
	s := mustParse(refs)
	vnd.Observe("written out", inline)
	u := mustParse(inline)
	closed(s)
	alikeContent(complexOf(s["u"], "T"), complexOf(u["u"], "T"), 2, "T")
}

// order puts declarations before or after the type that uses them.
func around(decls, typ string) string {
	if vnd.Bool() {
		return open("u") + decls + typ + end
	}
	return open("u") + typ + decls + end
}

// override merges the attributes of a reference into those of a declaration.
type atts [][2]string

func (a atts) String() string {
	s := ""
	for _, x := range a {
		s += attr(x[0], x[1])
	}
	return s
}

func (a atts) with(b atts) atts {
	out := append(atts{}, a...)
next:
	for _, y := range b {
		if y[1] == "-" {
			continue
		}
		for i := range out {
			if out[i][0] == y[0] {
				out[i][1] = y[1]
				continue next
			}
		}
		out = append(out, y)
	}
	return out
}

// H_ref_element: a reference to a top-level element.
func H_ref_element() {
	opt := func(vals ...string) string { return vals[vnd.Choose(len(vals))] }
	name := "e" + vnd.StringOf("efX", 1)
	decl := atts{{"name", name}, {"nillable", opt("-", "true")}, {"default", opt("-", "d")}, {"abstract", opt("-", "1")}}
	inner := ""
	k := vnd.Choose(5)
	switch k {
	case 0:
		decl = append(decl, [2]string{"type", "s:int"})
	case 1:
		decl = append(decl, [2]string{"type", "t:B"})
	case 2:
		inner = "<s:simpleType><s:restriction base='s:token'><s:enumeration value='x'/></s:restriction></s:simpleType>"
	case 3:
		inner = "<s:complexType mixed='true'><s:sequence><s:element name='in' type='t:B'/></s:sequence><s:attribute name='at'/></s:complexType>"
	}
	ref := atts{{"minOccurs", opt("-", "0", "2")}, {"maxOccurs", opt("-", "unbounded")}}
	if k == 0 {
		ref = append(ref, [2]string{"nillable", opt("-", "false", "true")}, [2]string{"default", opt("-", "r", "")})
	}
	other := "<s:element name='e1' type='s:date'/><s:element name='ee' type='s:byte'/><s:complexType name='B'><s:sequence><s:element name='b' type='s:int'/></s:sequence></s:complexType>"
	if name == "ee" {
		other = other[:34] + other[70:]
	}
	pre, post := "<s:complexType name='T'><s:sequence><s:element name='x' type='s:int'/>", "<s:element name='y' type='s:string'/></s:sequence></s:complexType>"
	decls := "<s:element" + decl.String() + ">" + inner + "</s:element>" + other
	if vnd.Bool() {
		pre, post = "<s:complexType name='T'><s:choice>", "</s:choice></s:complexType>"
	}
	local := "<s:element" + decl.with(ref).String() + ">" + inner + "</s:element>"
	sameT(around(decls, pre+"<s:element ref='t:"+name+"'"+ref.String()+"/>"+post), open("u")+other+pre+local+post+end)
}

// H_ref_attribute: a reference to a top-level attribute.
func H_ref_attribute() {
	opt := func(vals ...string) string { return vals[vnd.Choose(len(vals))] }
	name := "a" + vnd.StringOf("abX", 1)
	decl := atts{{"name", name}, {"default", opt("-", "d", "")}}
	inner := ""
	switch vnd.Choose(4) {
	case 0:
		decl = append(decl, [2]string{"type", "s:int"})
	case 1:
		decl = append(decl, [2]string{"type", "t:B"})
	case 2:
		inner = "<s:simpleType><s:list itemType='t:B'/></s:simpleType>"
	}
	ref := atts{{"use", opt("-", "required", "optional")}, {"default", opt("-", "r", "")}}
	other := "<s:attribute name='ax' type='s:date'/><s:element name='" + name + "' type='s:byte'/><s:simpleType name='B'><s:restriction base='s:int'/></s:simpleType>"
	pre, post := "<s:complexType name='T'><s:attribute name='x' type='s:int'/>", "<s:attribute name='y'/></s:complexType>"
	switch vnd.Choose(3) {
	case 1:
		pre, post = "<s:complexType name='T'><s:simpleContent><s:extension base='s:int'>", "</s:extension></s:simpleContent></s:complexType>"
	case 2:
		pre, post = "<s:complexType name='T'><s:complexContent><s:restriction base='s:anyType'><s:attribute name='x'/>", "</s:restriction></s:complexContent></s:complexType>"
	}
	decls := "<s:attribute" + decl.String() + ">" + inner + "</s:attribute>" + other
	local := "<s:attribute" + decl.with(ref).String() + ">" + inner + "</s:attribute>"
	sameT(around(decls, pre+"<s:attribute ref='t:"+name+"'"+ref.String()+"/>"+post), open("u")+other+pre+local+post+end)
}

// H_ref_group: groups that refer to groups and elements, declared in any
// order, used once or twice.
func H_ref_group() {
	body := make([]string, 3) // contents of the groups written out
	decls := make([]string, 3)
	names := "GHI"
	top := "<s:element name='e' type='s:int' default='5'/>"
	depth := 1 + vnd.Choose(3)
	for i := 0; i < depth; i++ {
		p := []string{"sequence", "choice", "all"}[vnd.Choose(3)]
		l := names[i : i+1]
		min := "1"
		if i == 0 || vnd.Tier() == 1 {
			min = vnd.StringOf("01", 1)
		}
		in := "<s:element name='" + l + "1' type='s:int' minOccurs='" + min + "'/>"
		out := in
		if i > 0 {
			m := ""
			inner := body[i-1]
			if vnd.Tier() == 1 && vnd.Bool() {
				m = " minOccurs='" + vnd.StringOf("01", 1) + "' maxOccurs='" + vnd.StringOf("12", 1) + "'"
			} else if i == 2 {
				m = " maxOccurs='2'"
			}
			if m != "" {
				inner = "<s:sequence" + m + ">" + inner + "</s:sequence>"
			}
			in = in + "<s:group ref='t:" + names[i-1:i] + "'" + m + "/>"
			out = out + inner
			if i == 1 && vnd.Bool() {
				in += "<s:element name='" + l + "2' type='s:date'/>"
				out += "<s:element name='" + l + "2' type='s:date'/>"
			}
		} else if depth < 3 && vnd.Bool() {
			in += "<s:element ref='t:e' maxOccurs='2'/>"
			out += "<s:element name='e' type='s:int' default='5' maxOccurs='2'/>"
		}
		decls[i] = "<s:group name='" + l + "'><s:annotation/><s:" + p + ">" + in + "</s:" + p + "></s:group>"
		body[i] = "<s:" + p + ">" + out + "</s:" + p + ">"
	}
	d := ""
	before := vnd.Bool()
	perm := 0
	if !before || vnd.Tier() == 1 {
		perm = vnd.Choose(3)
	}
	for _, i := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}[perm] {
		d += decls[i]
	}
	occ := ""
	b := body[depth-1]
	if depth < 3 || vnd.Tier() == 1 {
		occ = []string{"", " minOccurs='0'", " maxOccurs='unbounded'"}[vnd.Choose(3)]
	}
	ref := "<s:group ref='t:" + names[depth-1:depth] + "'" + occ + "/>"
	if occ != "" {
		b = "<s:sequence" + occ + ">" + b + "</s:sequence>"
	}
	wrap := func(s string) string { return s }
	switch vnd.Choose(4) {
	case 1:
		wrap = func(s string) string {
			return "<s:sequence><s:element name='x' type='s:int'/>" + s + "<s:element name='y'/></s:sequence>"
		}
	case 2:
		wrap = func(s string) string { return "<s:choice><s:element name='x' type='s:int'/>" + s + "</s:choice>" }
	case 3:
		wrap = func(s string) string {
			return "<s:complexContent><s:extension base='s:anyType'><s:sequence>" + s + "</s:sequence><s:attribute name='z'/></s:extension></s:complexContent>"
		}
	}
	typ := func(s string) string {
		return "<s:complexType name='T'>" + wrap(s) + "</s:complexType><s:complexType name='V'><s:choice>" + s + "</s:choice></s:complexType>"
	}
	refs, inline := open("u")+typ(ref)+d+top+end, open("u")+typ(b)+end
	if before {
		refs = open("u") + d + top + typ(ref) + end
	}
	s, u := mustParse(refs), mustParse(inline)
	alikeContent(complexOf(s["u"], "T"), complexOf(u["u"], "T"), 2, "T")
	alikeContent(complexOf(s["u"], "V"), complexOf(u["u"], "V"), 2, "V")
}

// H_ref_attgroup: attribute groups within attribute groups.
func H_ref_attgroup() {
	names := "GHI"
	decls := make([]string, 3)
	body := make([]string, 3)
	top := "<s:attribute name='e' type='s:int' default='5'/>"
	depth := 1 + vnd.Choose(3)
	for i := 0; i < depth; i++ {
		l := names[i : i+1]
		in := "<s:attribute name='" + l + "1' type='s:int'" + attr("use", []string{"-", "required"}[vnd.Choose(2)]) + "/>"
		out := in
		if i > 0 {
			in += "<s:attributeGroup ref='t:" + names[i-1:i] + "'/>"
			out += body[i-1]
			if vnd.Bool() {
				in += "<s:attribute name='" + l + "2'/>"
				out += "<s:attribute name='" + l + "2'/>"
			}
		} else if vnd.Bool() {
			in += "<s:attribute ref='t:e' use='required'/>"
			out += "<s:attribute name='e' type='s:int' default='5' use='required'/>"
		}
		decls[i] = "<s:attributeGroup name='" + l + "'>" + in + "</s:attributeGroup>"
		body[i] = out
	}
	d := ""
	for _, i := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}[vnd.Choose(3)] {
		d += decls[i]
	}
	pre, post := "<s:attribute name='x'/>", "<s:attribute name='y' type='s:int'/>"
	switch vnd.Choose(3) {
	case 1:
		pre, post = "<s:simpleContent><s:extension base='s:int'>", "</s:extension></s:simpleContent>"
	case 2:
		pre, post = "<s:complexContent><s:extension base='s:anyType'><s:group ref='t:G'/>", "</s:extension></s:complexContent>"
		d += "<s:group name='G'><s:sequence/></s:group>"
	}
	typ := func(s string) string {
		return "<s:complexType name='T'>" + pre + s + post + "</s:complexType><s:complexType name='V'>" + s + "</s:complexType>"
	}
	refs := around(d+top, typ("<s:attributeGroup ref='t:"+names[depth-1:depth]+"'/>"))
	inl := open("u") + typ(body[depth-1]) + "<s:group name='G'><s:sequence/></s:group>" + end
	s, u := mustParse(refs), mustParse(inl)
	alikeContent(complexOf(s["u"], "T"), complexOf(u["u"], "T"), 2, "T")
	alikeContent(complexOf(s["u"], "V"), complexOf(u["u"], "V"), 2, "V")
}

// H_ref_chain: elements whose types use references to elements, several
// levels, in any order, including to themselves.
func H_ref_chain() {
	decls := []string{
		"<s:element name='a'><s:complexType><s:sequence><s:element ref='t:b' maxOccurs='2'/><s:element name='z'/></s:sequence><s:attributeGroup ref='t:g'/></s:complexType></s:element>",
		"<s:element name='b'><s:complexType><s:choice><s:element ref='t:c'/><s:group ref='t:g'/></s:choice></s:complexType></s:element>",
		"<s:element name='c' type='s:int' nillable='true'/>",
		"<s:group name='g'><s:sequence><s:element ref='t:c' minOccurs='0'/><s:element ref='t:d'/></s:sequence></s:group>",
		"<s:element name='d' type='s:date'/>",
		"<s:attributeGroup name='g'><s:attribute ref='t:c' use='required'/></s:attributeGroup>",
		"<s:attribute name='c' type='s:byte'/>",
		"<s:complexType name='T'><s:sequence><s:element ref='t:a'/></s:sequence></s:complexType>",
	}
	doc := ""
	// any rotation, forwards or backwards, of the declarations
	k, back, step := vnd.Choose(len(decls)), vnd.Bool(), []int{1, 3, 5}[vnd.Choose(3)]
	for i := range decls {
		j := (k + i*step) % len(decls)
		if back {
			j = len(decls) - 1 - j
		}
		doc += decls[j]
	}
	s := mustParse(open("u") + doc + end)
	closed(s)
	t := complexOf(s["u"], "T")
	vnd.Assert(len(t.Elements) == 1 && t.Elements[0].Name == n("u", "a"), "T has a")
	a, ok := t.Elements[0].Type.(*xsd.ComplexType)
	vnd.Assert(ok && len(a.Elements) == 2 && a.Elements[0].Name == n("u", "b") && a.Elements[0].Plural && a.Elements[1].Name == n("u", "z"), "a has b and z")
	vnd.Assert(len(a.Attributes) == 1 && a.Attributes[0].Name.Local == "c" && a.Attributes[0].Type == xsd.Type(xsd.Byte) && !a.Attributes[0].Optional, "a has attribute c")
	b, ok := a.Elements[0].Type.(*xsd.ComplexType)
	vnd.Assert(ok && len(b.Elements) == 2, "b has c and d")
	c, d := b.Elements[0], b.Elements[1]
	vnd.Assert(c.Name == n("u", "c") && c.Type == xsd.Type(xsd.Int) && c.Nillable && c.Optional, "c")
	vnd.Assert(d.Name == n("u", "d") && d.Type == xsd.Type(xsd.Date) && d.Optional && !d.Nillable, "d")
}

// H_ref_prefix: any spelling of the namespace, declared anywhere.
func H_ref_prefix() {
	kind := vnd.Choose(4)
	tag := []string{"element", "attribute", "group", "attributeGroup"}[kind]
	p := vnd.StringOf("tkz", 1)
	q := p + ":"
	if vnd.Bool() {
		p, q = "", ""
	}
	// declarations on the schema, the type and the reference
	where := vnd.Choose(4)
	ds := []string{"", "", ""}
	if where < 3 {
		d := " xmlns:k='" + vnd.StringOf("uv", 1) + "'"
		if vnd.Bool() {
			d = " xmlns='" + vnd.StringOf("uv", 1) + "'"
		}
		ds[where] = d
	}
	ref := "<s:" + tag + " ref='" + q + "m'" + ds[2] + "/>"
	if kind == 0 {
		ref = "<s:sequence>" + ref + "</s:sequence>"
	}
	decl := []string{
		"<s:element name='m' type='q:int' xmlns:q='" + xs + "'/>",
		"<s:attribute name='m' type='q:int' xmlns:q='" + xs + "'/>",
		"<s:group name='m' xmlns:q='" + xs + "'><q:sequence><q:element name='m' type='q:int'/></q:sequence></s:group>",
		"<s:attributeGroup name='m' xmlns:q='" + xs + "'><q:attribute name='m' type='q:int'/></s:attributeGroup>",
	}[kind]
	typ := "<s:complexType name='T'" + ds[1] + ">" + ref + "</s:complexType>"
	doc := "<s:schema xmlns:s='" + xs + "' xmlns:t='u' targetNamespace='u'" + ds[0] + ">"
	if vnd.Bool() {
		doc += decl + typ + end
	} else {
		doc += typ + decl + end
	}
	other := "<s:schema xmlns:s='" + xs + "' xmlns:t='v' targetNamespace='v'><s:" + tag + " name='n'/></s:schema>"
	uri := ""
	if p == "t" {
		uri = "u"
	}
	for _, d := range ds {
		if p == "k" && len(d) > 7 && d[6] == ':' || p == "" && len(d) > 7 && d[6] == '=' {
			uri = d[len(d)-2 : len(d)-1]
		}
	}
	s, err := parse(doc, other)
	if uri != "u" {
		vnd.Assert(err != nil, "a reference to something undeclared is an error")
		vnd.Cover("rejected")
		return
	}
	vnd.Assert(err == nil, "a reference by any prefix is accepted")
	t := complexOf(s["u"], "T")
	if kind == 0 || kind == 2 {
		vnd.Assert(len(t.Elements) == 1 && t.Elements[0].Name == n("u", "m") && t.Elements[0].Type == xsd.Type(xsd.Int), "the element")
	} else {
		vnd.Assert(len(t.Attributes) == 1 && t.Attributes[0].Name.Local == "m" && t.Attributes[0].Type == xsd.Type(xsd.Int), "the attribute")
	}
}

// H_ref_undeclared: names near a declared one, and declarations of another
// kind or inside a type.
func H_ref_undeclared() {
	tags := []string{"element", "attribute", "group", "attributeGroup"}
	kind := vnd.Choose(4)
	l := vnd.StringOf("mM", 1+vnd.Choose(2))
	ref := "<s:" + tags[kind] + " ref='t:" + l + "'/>"
	typ := "<s:complexType name='T'>" + ref + "</s:complexType>"
	if kind == 0 {
		typ = "<s:complexType name='T'><s:all>" + ref + "</s:all></s:complexType>"
	}
	decl := vnd.Choose(6)
	d := ""
	switch decl {
	case 4: // only inside a type
		d = "<s:complexType name='m'><s:sequence><s:element name='m'/></s:sequence><s:attribute name='m'/></s:complexType>"
	case 5: // only in another namespace
	default:
		d = "<s:" + tags[decl] + " name='m'/>"
	}
	other := "<s:schema xmlns:s='" + xs + "' targetNamespace='v'><s:" + tags[kind] + " name='m'/></s:schema>"
	doc := open("u") + d + typ + end
	if vnd.Bool() {
		doc = open("u") + typ + d + end
	}
	s, err := parse(doc, other)
	if l == "m" && decl == kind {
		vnd.Assert(err == nil, "a declared name is accepted")
		vnd.Assert(len(complexOf(s["u"], "T").Elements)+len(complexOf(s["u"], "T").Attributes) == (3-kind)/2*(1-kind/2), "what it refers to")
		return
	}
	vnd.Assert(err != nil, "a reference to something undeclared is an error")
	vnd.Cover("rejected")
}

// H_ref_cycle: groups that contain themselves do not make the parser loop.
func H_ref_cycle() {
	l := func() string { return vnd.StringOf("GH", 1) }
	tag := []string{"group", "attributeGroup"}[vnd.Choose(2)]
	w, x := "", ""
	if tag == "group" {
		w, x = "<s:sequence>", "</s:sequence>"
	}
	doc := ""
	for _, g := range []string{"G", "H"} {
		doc += "<s:" + tag + " name='" + g + "'>" + w + "<s:" + tag + " ref='t:" + l() + "'/>" + x + "</s:" + tag + ">"
	}
	typ := "<s:complexType name='T'><s:" + tag + " ref='t:" + l() + "'/></s:complexType>"
	s, err := parse(around(doc, typ))
	if err == nil {
		closed(s)
	}
}

// H_ref_elements_cycle: an element may contain itself.
func H_ref_elements_cycle() {
	l := func() string { return vnd.StringOf("ab", 1) }
	x, y := l(), l()
	doc := "<s:element name='a'><s:complexType><s:sequence><s:element ref='t:" + x + "' minOccurs='0'/></s:sequence></s:complexType></s:element>" +
		"<s:element name='b'><s:complexType><s:sequence><s:element ref='t:" + y + "' maxOccurs='2'/></s:sequence></s:complexType></s:element>"
	typ := "<s:complexType name='T'><s:sequence><s:element ref='t:" + l() + "'/></s:sequence></s:complexType>"
	s := mustParse(around(doc, typ))
	closed(s)
	a, b := complexOf(s["u"], "a"), complexOf(s["u"], "b")
	vnd.Assert(len(a.Elements) == 1 && a.Elements[0].Name == n("u", x) && a.Elements[0].Optional && !a.Elements[0].Plural, "a")
	vnd.Assert(len(b.Elements) == 1 && b.Elements[0].Name == n("u", y) && b.Elements[0].Plural && !b.Elements[0].Optional, "b")
	vnd.Assert(a.Elements[0].Type == s["u"].Types[n("u", x)] && b.Elements[0].Type == s["u"].Types[n("u", y)], "their types")
}

// H_ref_spaces: references into other namespaces, by chains that go back and
// forth, with documents in any order.
func H_ref_spaces() {
	opn := func(tns string) string {
		return "<s:schema xmlns:s='" + xs + "' xmlns:p='u' xmlns:q='v' targetNamespace='" + tns + "'>"
	}
	occ := vnd.StringOf("12", 1)
	a := opn("u") + "<s:complexType name='T'><s:sequence><s:element ref='q:e' maxOccurs='" + occ + "'/><s:group ref='q:g'/></s:sequence><s:attributeGroup ref='q:g'/></s:complexType>" +
		"<s:element name='e' type='s:int'/><s:attribute name='e' type='s:int'/>" + end
	b := opn("v") + "<s:element name='e' type='s:date'/><s:group name='g'><s:choice><s:element ref='p:e'/><s:element name='l' type='s:byte'/></s:choice></s:group>" +
		"<s:attributeGroup name='g'><s:attribute ref='p:e' use='required'/></s:attributeGroup>" + end
	docs := [][]string{{a, b}, {b, a}, {"<x>" + a + b + "</x>"}}[vnd.Choose(3)]
	s := mustParse(docs...)
	t := complexOf(s["u"], "T")
	vnd.Assert(len(t.Elements) == 3, "three elements")
	x, y := t.Elements[0], t.Elements[1]
	vnd.Assert(x.Name == n("v", "e") && x.Type == xsd.Type(xsd.Date) && x.Plural == (occ == "2") && !x.Optional, "the element of the other namespace")
	vnd.Assert(y.Name.Local == "e" && y.Type == xsd.Type(xsd.Int) && y.Optional, "the element referred to in the group")
	vnd.Assert(t.Elements[2].Name.Local == "l" && t.Elements[2].Type == xsd.Type(xsd.Byte), "the element of the group")
	vnd.Assert(len(t.Attributes) == 1 && t.Attributes[0].Type == xsd.Type(xsd.Int) && !t.Attributes[0].Optional, "the attribute")
}
