package gen

import (
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsdgen"
)

// part is an element or attribute a struct should carry.
type part struct {
	local, goType, space string
	attr                 bool
	omit                 bool
}

// carries asserts that the struct has a field for each part and no other,
// apart from character data.
func carries(fs []field, parts []part) {
	k := 0
	for _, f := range fs {
		if !f.chardata && !f.any {
			k++
		}
	}
	for _, p := range parts {
		f := carrier(fs, p.local, p.attr)
		if f.typ != p.goType {
			vnd.Observe("type of "+p.local, f.typ)
		}
		vnd.Assert(f.typ == p.goType, "of the Go type for its schema type, in a slice if plural")
		if !p.attr {
			vnd.Assert(f.space == p.space, "in its namespace")
		}
		vnd.Assert(f.omitempty == p.omit, "omitted when empty exactly if optional or nillable")
	}
	vnd.Assert(k == len(parts), "no other field")
}

// level declares a type derived from the one before it and tells what it adds.
func level(i int, space string, base string, inherited []part) (string, []part) {
	name := string(rune('A' + i))
	el := "e" + string(rune('0'+i))
	at := "x" + string(rune('0'+i))
	body, parts := "", append([]part(nil), inherited...)
	kind := vnd.Choose(4)
	deriv := "extension"
	switch kind {
	case 0: // one of each
		body = "<s:sequence><s:element name='" + el + "' type='s:int' maxOccurs='2'/></s:sequence><s:attribute name='" + at + "' type='s:boolean'/>"
		parts = append(parts, part{el, "[]int", space, false, false}, part{at, "bool", "", true, true})
	case 1: // from groups
		body = "<s:sequence><s:group ref='t:G" + name + "'/></s:sequence><s:attributeGroup ref='t:G" + name + "'/>"
		parts = append(parts, part{el, "string", space, false, true}, part{at, "Enum", "", true, false})
	case 2: // nothing
	case 3: // the same, restricted
		if base == "" {
			vnd.Assume(false)
		}
		deriv = "restriction"
		for _, p := range inherited {
			if p.attr {
				continue
			}
			body += "<s:element name='" + p.local + "' type='s:int'"
			if strings.HasPrefix(p.goType, "[]") {
				body += " maxOccurs='2'"
			}
			body += "/>"
		}
		body = "<s:sequence>" + body + "</s:sequence>"
		for j, p := range parts {
			if p.attr {
				continue
			}
			parts[j].omit = false
			parts[j].space = space
			parts[j].goType = "int"
			if strings.HasPrefix(p.goType, "[]") {
				parts[j].goType = "[]int"
			}
		}
	}
	src := ""
	if kind == 1 {
		src = "<s:group name='G" + name + "'><s:sequence><s:element name='" + el + "' type='s:string' minOccurs='0'/></s:sequence></s:group>" +
			"<s:attributeGroup name='G" + name + "'><s:attribute name='" + at + "' type='t:Enum' use='required'/></s:attributeGroup>"
	}
	if base == "" {
		src += "<s:complexType name='" + name + "'>" + body + "</s:complexType>"
	} else {
		src += "<s:complexType name='" + name + "'><s:complexContent><s:" + deriv + " base='t:" + base + "'>" + body + "</s:" + deriv + "></s:complexContent></s:complexType>"
	}
	return src, parts
}

// H_inherit: chains of derived types.
func H_inherit() {
	var srcs []string
	var want [][]part
	base := ""
	var parts []part
	k := 3 + vnd.Tier()
	for i := 0; i < k; i++ {
		var s string
		s, parts = level(i, "u", base, parts)
		srcs = append(srcs, s)
		want = append(want, parts)
		base = string(rune('A' + i))
	}
	// derived types before or after their bases
	if flip() {
		for i, j := 0, len(srcs)-1; i < j; i, j = i+1, j-1 {
			srcs[i], srcs[j] = srcs[j], srcs[i]
		}
	}
	few()
	_, pkg := mustGenerate(defaults(), schema("u", append(srcs, "<s:simpleType name='Enum'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType>")...))
	for i, w := range want {
		carries(fields(pkg, string(rune('A'+i))), w)
	}
}

// few lets maps be iterated in one of two orders, or more in the thorough tier.
func few() {
	if vnd.Tier() == 0 {
		return
	}
	if flip() {
		vnd.MapOrderFew()
	}
}

// H_simple_content: chains of types with simple content.
func H_simple_content() {
	base := [][3]string{{"s:string", "string", "Value"}, {"s:int", "int", "Value"}, {"s:date", "time.Time", "Value"}, {"s:hexBinary", "[]byte", "Value"},
		{"t:Enum", "Enum", "Enum"}, {"t:Plain", "int", "Value"}, {"t:Many", "Many", "Many"}, {"t:Day", "Day", "Day"}, {"t:Either", "Either", "Either"}}[vnd.Choose(9)]
	var srcs []string
	var want [][]part
	var parts []part
	b := base[0]
	k := vnd.Choose(3) + 1
	for i := 0; i < k; i++ {
		name := string(rune('A' + i))
		at := "x" + string(rune('0'+i))
		body := ""
		parts = append([]part(nil), parts...)
		if i == 0 || flip() {
			ty := [][2]string{{"s:int", "int"}, {"s:date", "time.Time"}, {"t:Day", "Day"}, {"t:Many", "Many"}}[vnd.Choose(2+2*vnd.Tier())]
			body = "<s:attribute name='" + at + "' type='" + ty[0] + "'/>"
			parts = append(parts, part{at, ty[1], "", true, true})
		}
		srcs = append(srcs, "<s:complexType name='"+name+"'><s:simpleContent><s:extension base='"+b+"'>"+body+"</s:extension></s:simpleContent></s:complexType>")
		want = append(want, parts)
		b = "t:" + name
	}
	rec := "<s:complexType name='H'><s:sequence><s:element name='e' type='" + b + "'/></s:sequence></s:complexType>"
	if flip() {
		for i, j := 0, len(srcs)-1; i < j; i, j = i+1, j-1 {
			srcs[i], srcs[j] = srcs[j], srcs[i]
		}
	}
	_, pkg := mustGenerate(defaults(), schema("u", append(srcs, decls, rec)...))
	for i, w := range want {
		fs := fields(pkg, string(rune('A'+i)))
		carries(fs, w)
		n := 0
		for _, f := range fs {
			if f.chardata {
				n++
				vnd.Assert(f.typ == base[1], "the value is of the type of the content")
			}
		}
		vnd.Assert(n == 1, "one value")
	}
	vnd.Assert(carrier(fields(pkg, "H"), "e", false).typ == string(rune('A'+k-1)), "of the derived type")
}

// H_ignore: elements and attributes that options exclude.
func H_ignore() {
	cfg := new(xsdgen.Config)
	iname, aname := choose("a", "b", "c", "A", "*", ""), choose("a", "x", "y", "X", ".", "")
	cfg.Option(xsdgen.Replace(`[._ \s-]`, ""), xsdgen.UseFieldNames())
	if iname != "" {
		cfg.Option(xsdgen.IgnoreElements("zz", iname))
	}
	if aname != "" {
		cfg.Option(xsdgen.IgnoreAttributes(aname, "zz"))
	}
	base := flip()
	use := choose("", " use='required'")
	// with or without a target namespace
	space := choose("u", "")
	doc := "<s:complexType name='A'><s:sequence><s:element name='a' type='s:int'/><s:element name='b' type='s:date'/></s:sequence><s:attribute name='x' type='s:int'" + use + "/></s:complexType>" +
		"<s:complexType name='B'><s:complexContent><s:extension base='t:A'><s:sequence><s:element name='c' type='s:string'/></s:sequence><s:attribute name='y' type='s:int'/><s:attribute name='a' type='s:int'" + use + "/></s:extension></s:complexContent></s:complexType>"
	parts := []part{{"a", "int", space, false, false}, {"b", "time.Time", space, false, false}, {"x", "int", "", true, use == ""}}
	if !base {
		parts = append(parts, part{"c", "string", space, false, false}, part{"y", "int", "", true, true}, part{"a", "int", "", true, use == ""})
	}
	var want []part
	for _, p := range parts {
		if p.local == iname && !p.attr || p.local == aname && p.attr {
			continue
		}
		want = append(want, p)
	}
	src := schema("u", doc)
	if space == "" {
		src = strings.NewReplacer(" xmlns:t='u'", "", " targetNamespace='u'", "", "'t:", "'").Replace(src)
	}
	_, pkg := mustGenerate(cfg, src)
	if base {
		carries(fields(pkg, "A"), want)
	} else {
		carries(fields(pkg, "B"), want)
	}
}

// H_wildcard: wildcards beside elements.
func H_wildcard() {
	occ := choose("", " minOccurs='0'", " maxOccurs='unbounded'")
	nm := choose("item", "items", "a", "value")
	nm2 := choose("item", "items", "b", "item0")
	vnd.Assume(nm != nm2)
	doc := "<s:complexType name='A'><s:sequence><s:element name='" + nm + "' type='s:int'/><s:any" + occ + "/><s:element name='" + nm2 + "' type='s:date'/></s:sequence><s:attribute name='" + nm + "' type='s:int'/></s:complexType>" +
		"<s:complexType name='B'><s:complexContent><s:extension base='t:A'><s:sequence><s:element name='z' type='s:int'/></s:sequence></s:extension></s:complexContent></s:complexType>"
	_, pkg := mustGenerate(defaults(), schema("u", doc))
	parts := []part{{nm, "int", "u", false, false}, {nm2, "time.Time", "u", false, false}, {nm, "int", "", true, true}}
	for i, name := range []string{"A", "B"} {
		if i == 1 {
			parts = append(parts, part{"z", "int", "u", false, false})
		}
		fs := fields(pkg, name)
		carries(fs, parts)
		n := 0
		for _, f := range fs {
			if f.any {
				n++
				want := "string"
				if occ == " maxOccurs='unbounded'" {
					want = "[]string"
				}
				vnd.Assert(f.typ == want, "a wildcard is a string, in a slice if plural")
			}
		}
		vnd.Assert(n == 1, "one field for the wildcard")
	}
}

// H_anon: anonymous types of elements and attributes, nested, with names that
// collide.
func H_anon() {
	n1 := choose("a", "A", "b", "H")
	n2 := choose("a", "c", "h", "b")
	n3 := choose("a", "b", "c")
	simple := flip()
	inner := "<s:complexType><s:sequence><s:element name='" + n3 + "'><s:complexType><s:attribute name='deep' type='s:int'/></s:complexType></s:element><s:element name='in2' type='s:int'/></s:sequence></s:complexType>"
	if simple {
		inner = "<s:simpleType><s:restriction base='s:string'><s:enumeration value='one'/></s:restriction></s:simpleType>"
	}
	second := "<s:complexType><s:sequence><s:element name='in3' type='s:int'/></s:sequence></s:complexType>"
	if flip() {
		second = "<s:simpleType><s:restriction base='s:int'><s:enumeration value='1'/></s:restriction></s:simpleType>"
	}
	two := flip()
	h := "<s:complexType name='H'><s:sequence><s:element name='" + n1 + "'>" + inner + "</s:element>"
	if two {
		vnd.Assume(n1 != n2)
		h += "<s:element name='" + n2 + "'>" + second + "</s:element></s:sequence></s:complexType>"
	} else {
		h += "</s:sequence></s:complexType><s:complexType name='K'><s:sequence><s:element name='" + n2 + "'>" + second + "</s:element></s:sequence></s:complexType>"
	}
	opts := flip()
	cfg := defaults()
	if !opts {
		cfg = new(xsdgen.Config)
		cfg.Option(xsdgen.Replace(`[._ \s-]`, ""))
	}
	_, pkg := mustGenerate(cfg, schema("u", h))
	hf := fields(pkg, "H")
	e1 := carrier(hf, n1, false)
	if simple {
		vnd.Assert(decl(pkg, e1.typ).Underlying().String() == "string", "the anonymous simple type")
	} else {
		inf := fields(pkg, e1.typ)
		vnd.Assert(carrier(inf, "in2", false).typ == "int" && len(inf) == 2, "the anonymous complex type")
		deep := fields(pkg, carrier(inf, n3, false).typ)
		vnd.Assert(carrier(deep, "deep", true).typ == "int" && len(deep) == 1, "the type nested in it")
	}
	owner := "H"
	if !two {
		owner = "K"
		vnd.Assert(len(hf) == 1, "one field")
	}
	kf := fields(pkg, owner)
	e2 := carrier(kf, n2, false)
	if strings.HasPrefix(second, "<s:simple") {
		vnd.Assert(decl(pkg, e2.typ).Underlying().String() == "int", "the second anonymous simple type")
	} else {
		inf := fields(pkg, e2.typ)
		vnd.Assert(carrier(inf, "in3", false).typ == "int" && len(inf) == 1, "the second anonymous complex type")
	}
}

// H_anon_fields: elements and attributes with anonymous types of their own,
// whose names may be those of one another, in one or two owners.
func H_anon_fields() {
	kinds := []struct{ src, want string }{
		{"<s:restriction base='s:string'><s:enumeration value='one'/></s:restriction>", "string"},
		{"<s:restriction base='s:int'><s:minInclusive value='1'/></s:restriction>", "int"},
		{"<s:list itemType='s:int'/>", "[]int"},
		{"<s:restriction base='s:date'><s:minInclusive value='2000-01-01'/></s:restriction>", "time"},
		{"", "struct"},
	}
	type decl0 struct {
		owner, name, want string
		attr              bool
	}
	var decls []decl0
	parts := map[string]*[2]string{"H": {}, "K": {}}
	used := map[string]bool{}
	first := vnd.Choose(2 + 3*vnd.Tier()) * (4 - 3*vnd.Tier())
	for i := 0; i < 3; i++ {
		k := kinds[(first+i)%len(kinds)]
		d := decl0{"H", choose([]string{"a", "A", "b"}[:2+vnd.Tier()]...), k.want, flip()}
		if i == 2 && flip() {
			d.owner = "K"
		}
		id := d.owner + d.name
		if d.attr {
			id += " attr"
		}
		vnd.Assume(!used[id])
		used[id] = true
		typ := "<s:simpleType>" + k.src + "</s:simpleType>"
		if k.src == "" {
			vnd.Assume(!d.attr)
			typ = "<s:complexType><s:attribute name='in' type='s:int'/></s:complexType>"
		}
		p := parts[d.owner]
		if d.attr {
			p[1] += "<s:attribute name='" + d.name + "'>" + typ + "</s:attribute>"
		} else {
			p[0] += "<s:element name='" + d.name + "'>" + typ + "</s:element>"
		}
		decls = append(decls, d)
	}
	body := ""
	for _, o := range []string{"H", "K"} {
		body += "<s:complexType name='" + o + "'><s:sequence>" + parts[o][0] + "</s:sequence>" + parts[o][1] + "</s:complexType>"
	}
	_, pkg := mustGenerate(defaults(), schema("u", body))
	for _, d := range decls {
		f := carrier(fields(pkg, d.owner), d.name, d.attr)
		got := typeString(pkg, f.t.Underlying())
		switch d.want {
		case "struct":
			vnd.Assert(carrier(fields(pkg, f.typ), "in", true).typ == "int", "of its own anonymous type")
		case "time":
			vnd.Assert(f.typ == "time.Time" || typeString(pkg, decl(pkg, f.typ)) != "" && strings.HasPrefix(got, "struct"), "of its own anonymous type")
		default:
			vnd.Assert(got == d.want, "of its own anonymous type")
		}
	}
}

// H_same_name: types whose Go names coincide.
func H_same_name() {
	a, b := choose("foo", "Foo", "fo.o"), choose("Foo", "fo-o", "foo0", "xsdDate", "XsdDate")
	vnd.Assume(a != b)
	k := vnd.Choose(3)
	t1 := "<s:complexType name='" + a + "'><s:sequence><s:element name='one' type='s:int'/></s:sequence></s:complexType>"
	t2 := "<s:complexType name='" + b + "'><s:sequence><s:element name='two' type='s:date'/></s:sequence></s:complexType>"
	ns1, ns2 := "u", "u"
	switch k {
	case 1:
		t2 = "<s:simpleType name='" + b + "'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType>"
	case 2:
		ns2 = "v"
	}
	hold := "<s:complexType name='Hold'><s:sequence><s:element name='h1' type='a:" + a + "'/><s:element name='h2' type='b:" + b + "'/></s:sequence></s:complexType>"
	open := func(tns string) string {
		return "<s:schema xmlns:s='" + xs + "' xmlns:a='" + ns1 + "' xmlns:b='" + ns2 + "' targetNamespace='" + tns + "'>"
	}
	var docs []string
	if ns1 == ns2 {
		docs = []string{open("u") + t1 + t2 + hold + "</s:schema>"}
	} else {
		docs = []string{open("u") + t1 + hold + "</s:schema>", open("v") + t2 + "</s:schema>"}
	}
	few()
	_, pkg := mustGenerate(defaults(), docs...)
	hf := fields(pkg, "Hold")
	vnd.Assert(len(hf) == 2, "two fields")
	f1 := fields(pkg, carrier(hf, "h1", false).typ)
	vnd.Assert(len(f1) == 1 && carrier(f1, "one", false).typ == "int", "the first type")
	second := carrier(hf, "h2", false).typ
	if k == 1 {
		vnd.Assert(decl(pkg, second).Underlying().String() == "string", "the second type")
		return
	}
	f2 := fields(pkg, second)
	vnd.Assert(len(f2) == 1 && carrier(f2, "two", false).typ == "time.Time", "the second type")
}

// H_local_name: elements of different namespaces with one local name, in a
// type and the type it derives from.
func H_local_name() {
	open := func(tns string) string {
		return "<s:schema xmlns:s='" + xs + "' xmlns:u='u' xmlns:v='v' targetNamespace='" + tns + "' elementFormDefault='qualified'>"
	}
	occ := choose("", " minOccurs='0'", " maxOccurs='4'")
	own := "<s:element name='e' type='s:date'" + occ + "/>"
	if flip() {
		own = "<s:element ref='v:e'" + occ + "/>"
	}
	base := "<s:element name='e' type='s:int'/><s:element name='b' type='s:int'/>"
	bs := "v"
	if own[11] == 'r' {
		bs = "u"
	}
	bt := "<s:complexType name='B'><s:sequence>" + base + "</s:sequence><s:attribute name='e' type='s:boolean'/></s:complexType>"
	// an attribute of the other namespace with the name of an inherited one
	refAttr := ""
	if occ == "" && bs == "u" && flip() {
		refAttr = "<s:attribute ref='v:e'/>"
	}
	dt := "<s:complexType name='D'><s:complexContent><s:extension base='" + bs + ":B'><s:sequence>" + own + "<s:element name='d' type='s:string'/></s:sequence>" + refAttr + "</s:extension></s:complexContent></s:complexType>"
	et := "<s:complexType name='E'><s:complexContent><s:extension base='u:D'/></s:complexContent></s:complexType>"
	top := "<s:element name='e' type='s:date'/><s:attribute name='e' type='s:string'/>"
	u, v := dt+et, top
	if bs == "v" {
		v += bt
	} else {
		u += bt
	}
	docs := []string{open("u") + u + "</s:schema>", open("v") + v + "</s:schema>"}
	vnd.Observe("u", docs[0])
	vnd.Observe("v", docs[1])
	if flip() {
		docs[0], docs[1] = docs[1], docs[0]
	}
	_, pkg := mustGenerate(defaults(), docs...)
	for _, name := range []string{"D", "E"} {
		fs := fields(pkg, name)
		got := make(map[string]string)
		for _, f := range fs {
			if !f.attr {
				vnd.Assert(got[f.space+" "+f.local] == "", "no two fields for one element")
				got[f.space+" "+f.local] = f.typ
			}
		}
		want := "time.Time"
		if occ == " maxOccurs='4'" {
			want = "[]time.Time"
		}
		os := "u"
		if bs == "u" {
			os = "v"
		}
		if refAttr != "" {
			attrs := make(map[string]string)
			for _, f := range fs {
				if f.attr {
					attrs[f.space+" "+f.local] = f.typ
				}
			}
			vnd.Assert(len(got) == 4 && len(fs) == 6, "as many fields as members")
			vnd.Assert(len(attrs) == 2 && attrs[" e"] == "bool" && attrs["v e"] == "string", "attributes")
			continue
		}
		vnd.Assert(len(got) == 4 && len(fs) == 5, "as many fields as members")
		vnd.Assert(got[bs+" e"] == "int" && got[bs+" b"] == "int", "inherited elements")
		vnd.Assert(got[os+" e"] == want && got["u d"] == "string", "its elements")
		vnd.Assert(carrier(fs, "e", true).typ == "bool", "attributes")
	}
}

// H_spaces: types of several namespaces that use one another.
func H_spaces() {
	b := "<s:complexType name='B'><s:sequence><s:element name='b' type='s:int'/><s:element name='r' type='v:E'/></s:sequence><s:attribute name='y' type='v:E'/></s:complexType><s:simpleType name='E'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType>" +
		"<s:simpleType name='P'><s:restriction base='s:int'/></s:simpleType>"
	a := "<s:complexType name='A'><s:complexContent><s:extension base='v:B'><s:sequence><s:element name='a' type='v:E'/><s:element name='p' type='v:P'/><s:element name='d' type='s:date' minOccurs='0'/></s:sequence><s:attribute name='x' type='v:E' use='required'/></s:extension></s:complexContent></s:complexType>" +
		"<s:complexType name='C'><s:sequence><s:element name='c' type='v:B' maxOccurs='3'/></s:sequence></s:complexType>"
	open := func(tns string) string {
		return "<s:schema xmlns:s='" + xs + "' xmlns:u='u' xmlns:v='v' targetNamespace='" + tns + "'>"
	}
	docs := []string{open("u") + a + "</s:schema>", open("v") + b + "</s:schema>"}
	if flip() {
		docs[0], docs[1] = docs[1], docs[0]
	}
	cfg := defaults()
	sel := vnd.Choose(3)
	if sel == 1 {
		cfg.Option(xsdgen.Namespaces("u"))
	} else if sel == 2 {
		cfg.Option(xsdgen.Namespaces("v"))
	}
	few()
	_, pkg := mustGenerate(cfg, docs...)
	if sel != 2 {
		fs := fields(pkg, "A")
		vnd.Assert(len(fs) == 7, "as many fields as members")
		vnd.Assert(carrier(fs, "b", false).typ == "int" && carrier(fs, "r", false).typ == "E", "inherited elements")
		vnd.Assert(carrier(fs, "a", false).typ == "E" && carrier(fs, "p", false).typ == "int", "its elements")
		vnd.Assert(carrier(fs, "d", false).typ == "time.Time", "its elements")
		vnd.Assert(carrier(fs, "x", true).typ == "E" && carrier(fs, "y", true).typ == "E", "attributes")
		fs = fields(pkg, "C")
		vnd.Assert(len(fs) == 1 && carrier(fs, "c", false).typ == "[]B", "a type of another namespace")
	} else {
		vnd.Assert(pkg.Scope().Lookup("A") == nil, "types of namespaces that are not selected are not generated")
	}
	fs := fields(pkg, "B")
	vnd.Assert(len(fs) == 3, "as many fields as members")
	vnd.Assert(carrier(fs, "b", false).typ == "int" && carrier(fs, "r", false).typ == "E" && carrier(fs, "y", true).typ == "E", "members")
	vnd.Assert(decl(pkg, "E").Underlying().String() == "string", "simple types")
}
