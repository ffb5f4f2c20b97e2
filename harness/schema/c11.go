package schema

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

// closed asserts that everything reachable from the types of every schema is
// a built-in or the very type declared under its name, and that every chain
// of base types ends.
func closed(all map[string]xsd.Schema) {
	in := func(t xsd.Type, what string) {
		switch t := t.(type) {
		case xsd.Builtin:
			return
		case *xsd.SimpleType:
			vnd.Assert(t != nil, what+" is there")
			vnd.Assert(all[t.Name.Space].Types[t.Name] == xsd.Type(t), what+" is the declared type")
			return
		case *xsd.ComplexType:
			vnd.Assert(t != nil, what+" is there")
			vnd.Assert(all[t.Name.Space].Types[t.Name] == xsd.Type(t), what+" is the declared type")
			return
		}
		vnd.Assert(false, what+" is resolved")
	}
	for ns, s := range all {
		for name, t := range s.Types {
			if _, ok := t.(xsd.Builtin); ok {
				continue // an element of a built-in type
			}
			in(t, "a type")
			vnd.Assert(name.Space == ns, "in its namespace")
			steps := 0
			for b := t; b != nil; b = xsd.Base(b) {
				if steps++; steps > 20 {
					vnd.Assert(false, "the base chain ends")
				}
				if _, ok := b.(xsd.Builtin); ok {
					steps = -1
					break
				}
			}
			vnd.Assert(steps < 0, "the base chain ends in a built-in")
			switch t := t.(type) {
			case *xsd.ComplexType:
				in(t.Base, "a base")
				for _, e := range t.Elements {
					in(e.Type, "an element's type")
				}
				for _, a := range t.Attributes {
					in(a.Type, "an attribute's type")
				}
			case *xsd.SimpleType:
				in(t.Base, "a base")
				for _, u := range t.Union {
					in(u, "a union member")
				}
			}
		}
	}
}

// H_closed_bases: a few types derived from one another in any way.
func H_closed_bases() {
	names := "ABCD"
	count := 2 + vnd.Choose(2+vnd.Tier())
	base := make([]int, count) // -1 for a built-in, count for an undeclared type
	simple := make([]bool, count)
	mixes := false
	doc := ""
	for i := 0; i < count; i++ {
		ref := "s:string"
		b := -1
		if i == 0 || vnd.Bool() {
			l := vnd.StringOf(names[:count]+"X", 1)
			ref = "t:" + l
			b = count
			for j := 0; j < count; j++ {
				if l == names[j:j+1] {
					b = j
				}
			}
		}
		base[i] = b
		nm := " name='" + names[i:i+1] + "'"
		kinds := 5
		if i > 1 {
			kinds = 2
		}
		switch vnd.Choose(kinds) {
		case 0:
			simple[i] = true
			doc += "<s:simpleType" + nm + "><s:restriction base='" + ref + "'/></s:simpleType>"
		case 1:
			doc += "<s:complexType" + nm + "><s:complexContent><s:extension base='" + ref + "'><s:sequence><s:element name='e' type='s:int'/></s:sequence></s:extension></s:complexContent></s:complexType>"
		case 2:
			doc += "<s:complexType" + nm + "><s:complexContent><s:restriction base='" + ref + "'/></s:complexContent></s:complexType>"
		case 3:
			simple[i] = true
			doc += "<s:simpleType" + nm + "><s:list itemType='" + ref + "'/></s:simpleType>"
		case 4:
			doc += "<s:complexType" + nm + "><s:simpleContent><s:extension base='" + ref + "'/></s:simpleContent></s:complexType>"
			simple[i] = b >= 0 && b < count && simple[b] // as a base it is complex
			simple[i] = false
		}
	}
	ok := true
	for i := range base {
		steps := 0
		for j := i; j >= 0; j = base[j] {
			if steps++; j == count || steps > count {
				ok = false
				break
			}
		}
		if ok && base[i] >= 0 && simple[i] && !simple[base[i]] {
			mixes = true
		}
	}
	all, err := parse(open("u") + doc + end)
	if !ok {
		vnd.Assert(err != nil, "undeclared and self-derived types are errors")
		vnd.Cover("rejected")
		return
	}
	if mixes && err != nil {
		return // not valid for another reason
	}
	vnd.Assert(err == nil, "a schema whose types are all declared is accepted")
	closed(all)
	for i := 0; i < count; i++ {
		t := all["u"].Types[n("u", names[i:i+1])]
		vnd.Assert(t != nil, "every declared type is there")
		b := xsd.Base(t)
		if base[i] < 0 {
			vnd.Assert(b == xsd.Type(xsd.String), "a built-in base")
		} else {
			vnd.Assert(b == all["u"].Types[n("u", names[base[i]:base[i]+1])], "the base named")
		}
	}
}

// place returns a schema fragment that refers to a type from one of the
// possible places, and a function to get what the parser made of it.
func place(k int, ref string) (doc string, get func(s xsd.Schema) xsd.Type) {
	elt := func(i int) func(xsd.Schema) xsd.Type {
		return func(s xsd.Schema) xsd.Type { return complexOf(s, "P").Elements[i].Type }
	}
	att := func(i int) func(xsd.Schema) xsd.Type {
		return func(s xsd.Schema) xsd.Type { return complexOf(s, "P").Attributes[i].Type }
	}
	cbase := func(s xsd.Schema) xsd.Type { return complexOf(s, "P").Base }
	sbase := func(s xsd.Schema) xsd.Type { return simpleOf(s, "P").Base }
	switch k {
	case 0:
		return "<s:complexType name='P'><s:sequence><s:element name='e' type='" + ref + "'/></s:sequence></s:complexType>", elt(0)
	case 1:
		return "<s:complexType name='P'><s:attribute name='a' type='" + ref + "'/></s:complexType>", att(0)
	case 2:
		return "<s:simpleType name='P'><s:list itemType='" + ref + "'/></s:simpleType>", sbase
	case 3:
		return "<s:simpleType name='P'><s:union memberTypes='s:int " + ref + "\n s:date'/></s:simpleType>",
			func(s xsd.Schema) xsd.Type {
				u := simpleOf(s, "P").Union
				vnd.Assert(len(u) == 3 && u[0] == xsd.Type(xsd.Int) && u[2] == xsd.Type(xsd.Date), "the other members")
				return u[1]
			}
	case 4:
		return "<s:simpleType name='P'><s:restriction base='" + ref + "'/></s:simpleType>", sbase
	case 5:
		return "<s:complexType name='P'><s:complexContent><s:extension base='" + ref + "'/></s:complexContent></s:complexType>", cbase
	case 6:
		return "<s:complexType name='P'><s:complexContent><s:restriction base='" + ref + "'/></s:complexContent></s:complexType>", cbase
	case 7:
		return "<s:complexType name='P'><s:simpleContent><s:extension base='" + ref + "'/></s:simpleContent></s:complexType>", cbase
	case 8:
		return "<s:complexType name='P'><s:simpleContent><s:restriction base='" + ref + "'/></s:simpleContent></s:complexType>", cbase
	case 9:
		return "<s:element name='P' type='" + ref + "'/>",
			func(s xsd.Schema) xsd.Type { return complexOf(s, "_self").Elements[0].Type }
	case 10:
		return "<s:element name='P' type='" + ref + "'/>",
			func(s xsd.Schema) xsd.Type { return s.Types[n(s.TargetNS, "P")] }
	case 11:
		return "<s:element name='P'><s:complexType><s:choice><s:element name='d'/><s:element name='e' type='" + ref + "'/></s:choice></s:complexType></s:element>", elt(1)
	case 12:
		return "<s:group name='G'><s:sequence><s:element name='e' type='" + ref + "'/></s:sequence></s:group><s:complexType name='P'><s:group ref='t:G'/></s:complexType>", elt(0)
	case 13:
		return "<s:attributeGroup name='G'><s:attribute name='a'/><s:attribute name='b' type='" + ref + "'/></s:attributeGroup><s:complexType name='P'><s:attributeGroup ref='t:G'/></s:complexType>", att(1)
	case 14:
		return "<s:complexType name='P'><s:simpleContent><s:extension base='s:string'><s:attribute name='a' type='" + ref + "'/></s:extension></s:simpleContent></s:complexType>", att(0)
	}
	return "<s:complexType name='P'><s:sequence><s:element name='e'><s:simpleType><s:list itemType='" + ref + "'/></s:simpleType></s:element></s:sequence></s:complexType>",
		func(s xsd.Schema) xsd.Type {
			t, ok := complexOf(s, "P").Elements[0].Type.(*xsd.SimpleType)
			vnd.Assert(ok && t.List, "the anonymous list")
			return t.Base
		}
}

const places = 16

// H_closed_places: any short name in any place, before or after the types.
func H_closed_places() {
	k := vnd.Choose(places)
	l := vnd.StringOf("TUt", 1+vnd.Choose(2+vnd.Tier()))
	vnd.Observe("name", l)
	frag, get := place(k, "t:"+l)
	types := "<s:complexType name='T'/><s:simpleType name='TU'><s:restriction base='s:int'/></s:simpleType><s:complexType name='t'/>"
	simple := k == 2 || k == 3 || k == 4 || k == 1 || k >= 13
	doc := types + frag
	if vnd.Bool() {
		doc = frag + types
	}
	all, err := parse(open("u") + doc + end)
	if l != "T" && l != "TU" && l != "t" {
		vnd.Assert(err != nil, "a name that is not declared is an error")
		vnd.Cover("rejected")
		return
	}
	if (l != "TU") == simple && err != nil {
		return // a complex type where a simple one is needed, or the reverse
	}
	vnd.Assert(err == nil, "a schema whose types are all declared is accepted")
	closed(all)
	got := get(all["u"])
	vnd.Assert(got != nil && got == all["u"].Types[n("u", l)], "the type named")
	vnd.Assert(xsd.XMLName(got) == n("u", l), "the type has that name")
}

// H_closed_spaces: the same name declared in several namespaces, some schemas
// being in several documents, with any prefix.
func H_closed_spaces() {
	k := []int{0, 1, 5, 9, 10, 15, 3}[vnd.Choose(7)]
	p := vnd.StringOf("tosz", 1)
	q := p + ":"
	if vnd.Bool() {
		p, q = "", ""
	}
	deflt := []string{"-", "u", "v", "u2"}[vnd.Choose(4)]
	vnd.Observe("prefix", p)
	frag, get := place(k, q+"T")
	head := "<s:schema xmlns:s='" + xs + "' xmlns:t='u' xmlns:o='v' targetNamespace='u'" + attr("xmlns", deflt) + ">"
	a := head + frag + end
	typ := "<s:simpleType name='T'><s:restriction base='s:"
	b := open("u") + typ + "int'/></s:simpleType>" + end
	c := open("v") + typ + "date'/></s:simpleType>" + end
	d := open("u2") + typ + "byte'/></s:simpleType>" + end
	docs := [][]string{{a, b, c, d}, {c, a, d, b}, {b, d, c, a}, {a + " ", "<x>" + b + c + "</x>", d}}[vnd.Choose(4)]
	all, err := parse(docs...)
	ns := ""
	switch p {
	case "t":
		ns = "u"
	case "o":
		ns = "v"
	case "":
		ns = deflt
	}
	if ns != "u" && ns != "v" && ns != "u2" {
		vnd.Assert(err != nil, "a name that is not declared is an error")
		vnd.Cover("rejected")
		return
	}
	vnd.Assert(err == nil, "a schema whose types are all declared is accepted")
	closed(all)
	got := get(all["u"])
	vnd.Assert(got != nil && got == all[ns].Types[n(ns, "T")], "the type named")
	want := map[string]xsd.Type{"u": xsd.Int, "v": xsd.Date, "u2": xsd.Byte}[ns]
	vnd.Assert(xsd.Base(got) == want, "with the content of that namespace's type")
}

// H_closed_builtin: built-in names in the schema namespace, whatever else is
// declared.
func H_closed_builtin() {
	k := vnd.Choose(places)
	l := "in" + vnd.StringOf("tTe", 1+vnd.Choose(2))
	if vnd.Bool() {
		l = "an" + vnd.StringOf("yT", 1) + "URI"
	}
	vnd.Observe("name", l)
	frag, get := place(k, "s:"+l)
	all, err := parse(open("u") + frag + "<s:simpleType name='int'><s:restriction base='s:date'/></s:simpleType><s:complexType name='inT'/>" + end)
	want := xsd.Type(xsd.Int)
	switch l {
	case "int":
	case "anyURI":
		want = xsd.AnyURI
	default:
		vnd.Assert(err != nil, "a name that is not declared is an error")
		return
	}
	vnd.Assert(err == nil, "a schema whose types are all declared is accepted")
	closed(all)
	vnd.Assert(get(all["u"]) == want, "the built-in named")
}

// H_closed_any: a schema broken by any few bytes: an error or a closed
// result, never a panic.
func H_closed_any() {
	c := vnd.StringOf("</> s:'", 1+vnd.Choose(2+vnd.Tier()))
	parts := []string{
		open("u"), "<s:complexType name='A'>", "<s:complexContent>", "<s:extension", " base='t:B'", ">",
		"<s:sequence>", "<s:element", " ref='t:e'/>", "<s:group", " ref='t:g'/>", "</s:sequence>", "</s:extension>", "</s:complexContent>",
		"</s:complexType>", "<s:element name='e'><s:simpleType/></s:element>", "<s:group name='g'/>", "<s:complexType name='B'/>", end,
	}
	k := vnd.Choose(len(parts))
	doc := ""
	for i, p := range parts {
		if i == k {
			doc += c
			if vnd.Tier() == 1 && vnd.Bool() {
				continue
			}
		}
		doc += p
	}
	all, err := parse(doc)
	if err == nil {
		closed(all)
		vnd.Cover("accepted")
	}
}

// H_closed_missing: every kind of declaration with names, types and children
// left out, or out of place.
func H_closed_missing() {
	tags := []string{"complexType", "simpleType", "restriction", "extension", "list", "union", "element", "attribute",
		"sequence", "group", "simpleContent", "complexContent", "annotation", "any", "import"}
	name := func() string {
		return []string{"", " name='A'", " name='B' base='t:A'", " base='t:B'", " type='t:A'", " ref='t:A'", " ref='t:B' name='B'", " itemType='t:A'", " memberTypes='t:A t:B'"}[vnd.Choose(9)]
	}
	depth := 2 + vnd.Tier()
	doc, closing := "", ""
	for i := 0; i < depth; i++ {
		var t, nm string
		if i == 2 {
			t, nm = tags[vnd.Choose(9)], []string{"", " ref='t:B'", " name='A' type='t:A'"}[vnd.Choose(3)]
		} else {
			t, nm = tags[vnd.Choose(len(tags))], name()
		}
		doc += "<s:" + t + nm + ">"
		closing = "</s:" + t + ">" + closing
	}
	all, err := parse(open("u") + doc + closing + "<s:complexType name='B'/>" + end)
	if err == nil {
		closed(all)
		vnd.Cover("accepted")
	}
}

// H_closed_find: the schema of the built-in types, and finding types.
func H_closed_find() {
	all := mustParse(open("u") + "<s:simpleType name='A'><s:restriction base='s:" + []string{"int", "unsignedShort", "string"}[vnd.Choose(3)] + "'/></s:simpleType><s:complexType name='B'><s:simpleContent><s:extension base='t:A'/></s:simpleContent></s:complexType>" + end)
	std, ok := all[xs]
	vnd.Assert(ok, "there is a schema of the built-in types")
	count := 0
	for b := xsd.AnyType; b <= xsd.AnySimpleType; b++ {
		name := b.Name()
		if name.Space != xs {
			continue
		}
		count++
		vnd.Observe("built-in", name.Local)
		vnd.Assert(std.Types[name] == xsd.Type(b), "with all of them under their names")
		vnd.Assert(std.FindType(name) == xsd.Type(b), "where they are found")
	}
	vnd.Assert(len(std.Types) == count, "and no others")
	u := all["u"]
	name := vnd.StringOf("ABC", 1)
	got := u.FindType(n("u", name))
	vnd.Assert((got != nil) == (name == "A" || name == "B"), "what is declared is found")
	vnd.Assert(got == nil || got == u.Types[n("u", name)], "as it is declared")
	for b := xsd.Base(u.Types[n("u", "B")]); b != nil; b = xsd.Base(b) {
		vnd.Assert(u.FindType(xsd.XMLName(b)) == b, "bases of what is declared are found")
	}
}
