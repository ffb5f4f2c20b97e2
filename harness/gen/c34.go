package gen

import (
	"encoding/xml"
	"go/ast"
	"go/types"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// ncname is a name of one or two characters.
func ncname() string {
	s := vnd.StringOf("aA", 1)
	if vnd.Choose(2) == 1 {
		s += vnd.StringOf("bB-_", 1)
	}
	return s
}

// named checks the Go names of a type and of everything it is made of.
func named(code *xsdgen.Code, pkg *types.Package, t xsd.Type, seen map[string]xml.Name, done map[xml.Name]bool) {
	name := xsd.XMLName(t)
	if done[name] {
		return
	}
	done[name] = true
	id := code.NameOf(name)
	vnd.Assert(id != "" && !strings.HasPrefix(id, "NOTFOUND") && !strings.HasPrefix(id, "ERROR"), "every type has a Go name")
	c, ok := t.(*xsd.ComplexType)
	if !ok {
		if s, ok := t.(*xsd.SimpleType); ok && pkg.Scope().Lookup(id) != nil {
			other, dup := seen[id]
			vnd.Assert(!dup || other == name, "no two types have one name")
			seen[id] = s.Name
		}
		return
	}
	other, dup := seen[id]
	vnd.Assert(!dup || other == name, "no two types have one name")
	seen[id] = name
	fs := fields(pkg, id)
	for _, e := range c.Elements {
		if e.Wildcard {
			continue
		}
		f := carrier(fs, e.Name.Local, false)
		want := code.NameOf(xsd.XMLName(e.Type))
		if e.Plural {
			want = "[]" + want
		}
		vnd.Assert(strings.TrimPrefix(f.typ, "*") == want, "fields have the type NameOf says")
		named(code, pkg, e.Type, seen, done)
	}
	for _, a := range c.Attributes {
		f := carrier(fs, a.Name.Local, true)
		vnd.Assert(f.typ == code.NameOf(xsd.XMLName(a.Type)), "fields have the type NameOf says")
		named(code, pkg, a.Type, seen, done)
	}
}

// H_names_types: two types of any names, their elements, and the names the
// code gives for them.
func H_names_types() {
	a, b := ncname(), ncname()
	vnd.Assume(a != b)
	kind := func(name string, k int) string {
		switch k {
		case 0:
			return "<s:complexType name='" + name + "'><s:sequence><s:element name='i' type='s:int'/><s:element name='r' type='t:" + name + "' minOccurs='0' maxOccurs='2'/></s:sequence></s:complexType>"
		case 1:
			return "<s:simpleType name='" + name + "'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType>"
		case 2:
			return "<s:simpleType name='" + name + "'><s:list itemType='s:int'/></s:simpleType>"
		case 3:
			return "<s:simpleType name='" + name + "'><s:restriction base='s:int'/></s:simpleType>"
		}
		return "<s:simpleType name='" + name + "'><s:restriction base='s:date'/></s:simpleType>"
	}
	cfg := defaults()
	var late bool
	if vnd.Tier() == 1 {
		late = flip()
	}
	k, l := vnd.Choose(5), vnd.Choose(5)
	if vnd.Tier() == 0 {
		vnd.Assume(k == l || k+l == 4)
	}
	doc := schema("u", kind(a, k), kind(b, l),
		"<s:element name='top'><s:complexType><s:sequence><s:element name='e' type='t:"+a+"'/><s:element name='f' type='t:"+b+"' maxOccurs='unbounded'/></s:sequence></s:complexType></s:element>",
		"<s:element name='second' type='t:"+a+"'/>")
	vnd.Observe("doc", doc)
	code, err := cfg.GenCode([]byte(doc))
	vnd.Assert(err == nil, "code is generated")
	var f *ast.File
	if !late {
		f, err = code.GenAST()
		vnd.Assert(err == nil, "code is generated")
	}
	d, ok := code.DocType("u")
	vnd.Assert(ok, "there is a type of the document")
	var top []string
	for _, e := range d.Elements {
		top = append(top, e.Name.Local)
		if late {
			code.NameOf(xsd.XMLName(e.Type))
		}
	}
	vnd.Assert(strings.Join(top, " ") == "top second", "of the top-level elements")
	_, ok = code.DocType("none")
	vnd.Assert(!ok, "for no other namespace")
	if late {
		f, err = code.GenAST()
		vnd.Assert(err == nil, "code is generated")
	}
	pkg := load(f)
	seen, done := make(map[string]xml.Name), make(map[xml.Name]bool)
	for _, e := range d.Elements {
		named(code, pkg, e.Type, seen, done)
	}
	for _, x := range []xml.Name{{"", a}, {"v", a}, {"u", "zz"}, {"u", ""}, {"u", a + "zz"}, {}} {
		_, is := seen[code.NameOf(x)]
		vnd.Assert(!is, "names that are not of a type are not given its Go name")
	}
	fs := fields(pkg, code.NameOf(xsd.XMLName(d.Elements[0].Type)))
	vnd.Assert(carrier(fs, "e", false).typ == code.NameOf(n("u", a)), "fields have the type NameOf says")
	vnd.Assert(carrier(fs, "f", false).typ == "[]"+code.NameOf(n("u", b)), "fields have the type NameOf says")
	vnd.Cover("named")
}

// H_name_chain: the names of types that stand for others, asked for in any
// order, and the types of elements and attributes declared with them.
func H_name_chain() {
	base := []string{"s:int", "t:E", "t:L", "t:D", "t:B", "s:date"}[vnd.Choose(6)]
	decl := func(name, base string) string {
		switch vnd.Choose(4) {
		case 0:
			return "<s:complexType name='" + name + "'><s:simpleContent><s:extension base='" + base + "'/></s:simpleContent></s:complexType>"
		case 1:
			return "<s:simpleType name='" + name + "'><s:restriction base='" + base + "'/></s:simpleType>"
		case 2:
			return "<s:simpleType name='" + name + "'><s:restriction base='" + base + "'><s:maxLength value='3'/></s:restriction></s:simpleType>"
		}
		return "<s:simpleType name='" + name + "'><s:list itemType='s:string'/></s:simpleType>"
	}
	b := vnd.StringOf("aX", 1)
	first := decl("m", base)
	second := "<s:complexType name='" + b + "'><s:simpleContent><s:extension base='t:m'/></s:simpleContent></s:complexType>"
	if !strings.Contains(first, "complexType") && flip() {
		second = "<s:simpleType name='" + b + "'><s:restriction base='t:m'/></s:simpleType>"
	}
	doc := schema("u", "<s:simpleType name='E'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType>"+
		"<s:simpleType name='L'><s:list itemType='s:int'/></s:simpleType><s:simpleType name='D'><s:restriction base='s:date'/></s:simpleType><s:simpleType name='B'><s:restriction base='s:unsignedByte'/></s:simpleType>",
		first, second, "<s:element name='top'><s:complexType><s:sequence><s:element name='e' type='t:"+b+"'/><s:element name='f' type='t:m' maxOccurs='2'/></s:sequence></s:complexType></s:element>")
	vnd.Observe("doc", doc)
	code, err := defaults().GenCode([]byte(doc))
	vnd.Assert(err == nil, "code is generated")
	ask := []xml.Name{n("u", b), n("u", "m"), n("u", "E"), n("u", "L")}
	if flip() {
		ask[0], ask[1] = ask[1], ask[0]
	}
	early := flip()
	var ids []string
	if early {
		for _, x := range ask {
			ids = append(ids, code.NameOf(x))
		}
	}
	f, err := code.GenAST()
	vnd.Assert(err == nil, "code is generated")
	for i, x := range ask {
		id := code.NameOf(x)
		vnd.Assert(!early || ids[i] == id, "the same name whenever it is asked for")
		vnd.Assert(id != "" && !strings.HasPrefix(id, "NOTFOUND") && !strings.HasPrefix(id, "ERROR"), "every type has a Go name")
	}
	pkg := load(f)
	d, _ := code.DocType("u")
	fs := fields(pkg, code.NameOf(xsd.XMLName(d.Elements[0].Type)))
	vnd.Assert(carrier(fs, "e", false).typ == code.NameOf(n("u", b)), "fields have the type NameOf says")
	// a simple type that adds nothing to a built-in one, but that others are
	// derived from, is declared all the same
	m := code.NameOf(n("u", "m"))
	if o := pkg.Scope().Lookup(m); o != nil && strings.Contains(second, "<s:restriction") && !strings.Contains(first, "maxLength") && !strings.Contains(first, "list") {
		if u := typeString(pkg, o.Type().Underlying()); base == "s:int" || base == "t:B" || base == "t:E" {
			m = u
		}
	}
	vnd.Assert(carrier(fs, "f", false).typ == "[]"+m, "fields have the type NameOf says")
	for _, x := range []string{"E", "L"} {
		vnd.Assert(pkg.Scope().Lookup(code.NameOf(n("u", x))) != nil, "a type of the schema is declared under its name")
	}
}
