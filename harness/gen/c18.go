package gen

import (
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsdgen"
)

func choose(s ...string) string { return s[vnd.Choose(len(s))] }
func flip() bool                { return vnd.Choose(2) == 1 }

// H_builtin: an element and an attribute of every built-in type.
func H_builtin() {
	b := builtins[vnd.Choose(len(builtins))]
	plural, opt, nil_ := flip(), flip(), flip()
	el := "<s:element name='e' type='s:" + b[0] + "'"
	if plural {
		el += " maxOccurs='unbounded'"
	}
	if opt {
		el += " minOccurs='0'"
	}
	if nil_ {
		el += " nillable='true'"
	}
	el += "/>"
	at := ""
	if b[0] != "anyType" {
		at = "<s:attribute name='x' type='s:" + b[0] + "'/>"
		if opt {
			at = "<s:attribute name='x' use='required' type='s:" + b[0] + "'/>"
		}
	}
	_, pkg := mustGenerate(defaults(), schema("u", "<s:complexType name='A'><s:sequence>"+el+"</s:sequence>"+at+"</s:complexType>"))
	fs := fields(pkg, "A")
	e := carrier(fs, "e", false)
	vnd.Assert(e.space == "u", "in its namespace")
	want := b[1]
	if plural {
		want = "[]" + want
	}
	vnd.Assert(e.typ == want, "of the Go type for its schema type, in a slice if plural")
	// encoding/xml applies the option to the items of a slice, other than
	// one of bytes.
	single := !plural || b[0] == "unsignedByte"
	vnd.Assert(e.omitempty == ((opt || nil_) && single), "omitted when empty exactly if optional or nillable")
	if at == "" {
		vnd.Assert(len(fs) == 1, "no other field")
		return
	}
	x := carrier(fs, "x", true)
	vnd.Assert(x.typ == b[1], "an attribute is of the Go type for its schema type")
	vnd.Assert(x.omitempty == !opt, "an attribute is omitted when empty exactly if optional")
	vnd.Assert(len(fs) == 2, "no other field")
}

// typed is a way to say the type of an element or attribute.
type typed struct{ attr, body, goType string }

const decls = "<s:simpleType name='Enum'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType>" +
	"<s:simpleType name='Plain'><s:restriction base='s:int'/></s:simpleType>" +
	"<s:simpleType name='Second'><s:restriction base='t:Enum'><s:maxLength value='4'/></s:restriction></s:simpleType>" +
	"<s:simpleType name='Many'><s:list itemType='s:int'/></s:simpleType>" +
	"<s:simpleType name='Either'><s:union memberTypes='s:int s:string'/></s:simpleType>" +
	"<s:simpleType name='Day'><s:restriction base='s:date'/></s:simpleType>" +
	"<s:complexType name='Rec'><s:sequence><s:element name='r' type='s:string'/></s:sequence></s:complexType>" +
	"<s:complexType name='Text'><s:simpleContent><s:extension base='s:int'/></s:simpleContent></s:complexType>" +
	"<s:complexType name='Tagged'><s:simpleContent><s:extension base='s:string'><s:attribute name='y' type='s:int'/></s:extension></s:simpleContent></s:complexType>"

func elType() typed {
	return []typed{
		{" type='s:string'", "", "string"},
		{" type='t:Enum'", "", "Enum"},
		{" type='t:Plain'", "", "int"},
		{" type='t:Second'", "", "Second"},
		{" type='t:Many'", "", "Many"},
		{" type='t:Either'", "", "Either"},
		{" type='t:Day'", "", "Day"},
		{" type='t:Rec'", "", "Rec"},
		{" type='t:Text'", "", "int"},
		{" type='t:Tagged'", "", "Tagged"},
		{" type='s:date'", "", "time.Time"},
		{" type='s:hexBinary'", "", "[]byte"},
		{"", "<s:simpleType><s:restriction base='s:string'><s:enumeration value='w'/></s:restriction></s:simpleType>", "?string"},
		{"", "<s:complexType><s:sequence><s:element name='q' type='s:int'/></s:sequence></s:complexType>", "?struct"},
		{" type='t:A'", "", "A"},
	}[vnd.Choose(15)]
}

// H_types: an element of each kind of type, with a default or not, beside
// another of a simple type.
func H_types() {
	ty := elType()
	plural := flip()
	deflt := ty.attr != "" && flip()
	el := "<s:element name='e'" + ty.attr
	if plural {
		el += " maxOccurs='2'"
	}
	if deflt {
		el += " default='v'"
	}
	el += ">" + ty.body + "</s:element>"
	other := choose("<s:element name='f' type='s:int'/>", "<s:element name='f' type='s:dateTime'/>", "<s:element name='f' type='t:Rec' maxOccurs='2'/>")
	_, pkg := mustGenerate(defaults(), schema("u", decls, "<s:complexType name='A'><s:sequence>", el, other, "</s:sequence></s:complexType>"))
	fs := fields(pkg, "A")
	vnd.Assert(len(fs) == 2, "as many fields as elements")
	e := carrier(fs, "e", false)
	carrier(fs, "f", false)
	got := e.typ
	if plural {
		vnd.Assert(strings.HasPrefix(got, "[]"), "plural elements are in a slice")
		got = got[2:]
	}
	switch ty.goType {
	case "?string":
		vnd.Assert(decl(pkg, got).Underlying().String() == "string", "an anonymous simple type is declared")
	case "?struct":
		carrier(fields(pkg, got), "q", false)
	default:
		if ty.goType == "A" && !plural {
			ty.goType = "*A" // a struct cannot contain itself
		}
		vnd.Assert(got == ty.goType, "of the Go type for its schema type")
	}
	vnd.Assert(e.omitempty == (deflt && !plural), "omitted when empty if there is a default")
	carrier(fields(pkg, "Rec"), "r", false)
	tg := fields(pkg, "Tagged")
	carrier(tg, "y", true)
	vnd.Assert(len(tg) == 2, "an attribute and a value")
	for _, f := range tg {
		if !f.attr {
			vnd.Assert(f.chardata && f.typ == "string", "the value is character data")
		}
	}
}

// H_names: two elements and an attribute with names that make clashing Go names.
func H_names() {
	names := []string{"a", "A", "a.b", "ab", "a-b", "aB", "a0", "t", "value", "item", "items", "marshalXML", "aAttr", "unmarshalXML", "layout", "overlay"}
	i := vnd.Choose(len(names))
	j := vnd.Choose(len(names))
	e, f := names[i], names[j]
	vnd.Assume(i != j)
	ty := choose("s:string", "s:date")
	tn := choose("B", "t", "overlay")
	_, pkg := mustGenerate(defaults(), schema("u", "<s:complexType name='"+tn+"'><s:sequence><s:element name='"+e+"' type='"+ty+"'/><s:element name='"+f+"' type='s:int'/></s:sequence><s:attribute name='"+e+"' type='s:boolean'/></s:complexType>"))
	fs := fields(pkg, strings.ToUpper(tn[:1])+tn[1:])
	vnd.Assert(len(fs) == 3, "three fields")
	vnd.Assert(carrier(fs, e, false).typ == map[string]string{"s:string": "string", "s:date": "time.Time"}[ty], "the first element")
	vnd.Assert(carrier(fs, f, false).typ == "int", "the second element")
	vnd.Assert(carrier(fs, e, true).typ == "bool", "the attribute")
}

// H_clashes: up to seven elements, and an attribute, whose names become the
// same Go name or one made to tell them apart.
func H_clashes() {
	names := []string{"a", "A", "a0", "A0", "A1", "a1", "A2"}
	k := 4 + vnd.Choose(4)
	from := vnd.Choose(len(names))
	step := 1 + vnd.Choose(len(names)-1)
	attr := flip()
	var els string
	var use []string
	for i := 0; i < k; i++ {
		n := names[(from+i*step)%len(names)]
		use = append(use, n)
		els += "<s:element name='" + n + "' type='s:int'/>"
	}
	at := ""
	if attr {
		at = "<s:attribute name='a' type='s:boolean'/>"
	}
	_, pkg := mustGenerate(defaults(), schema("u", "<s:complexType name='B'><s:sequence>"+els+"</s:sequence>"+at+"</s:complexType>"))
	fs := fields(pkg, "B")
	for _, n := range use {
		vnd.Assert(carrier(fs, n, false).typ == "int", "a field for each element")
	}
	if attr {
		vnd.Assert(carrier(fs, "a", true).typ == "bool", "and for the attribute")
		k++
	}
	vnd.Assert(len(fs) == k, "no other field")
}

// H_crowd: one name in many namespaces, each brought in by a reference.
func H_crowd() {
	k := 3 + vnd.Choose(10)
	var els string
	docs := []string{}
	ns := ""
	for i := 0; i < k; i++ {
		u := "n" + string('a'+rune(i))
		ns += " xmlns:" + u + "='" + u + "'"
		els += "<s:element ref='" + u + ":e'/>"
		docs = append(docs, schema(u, "<s:element name='e' type='s:int'/>"))
	}
	docs = append(docs, schema("u", "<s:complexType name='B'><s:sequence"+ns+">"+els+"</s:sequence></s:complexType>"))
	_, pkg := mustGenerate(defaults(), docs...)
	fs := fields(pkg, "B")
	vnd.Assert(len(fs) == k, "as many fields as elements")
	for i := range docs[:k] {
		u := "n" + string('a'+rune(i))
		found := 0
		for _, f := range fs {
			if f.space == u && f.local == "e" && f.typ == "int" {
				found++
			}
		}
		vnd.Assert(found == 1, "a field for the element of each namespace")
	}
}

var _ = xsdgen.DefaultOptions

// H_recursive: types that refer to one another. No struct contains itself
// (the declarations would not compile), and only fields that might make one do
// so are pointers.
func H_recursive() {
	count := 2 + vnd.Tier()
	names := []string{"A", "B", "C"}[:count]
	type ref struct{ from, to, kind int } // 0 required, 1 optional, 2 plural
	var refs []ref
	body := ""
	for i, name := range names {
		extended := i == 1 && flip()
		base := name
		if extended {
			// what it refers to is inherited
			base = "Base"
			body += "<s:complexType name='" + name + "'><s:complexContent><s:extension base='t:Base'/></s:complexContent></s:complexType>"
		}
		body += "<s:complexType name='" + base + "'>"
		group := "sequence"
		if i == 0 || vnd.Tier() > 0 {
			group = choose("sequence", "choice")
		}
		body += "<s:" + group + ">"
		k := 1
		if i == 0 {
			k = 1 + vnd.Choose(2)
		}
		for j := 0; j < k; j++ {
			r := ref{i, vnd.Choose(count), vnd.Choose(3)}
			if j > 0 && vnd.Tier() == 0 {
				r.kind = 1
			}
			body += "<s:element name='" + name + string([]byte{'x' + byte(j)}) + "' type='t:" + names[r.to] + "'" + []string{"", " minOccurs='0'", " maxOccurs='2'"}[r.kind] + "/>"
			if group == "choice" && r.kind == 0 {
				r.kind = 1
			}
			refs = append(refs, r)
		}
		body += "<s:element name='v' type='s:int'/></s:" + group + "></s:complexType>"
	}
	_, pkg := mustGenerate(defaults(), schema("u", body))
	// what each contains, through fields that are not slices
	var reach [3][3]bool
	for range names {
		for _, r := range refs {
			if r.kind == 2 {
				continue
			}
			reach[r.from][r.to] = true
			for j := range names {
				reach[r.from][j] = reach[r.from][j] || reach[r.to][j]
			}
		}
	}
	k := map[int]int{}
	for _, r := range refs {
		fs := fields(pkg, names[r.from])
		f := carrier(fs, names[r.from]+string([]byte{'x' + byte(k[r.from])}), false)
		k[r.from]++
		to := names[r.to]
		cycle := reach[r.to][r.from] || r.to == r.from
		switch {
		case r.kind == 2:
			vnd.Assert(f.typ == "[]"+to, "plural elements are in a slice")
		case !cycle:
			vnd.Assert(f.typ == to, "of the Go type for its schema type")
		default:
			vnd.Assert(f.typ == to || f.typ == "*"+to, "a field that may be a pointer")
			vnd.Assert(f.omitempty == (r.kind == 1), "omitted when empty if optional")
		}
		carrier(fs, "v", false)
	}
}
