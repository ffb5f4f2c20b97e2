package schema

import (
	"encoding/xml"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

// notes makes annotations, and knows the words in them.
type notes struct {
	words []string
	n     int
	plain bool
}

// text is the content of a documentation element, and what it stands for.
func (w *notes) text() (markup, text string) {
	w.n++
	id := string(rune('a' + w.n - 1))
	if w.plain {
		return "\n" + id + " ", id
	}
	switch vnd.Choose(4) {
	case 0:
		return id, id
	case 1:
		return "\n  " + id + " \n" + id + "\t", id + " " + id
	case 2:
		return "&lt;" + id + "&#62;<![CDATA[&x]]>", "<" + id + ">&x"
	}
	return "", ""
}

const (
	appinfo  = "<s:appinfo>a<x:b xmlns:x='w'>c</x:b></s:appinfo>"
	document = "<s:documentation xml:lang='en'>"
)

// annotation is an annotation of several kinds.
func (w *notes) annotation() string {
	doc := func() string {
		m, t := w.text()
		w.words = append(w.words, strings.Fields(t)...)
		return document + m + "</s:documentation>"
	}
	switch vnd.Choose(6) {
	case 0:
		return ""
	case 1:
		return "<s:annotation>" + doc() + "</s:annotation>"
	case 2:
		return "<s:annotation>" + appinfo + doc() + "</s:annotation>"
	case 3:
		return "<s:annotation id='i'>\n" + doc() + "<!--c-->\n" + appinfo + "<s:appinfo/>" + doc() + appinfo + "</s:annotation>"
	case 4:
		return "<s:annotation>" + doc() + doc() + "</s:annotation>"
	}
	return "<s:annotation>" + appinfo + "</s:annotation>"
}

// fixed is an annotation with one word.
func fixed(word string) string {
	return "<s:annotation>" + document + word + "</s:documentation></s:annotation>"
}

func (w *notes) check(doc, what string) {
	vnd.Observe("doc", doc)
	vnd.Assert(strings.Join(strings.Fields(doc), " ") == strings.Join(w.words, " "), what)
}

func docOf(t xsd.Type) string {
	switch t := t.(type) {
	case *xsd.ComplexType:
		return t.Doc
	case *xsd.SimpleType:
		return t.Doc
	}
	return "?"
}

// H_docs_each: an annotation of every kind at every place, the other places
// having one with a single word.
func H_docs_each() {
	places := []string{"schema", "simple", "restriction", "list", "union", "simplecontent", "complexcontent", "shorthand", "element", "attribute", "anonelem", "anonattr", "topelement", "anontype", "anonsimple", "second"}
	at := vnd.Choose(len(places))
	want := make(map[string]*notes)
	a := func(place string) string {
		w := &notes{}
		want[place] = w
		if place == places[at] {
			return w.annotation()
		}
		w.words = []string{place}
		return fixed(place)
	}
	doc := open("u") + a("schema") +
		"<s:simpleType name='S'>" + a("simple") + "<s:restriction base='s:int'>" + a("restriction") + "<s:maxInclusive value='4'/></s:restriction></s:simpleType>" +
		"<s:simpleType name='L'>" + a("list") + "<s:list itemType='t:S'/></s:simpleType>" +
		"<s:simpleType name='U'>" + a("union") + "<s:union memberTypes='t:S t:L'/></s:simpleType>" +
		"<s:complexType name='V'>" + a("simplecontent") + "<s:simpleContent><s:extension base='t:S'><s:attribute name='b'/></s:extension></s:simpleContent></s:complexType>" +
		"<s:complexType name='C'>" + a("complexcontent") + "<s:complexContent><s:extension base='t:H'><s:sequence/></s:extension></s:complexContent></s:complexType>" +
		"<s:complexType name='H'>" + a("shorthand") + "<s:sequence><s:element name='e' type='s:int'>" + a("element") + "</s:element>" +
		"<s:element name='f'>" + a("anonelem") + "<s:complexType>" + a("anontype") + "<s:sequence><s:element name='g'/></s:sequence></s:complexType></s:element>" +
		"<s:element name='h'/></s:sequence>" +
		"<s:attribute name='a' type='s:int'>" + a("attribute") + "</s:attribute>" +
		"<s:attribute name='b'>" + a("anonattr") + "<s:simpleType>" + a("anonsimple") + "<s:restriction base='s:string'/></s:simpleType></s:attribute>" +
		"</s:complexType>" +
		"<s:element name='top' type='t:H'>" + a("topelement") + "</s:element></s:schema>"
	vnd.Observe("schema", doc)
	other := open("v") + a("second") + "<s:complexType name='X'/></s:schema>"
	schemas, err := xsd.Parse([]byte(doc), []byte(other))
	vnd.Assert(err == nil, "parse")
	var s, v xsd.Schema
	for _, x := range schemas {
		switch x.TargetNS {
		case "u":
			s = x
		case "v":
			v = x
		}
	}
	typ := func(name string) xsd.Type { return s.Types[xml.Name{Space: "u", Local: name}] }
	want["schema"].check(s.Doc, "of a schema")
	want["second"].check(v.Doc, "of another schema")
	want["simple"].check(docOf(typ("S")), "of a simple type")
	want["restriction"].check(typ("S").(*xsd.SimpleType).Restriction.Doc, "of a restriction")
	want["list"].check(docOf(typ("L")), "of a list type")
	want["union"].check(docOf(typ("U")), "of a union type")
	want["simplecontent"].check(docOf(typ("V")), "of a type of simple content")
	want["complexcontent"].check(docOf(typ("C")), "of a type of complex content")
	h := typ("H").(*xsd.ComplexType)
	want["shorthand"].check(h.Doc, "of a type without content element")
	for _, e := range h.Elements {
		switch e.Name.Local {
		case "e":
			want["element"].check(e.Doc, "of an element")
		case "f":
			want["anonelem"].check(e.Doc, "of an element of anonymous type")
			want["anontype"].check(docOf(e.Type), "of an anonymous complex type")
		case "h":
			vnd.Assert(e.Doc == "", "of an element without annotation")
		}
	}
	for _, a := range h.Attributes {
		switch a.Name.Local {
		case "a":
			want["attribute"].check(a.Doc, "of an attribute")
		case "b":
			want["anonattr"].check(a.Doc, "of an attribute of anonymous type")
			want["anonsimple"].check(docOf(a.Type), "of an anonymous simple type")
		}
	}
	for _, e := range typ("_self").(*xsd.ComplexType).Elements {
		if e.Name.Local == "top" {
			want["topelement"].check(e.Doc, "of a top-level element")
			vnd.Cover("all")
		}
	}
}

// H_docs_many: several annotations of one declaration.
func H_docs_many() {
	w := &notes{plain: vnd.Tier() == 0}
	var doc string
	switch vnd.Choose(3) {
	case 0: // of the type, and of its content
		content, base := "simpleContent", "s:string"
		if vnd.Choose(2) == 1 {
			content, base = "complexContent", "t:B"
		}
		derive := []string{"extension", "restriction"}[vnd.Choose(2)]
		doc = open("u") + "<s:complexType name='B'/><s:complexType name='T'>" + w.annotation() + "<s:" + content + ">" + w.annotation() + "<s:" + derive + " base='" + base + "'/></s:" + content + "></s:complexType></s:schema>"
	case 1: // of the schema, anywhere
		doc = open("u") + w.annotation() + "<s:complexType name='T'/>" + w.annotation() + "<s:simpleType name='S'>" + fixed("z") + "<s:restriction base='s:int'/></s:simpleType></s:schema>"
	case 2: // of two elements of the same name
		doc = open("u") + "<s:complexType name='T'><s:sequence><s:element name='e'>" + w.annotation() + "</s:element><s:element name='x'/><s:element name='e'>" + w.annotation() + "</s:element></s:sequence></s:complexType></s:schema>"
	}
	vnd.Observe("schema", doc)
	schemas, err := xsd.Parse([]byte(doc))
	vnd.Assert(err == nil, "parse")
	for _, s := range schemas {
		if s.TargetNS != "u" {
			continue
		}
		t := s.Types[xml.Name{Space: "u", Local: "T"}].(*xsd.ComplexType)
		switch {
		case len(t.Elements) == 2:
			w.check(t.Elements[0].Doc, "of two elements that are one")
			vnd.Assert(s.Doc == "" && t.Doc == "", "and of nothing else")
		case strings.Contains(doc, "name='S'"):
			w.check(s.Doc, "of the schema")
			vnd.Assert(t.Doc == "", "and of nothing else")
		default:
			w.check(t.Doc, "of the type and its content")
			vnd.Assert(s.Doc == "", "and of nothing else")
		}
		vnd.Cover("one")
	}
}

// H_docs_text: any text.
func H_docs_text() {
	n := 3 + vnd.Tier()
	text := vnd.StringOf("a \n", n)
	more := vnd.StringOf("b \t", 2)
	doc := open("u") + "<s:complexType name='T'><s:annotation><s:documentation>" + text + "</s:documentation><s:documentation>" + more + "</s:documentation></s:annotation></s:complexType></s:schema>"
	schemas, err := xsd.Parse([]byte(doc))
	vnd.Assert(err == nil, "parse")
	w := &notes{words: append(strings.Fields(text), strings.Fields(more)...)}
	for _, s := range schemas {
		if s.TargetNS == "u" {
			w.check(docOf(s.Types[xml.Name{Space: "u", Local: "T"}]), "of the type")
			vnd.Cover("one")
		}
	}
}

// H_docs_same: annotations of one declaration that repeat one another.
func H_docs_same() {
	n := 2 + vnd.Tier()
	note := func(s string) string { return fixed(s) }
	a, b := vnd.StringOf("ab ", n), vnd.StringOf("ab ", vnd.Choose(n+1))
	w := &notes{words: append(strings.Fields(a), strings.Fields(b)...)}
	kind := vnd.Choose(4)
	body := ""
	switch kind {
	case 0:
		body = "<s:complexType name='T'>" + note(a) + "<s:simpleContent>" + note(b) + "<s:extension base='s:string'/></s:simpleContent></s:complexType>"
	case 1:
		body = "<s:complexType name='T'><s:annotation>" + document + a + "</s:documentation>" + document + b + "</s:documentation></s:annotation></s:complexType>"
	case 2:
		body = note(a) + "<s:complexType name='T'/>" + note(b)
	case 3:
		body = "<s:complexType name='T'><s:sequence><s:element name='e'>" + note(a) + "</s:element><s:element name='x'/><s:element name='e'>" + note(b) + "</s:element></s:sequence></s:complexType>"
	}
	schemas, err := xsd.Parse([]byte(open("u") + body + "</s:schema>"))
	vnd.Assert(err == nil, "parse")
	for _, s := range schemas {
		if s.TargetNS != "u" {
			continue
		}
		t := s.Types[xml.Name{Space: "u", Local: "T"}].(*xsd.ComplexType)
		switch kind {
		case 0, 1:
			w.check(t.Doc, "of the type")
		case 2:
			w.check(s.Doc, "of the schema")
		case 3:
			w.check(t.Elements[0].Doc, "of two elements that are one")
		}
		vnd.Cover("one")
	}
}
