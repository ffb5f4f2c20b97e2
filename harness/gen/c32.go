package gen

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
)

// words of a text, one space between them.
func words(s string) string { return strings.Join(strings.Fields(s), " ") }

// comments are the comments on types and methods of the source that is made
// of a file.
func comments(f *ast.File) map[string]string {
	pkgdoc := f.Doc
	src, _ := source(f)
	f.Doc = pkgdoc
	vnd.Observe("source", src)
	p, err := parser.ParseFile(token.NewFileSet(), "gen.go", src, parser.ParseComments)
	vnd.Assert(err == nil, "what is generated parses")
	m := make(map[string]string)
	for _, d := range p.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			m["func "+d.Name.Name] += " " + words(d.Doc.Text())
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if t, ok := s.(*ast.TypeSpec); ok {
					m[t.Name.Name] += words(d.Doc.Text() + t.Doc.Text())
				}
			}
		}
	}
	if pkgdoc != nil {
		m["package"] = words(pkgdoc.Text())
	}
	return m
}

// told asserts that a comment has the words of a text, and no other's.
func told(m map[string]string, name, text string, others ...string) {
	c, ok := m[name]
	vnd.Assert(ok, "is declared")
	vnd.Observe(name, c)
	vnd.Assert(strings.Contains(" "+c+" ", " "+words(text)+" ") || words(text) == "", "has its documentation as a comment")
	for _, o := range others {
		vnd.Assert(o == text || !strings.Contains(" "+c+" ", " "+words(o)+" "), "and not that of others")
	}
}

// documentation gives a text, its markup, in several forms.
func documented(id string) (markup, text string) {
	switch vnd.Choose(6) {
	case 0:
		return id, id
	case 1:
		return "\n\tThe " + id + ".\n\n\t  It is;\n" + id + "\n ", "The " + id + ". It is; " + id
	case 2:
		return "a &lt;" + id + "&gt; &amp; */ //go:build " + id, "a <" + id + "> & */ //go:build " + id
	case 3:
		return "<![CDATA[" + id + " <a>]]> &#233;t&#xe9;", id + " <a> \u00e9t\u00e9"
	case 4:
		return id + strings.Repeat(" "+id, 3000), id + strings.Repeat(" "+id, 3000)
	}
	return id + " &#xFEFF;&#13;a&#13;\n" + id + "\u2028b", ""
}

// H_docs_types: the comments of generated types.
func H_docs_types() {
	names := []string{"S", "U", "L", "D", "V", "C", "An"}
	at := vnd.Choose(len(names))
	texts := make(map[string]string)
	var all []string
	a := func(name string) string {
		m, t := "about"+name, "about"+name
		if name == names[at] {
			m, t = documented("all" + name)
		}
		texts[name] = t
		if t != "" {
			all = append(all, t)
		}
		return "<s:annotation><s:appinfo>app</s:appinfo><s:documentation>" + m + "</s:documentation></s:annotation>"
	}
	doc := schema("u",
		"<s:complexType name='S'>"+a("S")+"<s:sequence><s:element name='e' type='t:U'><s:annotation><s:documentation>element</s:documentation></s:annotation></s:element><s:element name='An'><s:complexType>"+a("An")+"<s:sequence><s:element name='l' type='t:L'/></s:sequence></s:complexType></s:element></s:sequence></s:complexType>",
		"<s:simpleType name='U'>"+a("U")+"<s:union memberTypes='s:int s:date'/></s:simpleType>",
		"<s:simpleType name='L'>"+a("L")+"<s:list itemType='s:int'/></s:simpleType>",
		"<s:simpleType name='D'>"+a("D")+"<s:restriction base='s:date'/></s:simpleType>",
		"<s:complexType name='V'>"+a("V")+"<s:simpleContent><s:extension base='s:string'><s:attribute name='d' type='t:D'/></s:extension></s:simpleContent></s:complexType>",
		"<s:complexType name='C'>"+a("C")+"<s:complexContent><s:extension base='t:S'><s:sequence><s:element name='z' type='s:int'/></s:sequence></s:extension></s:complexContent></s:complexType>",
		"<s:complexType name='None'><s:attribute name='d' type='s:int'/></s:complexType>",
	)
	_, f, err := generate(defaults(), doc)
	vnd.Assert(err == nil, "code is generated")
	m := comments(f)
	for _, name := range names {
		told(m, name, texts[name], all...)
	}
	told(m, "None", "", all...)
	vnd.Cover("types")
}

// H_docs_wsdl: the comments of a client package and its methods.
func H_docs_wsdl() {
	names := []string{"service", "A", "B", "type"}
	at := vnd.Choose(len(names))
	texts := make(map[string]string)
	var all []string
	a := func(name string) string {
		m, t := "about"+name, "about"+name
		if name == names[at] {
			m, t = documented("all" + name)
		}
		texts[name] = t
		if t != "" {
			all = append(all, t)
		}
		return "documentation>" + m + "</"
	}
	doc := service("<s:complexType name='T'><s:annotation><s:"+a("type")+"s:documentation></s:annotation><s:attribute name='a' type='s:int'/></s:complexType>",
		wport{name: "P", address: "http://e", ops: []operation{
			{name: "A", action: "a", input: []wpart{{"x", partType{attr: "type='t:T'"}}}, in: "IA", out: "OA"},
			{name: "B", action: "b", input: []wpart{{"x", partType{attr: "type='s:int'"}}}, in: "IB", out: "OB"},
		}})
	doc = strings.Replace(doc, "<operation name='A'>", "<operation name='A'><"+a("A")+"documentation>", 1)
	doc = strings.Replace(doc, "<operation name='B'>", "<operation name='B'><"+a("B")+"documentation>", 1)
	doc = strings.Replace(doc, "<service name='S'>", "<service name='S'><"+a("service")+"documentation>", 1)
	vnd.Observe("doc", doc)
	f, err := wconfig(2, 2).GenAST(vnd.File("service.wsdl", []byte(doc)))
	vnd.Assert(err == nil, "code is generated")
	m := comments(f)
	told(m, "package", texts["service"], all...)
	told(m, "func A", texts["A"], all...)
	told(m, "func B", texts["B"], all...)
	told(m, "T", texts["type"], all...)
	vnd.Cover("client")
}

// H_docs_text: any text, as the comment of a type and of a method.
func H_docs_text() {
	n := 3 + vnd.Tier()
	text := vnd.StringOf("x \n", n)
	typ := vnd.Choose(2) == 0
	if typ {
		_, f, err := generate(defaults(), schema("u", "<s:complexType name='T'><s:annotation><s:documentation>"+text+"</s:documentation></s:annotation></s:complexType>"))
		vnd.Assert(err == nil, "code is generated")
		vnd.Assert(comments(f)["T"] == words(text), "the documentation is the comment")
		vnd.Cover("type")
		return
	}
	doc := service("", wport{name: "P", address: "http://e", ops: []operation{{name: "A", action: "a", in: "IA", out: "OA"}}})
	doc = strings.Replace(doc, "<operation name='A'>", "<operation name='A'><documentation>"+text+"</documentation>", 1)
	f, err := wconfig(2, 2).GenAST(vnd.File("service.wsdl", []byte(doc)))
	vnd.Assert(err == nil, "code is generated")
	vnd.Assert(words(comments(f)["func A"]) == words(text), "the documentation is the comment")
	vnd.Cover("method")
}
