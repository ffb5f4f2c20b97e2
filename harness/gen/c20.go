package gen

import (
	"encoding/xml"
	"go/ast"
	"regexp"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

type sink struct{ n int }

func (s *sink) Printf(format string, v ...interface{}) { s.n++ }

// marked changes the documentation of types.
func marked(s xsd.Schema, t xsd.Type) xsd.Type {
	if c, ok := t.(*xsd.ComplexType); ok {
		c.Doc += "marked"
	}
	return t
}

// options makes one of several options.
var options = []func() xsdgen.Option{
	func() xsdgen.Option { return xsdgen.IgnoreAttributes("x") },
	func() xsdgen.Option { return xsdgen.IgnoreAttributes("y", "id") },
	func() xsdgen.Option { return xsdgen.IgnoreElements("a", "deep") },
	func() xsdgen.Option { return xsdgen.OnlyTypes("^B$") },
	func() xsdgen.Option { return xsdgen.OnlyTypes("A") },
	func() xsdgen.Option { return xsdgen.AllowType(n("u", "A")) },
	func() xsdgen.Option { return xsdgen.AllowType(n("v", "B")) },
	func() xsdgen.Option { return xsdgen.Namespaces("u") },
	func() xsdgen.Option { return xsdgen.Namespaces("v") },
	func() xsdgen.Option { return xsdgen.Replace("a", "q") },
	func() xsdgen.Option { return xsdgen.Replace("^", "X") },
	func() xsdgen.Option { return xsdgen.Replace("(", "X") },
	func() xsdgen.Option { return xsdgen.PackageName("other") },
	func() xsdgen.Option { return xsdgen.ProcessTypes(marked) },
	func() xsdgen.Option { return xsdgen.UseFieldNames() },
	func() xsdgen.Option { return xsdgen.HandleSOAPArrayType() },
	func() xsdgen.Option { return xsdgen.SOAPArrayAsSlice() },
	func() xsdgen.Option { return xsdgen.LogLevel(5) },
	func() xsdgen.Option { return xsdgen.LogOutput(new(sink)) },
	func() xsdgen.Option { return xsdgen.FollowImports(true) },
}

const soapenc = "http://schemas.xmlsoap.org/soap/encoding/"

func undoDocs() []string {
	return []string{
		"<s:schema xmlns:s='" + xs + "' targetNamespace='" + soapenc + "'><s:complexType name='Array'><s:sequence><s:any maxOccurs='unbounded'/></s:sequence><s:attribute name='arrayType' type='s:string'/></s:complexType></s:schema>",
		"<s:schema xmlns:s='" + xs + "' xmlns:u='u' xmlns:e='" + soapenc + "' targetNamespace='u'><s:complexType name='A'><s:sequence><s:element name='a' type='s:int'/><s:element name='anon'><s:complexType><s:attribute name='x' type='s:int'/></s:complexType></s:element></s:sequence><s:attribute name='id' type='s:int'/></s:complexType>" +
			"<s:complexType name='Ar'><s:complexContent><s:restriction base='e:Array'><s:attribute name='arrayType' xmlns:w='http://schemas.xmlsoap.org/wsdl/' w:arrayType='u:A[]'/></s:restriction></s:complexContent></s:complexType></s:schema>",
		"<s:schema xmlns:s='" + xs + "' xmlns:u='u' targetNamespace='v'><s:complexType name='B'><s:sequence><s:element name='a' type='u:A'/></s:sequence><s:attribute name='y' type='s:string'/></s:complexType></s:schema>",
	}
}

// H_undo: an option, undone, after one or two others.
func H_undo() {
	var prior []func() xsdgen.Option
	for k := vnd.Choose(2 + vnd.Tier()); len(prior) < k; {
		prior = append(prior, options[vnd.Choose(len(options))])
	}
	opt := options[vnd.Choose(len(options))]
	redo := flip()
	one, two := new(xsdgen.Config), new(xsdgen.Config)
	for _, p := range prior {
		one.Option(p())
		two.Option(p())
	}
	undo := two.Option(opt())
	vnd.Assert(undo != nil, "an option returns the option that undoes it")
	again := two.Option(undo)
	if redo {
		one.Option(opt())
		two.Option(again)
	}
	vnd.Assert(one.NameOf(n("u", "a-b")) == two.NameOf(n("u", "a-b")), "the same Go names")
	a, oka := text(one, undoDocs()...)
	b, okb := text(two, undoDocs()...)
	vnd.Assert(oka == okb, "code is generated exactly if it was before")
	vnd.Observe("before", a)
	vnd.Observe("after", b)
	vnd.Assert(a == b, "the same code as before")
}

// H_only: types selected in several ways, and those they depend on.
func H_only() {
	names := []string{"A", "AB", "C", "D"}[:3+vnd.Tier()]
	uses := map[string][]string{}
	var bodies [2]string
	for i, nm := range names {
		body := "<s:sequence><s:element name='n' type='s:int'/>"
		if k := vnd.Choose(len(names) + 1); k < len(names) {
			uses[nm] = append(uses[nm], names[k])
			body += "<s:element name='l' maxOccurs='2' type='" + sp(k) + ":" + names[k] + "'/>"
		}
		body += "</s:sequence>"
		if i == 2 || vnd.Tier() > 0 {
			if k := vnd.Choose(i + 1); k > 0 {
				uses[nm] = append(uses[nm], names[k-1])
				body = "<s:complexContent><s:extension base='" + sp(k-1) + ":" + names[k-1] + "'>" + strings.Replace(body, "'n'", "'n"+nm+"'", 1) + "</s:extension></s:complexContent>"
				body = strings.Replace(body, "name='l'", "name='l"+nm+"'", 1)
			}
		}
		bodies[i%2] += "<s:complexType name='" + nm + "'>" + body + "</s:complexType>"
	}
	cfg := new(xsdgen.Config)
	sel := func(i int) bool { return true }
	switch vnd.Choose(6) {
	case 0:
	case 1:
		cfg.Option(xsdgen.OnlyTypes("^A$"))
		sel = func(i int) bool { return i == 0 }
	case 2:
		switch vnd.Choose(3) {
		case 0:
			cfg.Option(xsdgen.OnlyTypes("^B$", "B"))
			sel = func(i int) bool { return i == 1 }
		case 1: // patterns match any part of a name
			cfg.Option(xsdgen.OnlyTypes("^B$", "A"))
			sel = func(i int) bool { return i == 0 || i == 1 }
		case 2:
			cfg.Option(xsdgen.OnlyTypes("A$", "B", "^x"))
			sel = func(i int) bool { return i == 0 || i == 1 }
		}
	case 3:
		cfg.Option(xsdgen.AllowType(n(sp(1), names[1])), xsdgen.AllowType(n(sp(2), names[2])))
		sel = func(i int) bool { return i == 1 || i == 2 }
	case 4:
		cfg.Option(xsdgen.Namespaces([]string{"u", "u"}[vnd.Choose(2):]...))
		sel = func(i int) bool { return i%2 == 0 }
	case 5:
		cfg.Option(xsdgen.AllowType(n(sp(0), names[0])), xsdgen.AllowType(n(sp(1), names[2])))
		sel = func(i int) bool { return i == 0 }
	}
	reach := map[string]bool{}
	var walk func(string)
	walk = func(s string) {
		if reach[s] {
			return
		}
		reach[s] = true
		for _, u := range uses[s] {
			walk(u)
		}
	}
	for i, nm := range names {
		if sel(i) {
			walk(nm)
		}
	}
	open := "<s:schema xmlns:s='" + xs + "' xmlns:u='u' xmlns:v='v' targetNamespace='"
	_, pkg := mustGenerate(cfg, open+"u'>"+bodies[0]+"</s:schema>", open+"v'>"+bodies[1]+"</s:schema>")
	for i, nm := range names {
		o := pkg.Scope().Lookup(nm)
		if sel(i) {
			vnd.Assert(o != nil, "a selected type is declared")
		}
		if !reach[nm] {
			vnd.Assert(o == nil, "a type that is neither selected nor needed is not declared")
		}
	}
}

func sp(i int) string { return []string{"u", "v"}[i%2] }

// H_replace: replacements are applied in the order given, and invalid ones
// are ignored.
func H_replace() {
	rules := [][2]string{{"a", "b"}, {"b", "c"}, {"^(.)(.)", "$2$1"}, {"[._-]", ""}, {"(", "z"}, {"c+", "a"}, {"$", "E"}}
	cfg := new(xsdgen.Config)
	var used [][2]string
	for k := vnd.Choose(3 + vnd.Tier()); len(used) < k; {
		r := rules[vnd.Choose(len(rules))]
		used = append(used, r)
		cfg.Option(xsdgen.Replace(r[0], r[1]))
	}
	apply := func(s string) string {
		for _, r := range used {
			if reg, err := regexp.Compile(r[0]); err == nil {
				s = reg.ReplaceAllString(s, r[1])
			}
		}
		return s
	}
	title := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	tn, en := choose("ab", "Bc", "cab"), choose("ba", "xa")
	_, pkg := mustGenerate(cfg, schema("u", "<s:complexType name='"+tn+"'><s:sequence><s:element name='"+en+"' type='s:int'/></s:sequence></s:complexType>"))
	want := title(apply(tn))
	vnd.Observe("want", want)
	vnd.Assert(cfg.NameOf(n("u", tn)) == want, "the name of the type")
	fs := fields(pkg, want)
	vnd.Assert(len(fs) == 1 && carrier(fs, en, false).name == title(apply(en)), "the name of the field")
}

// H_package: the name of the package.
func H_package() {
	name := choose("", "ws", "other")
	cfg := new(xsdgen.Config)
	if flip() {
		cfg.Option(xsdgen.PackageName("x"))
	}
	cfg.Option(xsdgen.PackageName(name))
	_, f, err := generate(cfg, schema("u", decls))
	vnd.Assert(err == nil, "code is generated")
	if name == "" {
		name = "ws"
	}
	vnd.Assert(f.Name.Name == name, "the package has the given name")
}

// H_process: user-defined processing applies to every type, in order.
func H_process() {
	var log []string
	note := func(s string) xsdgen.Option {
		return xsdgen.ProcessTypes(func(sc xsd.Schema, t xsd.Type) xsd.Type {
			log = append(log, s+xsd.XMLName(t).Local)
			if c, ok := t.(*xsd.ComplexType); ok && c.Name.Local == "Rec" {
				d := *c
				d.Doc += s
				return &d
			}
			return t
		})
	}
	cfg := new(xsdgen.Config)
	cfg.Option(note("one"), note("two"))
	_, f, err := generate(cfg, schema("u", "<s:complexType name='Rec'><s:sequence><s:element name='r' type='s:string'/></s:sequence></s:complexType><s:simpleType name='Enum'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType>"))
	vnd.Assert(err == nil, "code is generated")
	seen := map[string]int{}
	for i, s := range log {
		seen[s]++
		if strings.HasPrefix(s, "two") {
			vnd.Assert(i > 0 && log[i-1] == "one"+s[3:], "in the order given")
		}
	}
	vnd.Assert(seen["oneRec"] == 1 && seen["twoRec"] == 1 && seen["oneEnum"] == 1 && seen["twoEnum"] == 1, "every type is processed once")
	ok := false
	for _, d := range f.Decls {
		if g, is := d.(*ast.GenDecl); is && g.Doc != nil && strings.Contains(g.Doc.Text(), "onetwo") {
			ok = true
		}
	}
	vnd.Assert(ok, "the processed type is the one declared")
}

// H_imports: imported documents are read exactly if asked for.
func H_imports() {
	follow := flip()
	a := "<s:complexType name='A'><s:sequence><s:element name='b' type='v:B'/></s:sequence></s:complexType>"
	open := "<s:schema xmlns:s='" + xs + "' xmlns:u='u' xmlns:v='v' xmlns:w='w' targetNamespace='"
	tag := func(ns, loc string) string {
		if loc == "" {
			return "<s:import namespace='" + ns + "'/>"
		}
		if ns == "u" {
			return "<s:include schemaLocation='" + loc + "'/>"
		}
		return "<s:import namespace='" + ns + "' schemaLocation='" + loc + "'/>"
	}
	dir := strings.TrimSuffix(vnd.File("dir/x", nil), "x")
	locA, locB, locC := dir+"a.xsd", dir+"b.xsd", dir+"c.xsd"
	inA, inB, inC := tag("v", locB), "", ""
	needC, extra := flip(), vnd.Choose(5)
	b := "<s:complexType name='B'><s:attribute name='x' type='s:int'/></s:complexType>"
	if needC {
		inB = tag("w", locC)
		b = "<s:complexType name='B'><s:sequence><s:element name='c' type='w:C'/></s:sequence></s:complexType>"
	}
	bad := false
	switch extra {
	case 1: // without a location
		inB += tag("x", "")
	case 2: // a cycle
		inB += tag("u", locA)
	case 3: // twice
		inA += tag("w", locC)
	case 4:
		inB += tag("x", dir+"missing.xsd")
		bad = true
	}
	vnd.File("dir/a.xsd", []byte(open+"u'>"+inA+a+"</s:schema>"))
	vnd.File("dir/b.xsd", []byte(open+"v'>"+inB+b+"</s:schema>"))
	vnd.File("dir/c.xsd", []byte(open+"w'>"+inC+"<s:complexType name='C'><s:attribute name='y' type='s:int'/></s:complexType></s:schema>"))
	cfg := new(xsdgen.Config)
	cfg.Option(xsdgen.FollowImports(follow))
	f, err := cfg.GenAST(locA)
	if !follow || bad {
		vnd.Assert(err != nil, "a document that cannot be found is an error")
		return
	}
	vnd.Assert(err == nil, "imported documents are found")
	pkg := load(f)
	vnd.Assert(carrier(fields(pkg, "A"), "b", false).typ == "B", "a type of an imported document")
	vnd.Assert(len(fields(pkg, "B")) == 1, "declared once")
	if needC {
		vnd.Assert(carrier(fields(pkg, "B"), "c", false).typ == "C", "a type of a document imported by an imported document")
	}
}

// H_missing: a document that cannot be read is an error.
func H_missing() {
	dir := strings.TrimSuffix(vnd.File("dir/x", nil), "x")
	ok := vnd.File("dir/ok.xsd", []byte(schema("u", decls)))
	files := []string{dir + "none", ok}
	if flip() {
		files = []string{ok, dir + "none"}
	}
	cfg := defaults()
	_, err := cfg.GenAST(files...)
	vnd.Assert(err != nil, "a document that cannot be read is an error")
	_, err = cfg.GenSource(files...)
	vnd.Assert(err != nil, "a document that cannot be read is an error")
	var _ xml.Name
}

// H_reuse: what a configuration generates does not depend on what it was used
// for before.
func H_reuse() {
	mk := config()
	docs := func(i int) []string {
		switch i {
		case 0:
			return []string{schema("u", decls)}
		case 1:
			return []string{schema("v", "<s:complexType name='B'><s:sequence><s:element name='d' type='s:date'/><s:element name='e' type='s:date'/><s:element name='h' type='s:hexBinary'/></s:sequence></s:complexType><s:simpleType name='L'><s:list itemType='s:int'/></s:simpleType>")}
		case 2:
			return []string{schema("u", "<s:complexType name='b'><s:sequence><s:element name='d' type='s:time'/></s:sequence></s:complexType><s:complexType name='B'><s:attribute name='x' type='s:int'/></s:complexType>")}
		}
		return undoDocs()
	}
	first, second := vnd.Choose(4), vnd.Choose(4)
	one, two := mk(), mk()
	text(two, docs(first)...)
	a, oka := text(one, docs(second)...)
	b, okb := text(two, docs(second)...)
	vnd.Assert(oka == okb, "code is generated exactly if it is by a new configuration")
	vnd.Observe("new", a)
	vnd.Observe("used", b)
	vnd.Assert(a == b, "the same code as from a new configuration")
}
