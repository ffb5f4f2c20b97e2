package gen

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
)

// declared lists what a file declares, one line each, in order.
func declared(f *ast.File) string {
	var out []string
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r := ""
			if d.Recv != nil {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					r, t = "*", s.X
				}
				r += t.(*ast.Ident).Name + "."
			}
			out = append(out, r+d.Name.Name)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					out = append(out, s.Name.Name)
				case *ast.ValueSpec:
					for _, v := range s.Names {
						out = append(out, v.Name)
					}
				}
			}
		}
	}
	return strings.Join(out, "\n")
}

// sourceOf checks that the text written is source code of a file that
// declares what the tree does, and says how it was made.
func sourceOf(src []byte, f *ast.File, pkg string, about ...string) {
	vnd.Assert(strings.HasPrefix(string(src), "// Code generated by "), "generated code says that it is")
	line := string(src)[:strings.Index(string(src), "\n")]
	vnd.Assert(strings.HasSuffix(line, " DO NOT EDIT."), "and that it is not to be edited")
	p, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments)
	vnd.Assert(err == nil, "what is written parses")
	vnd.Assert(p.Name.Name == pkg, "the name of the package")
	vnd.Assert(declared(p) == declared(f), "declares what was generated")
	doc := ""
	for _, c := range p.Comments {
		if c.Pos() < p.Package {
			doc += c.Text()
		}
	}
	for _, a := range about {
		vnd.Assert(strings.Contains(doc, a), "the comment of the package")
	}
}

// pick makes choices that are independent in thorough runs, and in pairs of
// neighbours in quick ones.
func pick() func(dim, n int) int {
	vary := 0
	if vnd.Tier() == 0 {
		vary = vnd.Choose(6)
	}
	return func(dim, n int) int {
		if vnd.Tier() == 1 || dim == vary || dim == (vary+1)%6 {
			return vnd.Choose(n)
		}
		return 0
	}
}

// output is a place for the tool to write to, and the arguments that name it.
func output(std string, how int) (name string, args []string) {
	switch how / 2 {
	case 0:
		return vnd.Output(std), nil
	case 1:
		name = vnd.Output("out.go")
	case 2:
		name = vnd.File("old.go", []byte("old"))
	}
	if how%2 == 1 {
		return name, []string{"-o=" + name}
	}
	return name, []string{"-o", name}
}

// wrote compares what a tool wrote with what it should have written.
func wrote(name string, err error, want []byte, werr error) bool {
	vnd.Assert((err == nil) == (werr == nil), "an error exactly if there is one")
	got, rerr := ioutil.ReadFile(name)
	if err != nil {
		vnd.Cover("error")
		vnd.Assert(rerr != nil || string(got) == "old", "nothing is written if there is an error")
		return false
	}
	vnd.Assert(rerr == nil, "the output is written where it was asked for")
	vnd.Assert(string(got) == string(want), "the output is what the options stand for")
	vnd.Cover("written")
	return true
}

const cliDecls = "<s:complexType name='A'><s:sequence><s:element name='d' type='s:date'/><s:element name='x_a'><s:complexType><s:attribute name='id' type='s:int'/></s:complexType></s:element></s:sequence></s:complexType><s:simpleType name='E'><s:restriction base='s:string'/></s:simpleType>"

// H_cli_xsd: the arguments of xsdgen.
func H_cli_xsd() {
	dir := strings.TrimSuffix(vnd.File("cli/x", nil), "x")
	open := func(tns string) string {
		return "<s:schema xmlns:s='" + xs + "' xmlns:t='" + tns + "' xmlns:v='v' targetNamespace='" + tns + "'>"
	}
	a := vnd.File("cli/a.xsd", []byte(open("u")+"<s:import namespace='v' schemaLocation='"+dir+"b.xsd'/>"+cliDecls+"<s:complexType name='F'><s:attribute name='i' type='v:I'/></s:complexType></s:schema>"))
	b := vnd.File("cli/b.xsd", []byte(open("v")+"<s:simpleType name='I'><s:restriction base='s:int'/></s:simpleType><s:complexType name='B'><s:attribute name='q' type='s:time'/></s:complexType></s:schema>"))
	choice := pick()
	name, args := output("xsdgen_output.go", choice(0, 6))
	skip := len(args)
	one, two := defaults(), defaults()
	pkg := "ws"
	was := choice(1, 4)
	if was&1 != 0 {
		one.Option(xsdgen.PackageName("was"))
		two.Option(xsdgen.PackageName("was"))
		pkg = "was"
	}
	if was&2 != 0 {
		pkg = "ab"
		args = append(args, "-pkg", pkg)
		two.Option(xsdgen.PackageName(pkg))
	}
	switch choice(2, 5) {
	case 1:
		args = append(args, "-ns", "u")
		two.Option(xsdgen.Namespaces("u"))
	case 4:
		args = append(args, "-ns", "u", "-ns", "u")
		two.Option(xsdgen.Namespaces("u"))
	case 2:
		args = append(args, "-ns", "v", "-ns=u")
		two.Option(xsdgen.Namespaces("v", "u"))
	case 3:
		args = append(args, "-ns", "none", "-ns", "u")
		two.Option(xsdgen.Namespaces("none", "u"))
	}
	switch choice(3, 4) {
	case 1:
		args = append(args, "-r", "^A -> B")
		two.Option(xsdgen.Replace("^A", "B"))
	case 2:
		args = append(args, "-r", "x_(.) -> Z$1", "-r=Z->Y")
		two.Option(xsdgen.Replace("x_(.)", "Z$1"), xsdgen.Replace("Z", "Y"))
	case 3:
		args = append(args, "-r", "->Q")
		two.Option(xsdgen.Replace("", "Q"))
	}
	var log sink
	verbose := choice(4, 3)
	one.Option(xsdgen.LogOutput(&log))
	switch verbose {
	case 1:
		args = append(args, "-v")
	case 2:
		args = append(args, "-vv")
	}
	var files []string
	switch choice(5, 5) {
	case 0:
		files = []string{a, b}
	case 1:
		files = []string{b}
	case 2:
		args = append(args, "-f")
		two.Option(xsdgen.FollowImports(true))
		files = []string{a}
	case 3:
		files = []string{b, dir + "none.xsd"}
	case 4:
		files = []string{a} // refers to what is not there
	}
	vnd.Observe("args", strings.Join(args[skip:], " "))
	err := one.GenCLI(append(args, files...)...)
	want, werr := two.GenSource(files...)
	if wrote(name, err, want, werr) {
		vnd.Assert(verbose == 0 && log.n == 0 || verbose == 1 || verbose == 2 && log.n > 0, "it says what it does when asked to")
		f, err := two.GenAST(files...)
		vnd.Assert(err == nil, "accepted again")
		sourceOf(want, f, pkg)
	}
}

// H_cli_wsdl: the arguments of wsdlgen.
func H_cli_wsdl() {
	doc := twoPorts()
	file := vnd.File("service.wsdl", []byte(doc))
	choice := pick()
	name, args := output("wsdlgen_output.go", choice(0, 6))
	skip := len(args)
	mk := func() *wsdlgen.Config {
		cfg := new(wsdlgen.Config)
		cfg.Option(wsdlgen.DefaultOptions...)
		cfg.XSDOption(xsdgen.DefaultOptions...)
		return cfg
	}
	one, two := mk(), mk()
	pkg, about := "ws", ""
	if choice(1, 2) == 1 {
		pkg = "ab"
		args = append(args, "-pkg", pkg)
		two.Option(wsdlgen.PackageName(pkg))
		two.XSDOption(xsdgen.PackageName(pkg))
	}
	if choice(2, 2) == 1 {
		about = "Package ab is not C."
		args = append(args, "-c", about)
		two.Option(wsdlgen.PackageComment(about))
	}
	switch choice(3, 4) {
	case 1:
		args = append(args, "-port", "one")
		two.Option(wsdlgen.OnlyPorts("one"))
	case 2:
		args = append(args, "-port", "none", "-port=two")
		two.Option(wsdlgen.OnlyPorts("none", "two"))
	case 3:
		args = append(args, "-port", "none")
		two.Option(wsdlgen.OnlyPorts("none"))
	}
	switch choice(2, 3) {
	case 1:
		args = append(args, "-r", "^T -> B")
		two.XSDOption(xsdgen.Replace("^T", "B"))
	case 2:
		args = append(args, "-r", "(.)$ -> ${1}Z", "-r=Z->Y")
		two.XSDOption(xsdgen.Replace("(.)$", "${1}Z"), xsdgen.Replace("Z", "Y"))
	}
	var log sink
	verbose := choice(4, 3)
	one.Option(wsdlgen.LogOutput(&log))
	switch verbose {
	case 1:
		args = append(args, "-v")
	case 2:
		args = append(args, "-vv")
	}
	files := [][]string{{file}, {"missing.wsdl"}, {vnd.File("bad.wsdl", []byte("<a>"))}, {}}[choice(5, 4)]
	vnd.Observe("args", strings.Join(args[skip:], " "))
	err := one.GenCLI(append(args, files...)...)
	want, werr := two.GenSource(files...)
	if wrote(name, err, want, werr) {
		vnd.Assert(verbose == 0 && log.n == 0 || verbose > 0 && log.n > 0, "it says what it does when asked to")
		f, err := two.GenAST(files...)
		vnd.Assert(err == nil, "accepted again")
		sourceOf(want, f, pkg, about)
	}
}

// H_cli_none: without files there is nothing to do.
func H_cli_none() {
	name, args := output("xsdgen_output.go", vnd.Choose(6))
	if flip() {
		args = append(args, "-pkg", "x")
	}
	vnd.Assert(defaults().GenCLI(args...) != nil, "xsdgen needs files")
	got, err := ioutil.ReadFile(name)
	vnd.Assert(err != nil || string(got) == "old", "nothing is written")
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	vnd.Assert(cfg.GenCLI(args...) != nil, "wsdlgen needs files")
	got, err = ioutil.ReadFile(name)
	vnd.Assert(err != nil || string(got) == "old", "nothing is written")
	vnd.Assert(wsdlgen.GenCLI(args...) != nil, "wsdlgen needs files")
}
