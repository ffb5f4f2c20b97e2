package gen

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
)

const wsdlNS, soapNS = "http://schemas.xmlsoap.org/wsdl/", "http://schemas.xmlsoap.org/wsdl/soap/"

// partType is a way to give the type of a part and the Go type for it.
type partType struct{ attr, goType string }

var partTypes = []partType{
	{"type='s:string'", "string"},
	{"type='s:date'", "time.Time"},
	{"type='t:Rec'", "Rec"},
	{"element='t:rec'", "Rec"},
	{"type='s:hexBinary'", "[]byte"},
	{"type='t:Day'", "Day"},
	{"type='t:Enum'", "Enum"},
	{"element='t:str'", "string"},
	{"type='t:Many'", "Many"},
	{"element='t:day'", "time.Time"},
	{"element='t:anon'", "?"},
	{"type='s:gYear'", "time.Time"},
	{"type='t:Plain'", "int"},
	{"type='s:boolean'", "bool"},
	{"type='s:base64Binary'", "[]byte"},
	{"element='t:enum'", "Enum"},
	{"type='s:IDREFS'", "[]string"},
	{"type='t:Text'", "int"},
	{"type='s:unsignedLong'", "uint64"},
	{"type='t:Tagged'", "Tagged"},
	{"type='t:Coded'", "Enum"},
	{"element='t:many'", "Many"},
}

const wsdlTypes = decls + "<s:element name='rec' type='t:Rec'/><s:element name='str' type='s:string'/><s:element name='day' type='s:date'/>" +
	"<s:element name='enum' type='t:Enum'/><s:element name='many' type='t:Many'/>" +
	"<s:element name='anon'><s:complexType><s:sequence><s:element name='q' type='s:int'/></s:sequence></s:complexType></s:element>" +
	"<s:complexType name='Coded'><s:simpleContent><s:extension base='t:Enum'/></s:simpleContent></s:complexType>"

// fewTypes are the types that most documents use.
const fewTypes = "<s:complexType name='Rec'><s:sequence><s:element name='r' type='s:string'/></s:sequence></s:complexType>" +
	"<s:simpleType name='Enum'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType>"

type wpart struct {
	name string
	partType
}

// operation is one of a port.
type operation struct {
	name, action  string
	input, output []wpart
	in, out       string // messages
}

type wport struct {
	name, address, verb string
	ops                 []operation
}

// service writes a WSDL document.
func service(schema string, ports ...wport) string {
	doc := "<definitions xmlns='" + wsdlNS + "' xmlns:soap='" + soapNS + "' xmlns:s='" + xs + "' xmlns:t='t' xmlns:w='w' targetNamespace='w'>" +
		"<types><s:schema targetNamespace='t'>" + schema + "</s:schema></types>"
	msgs := map[string]bool{}
	message := func(name string, parts []wpart) {
		if name == "" || msgs[name] {
			return
		}
		msgs[name] = true
		doc += "<message name='" + name + "'>"
		for _, p := range parts {
			doc += "<part name='" + p.name + "' " + p.attr + "/>"
		}
		doc += "</message>"
	}
	for _, p := range ports {
		for _, op := range p.ops {
			message(op.in, op.input)
			message(op.out, op.output)
		}
	}
	for _, p := range ports {
		doc += "<portType name='" + p.name + "T'>"
		for _, op := range p.ops {
			doc += "<operation name='" + op.name + "'>"
			if op.in != "" {
				doc += "<input message='w:" + op.in + "'/>"
			}
			if op.out != "" {
				doc += "<output message='w:" + op.out + "'/>"
			}
			doc += "</operation>"
		}
		doc += "</portType>"
	}
	for _, p := range ports {
		doc += "<binding name='" + p.name + "B' type='w:" + p.name + "T'>"
		if p.verb != "" {
			doc += "<http:binding xmlns:http='http://schemas.xmlsoap.org/wsdl/http/' verb='" + p.verb + "'/>"
		}
		for _, op := range p.ops {
			doc += "<operation name='" + op.name + "'>"
			if op.action != "" {
				doc += "<soap:operation soapAction='" + op.action + "'/>"
			}
			doc += "</operation>"
		}
		doc += "</binding>"
	}
	doc += "<service name='S'>"
	for _, p := range ports {
		doc += "<port name='" + p.name + "' binding='w:" + p.name + "B'><soap:address location='" + p.address + "'/></port>"
	}
	return doc + "</service></definitions>"
}

// client generates a client and type-checks it.
func client(cfg *wsdlgen.Config, doc string) (*ast.File, *types.Package) {
	vnd.Observe("doc", doc)
	f, err := cfg.GenAST(vnd.File("service.wsdl", []byte(doc)))
	if err != nil {
		vnd.Observe("error", err.Error())
	}
	vnd.Assert(err == nil, "code is generated from a valid definition")
	return f, load(f)
}

func wconfig(in, out int) *wsdlgen.Config {
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.XSDOption(xsdgen.DefaultOptions...)
	cfg.Option(wsdlgen.InputThreshold(in), wsdlgen.OutputThreshold(out))
	return cfg
}

// receiver is the method of a file with a name.
func receiver(f *ast.File, name string) *ast.FuncDecl {
	var got *ast.FuncDecl
	for _, d := range f.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv != nil && fn.Name.Name == name {
			if star, ok := fn.Recv.List[0].Type.(*ast.StarExpr); ok {
				if id, ok := star.X.(*ast.Ident); ok && strings.HasPrefix(id.Name, "Client") {
					vnd.Assert(got == nil, "one method per operation")
					got = fn
				}
			}
		}
	}
	vnd.Assert(got != nil, "a method for the operation")
	return got
}

// says tells whether a string is written in the body of a function.
func says(fn *ast.FuncDecl, s string) bool {
	found := false
	ast.Inspect(fn.Body, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
			if v, err := strconv.Unquote(l.Value); err == nil && v == s {
				found = true
			}
		}
		return true
	})
	return found
}

// matches compares a list of types, or the fields of a wrapper, with parts.
func matches(pkg *types.Package, got []types.Type, parts []wpart, max int, result bool) {
	if len(parts) > max {
		vnd.Assert(len(got) == 1, "one wrapper when there are more parts than the threshold")
		t := got[0]
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		vnd.Assert(ok, "the wrapper is a struct")
		vnd.Assert(st.NumFields() == len(parts), "with exactly the parts")
		got = nil
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			vnd.Assert(f.Exported(), "in exported fields")
			if n := parts[i].name; n[0] >= 'a' && n[0] <= 'z' && plain(n) && unlike(parts, i) {
				vnd.Assert(f.Name() == strings.ToUpper(n[:1])+n[1:], "named after the parts, in order")
			}
			got = append(got, f.Type())
		}
	}
	vnd.Assert(len(got) == len(parts), "as many values as parts")
	for i, p := range parts {
		s := typeString(pkg, got[i])
		if p.goType == "?" {
			carrier(fields(pkg, s), "q", false)
			continue
		}
		vnd.Assert(s == p.goType, "of the Go types of the parts, in order")
	}
}

func plain(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i] | 32
		if (c < 'a' || c > 'z') && (s[i] < '0' || s[i] > '9') {
			return false
		}
	}
	return true
}

// unlike tells whether no other part has a similar name.
func unlike(parts []wpart, i int) bool {
	squeeze := func(s string) string {
		var out []byte
		for k := 0; k < len(s); k++ {
			if s[k] != '-' && s[k] != '.' && s[k] != '_' {
				out = append(out, s[k])
			}
		}
		return strings.ToLower(string(out))
	}
	for j, p := range parts {
		if j != i && squeeze(p.name) == squeeze(parts[i].name) {
			return false
		}
	}
	return true
}

func verbOf(p wport) string {
	if p.verb == "" {
		return "POST"
	}
	return p.verb
}

// method checks the method for an operation.
func method(f *ast.File, pkg *types.Package, name string, p wport, op operation, maxIn, maxOut int) {
	fn := receiver(f, name)
	var sig *types.Signature
	recv := fn.Recv.List[0].Type.(*ast.StarExpr).X.(*ast.Ident).Name
	nt := decl(pkg, recv).(*types.Named)
	for i := 0; i < nt.NumMethods(); i++ {
		if nt.Method(i).Name() == name {
			sig = nt.Method(i).Type().(*types.Signature)
		}
	}
	vnd.Assert(sig != nil, "the method is declared")
	var in, out []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		in = append(in, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	vnd.Assert(len(in) > 0 && typeString(pkg, in[0]) == "context.Context", "takes a context")
	vnd.Assert(len(out) > 0 && typeString(pkg, out[len(out)-1]) == "error", "returns an error")
	matches(pkg, in[1:], op.input, maxIn, false)
	matches(pkg, out[:len(out)-1], op.output, maxOut, true)
	vnd.Assert(says(fn, p.address), "the address of the port")
	vnd.Assert(says(fn, verbOf(p)), "the HTTP method of the port")
	vnd.Assert(says(fn, op.action), "the SOAP action of the operation")
}

// H_parts: any number of parts of any types and any thresholds.
func H_parts() {
	maxIn, maxOut := vnd.Choose(4), vnd.Choose(3)
	nin, nout := vnd.Choose(4), vnd.Choose(3+vnd.Tier())
	k := vnd.Choose(3 + vnd.Tier()*(len(partTypes)-3))
	var in, out []wpart
	for i := 0; i < nin; i++ {
		in = append(in, wpart{"p" + string(rune('a'+i)), partTypes[(k+i)%len(partTypes)]})
	}
	for i := 0; i < nout; i++ {
		out = append(out, wpart{"r" + string(rune('a'+i)), partTypes[(k+2+i)%len(partTypes)]})
	}
	op := operation{"run", "urn:run", in, out, "RunIn", "RunOut"}
	p := wport{"P", "http://host/p", "", []operation{op}}
	f, pkg := client(wconfig(maxIn, maxOut), service(wsdlTypes, p))
	method(f, pkg, "Run", p, op, maxIn, maxOut)
}

// H_part_types: parts of every kind of type, in a wrapper or not.
func H_part_types() {
	k := vnd.Choose(len(partTypes))
	l := (3*k + 7) % len(partTypes)
	if vnd.Tier() > 0 {
		l = vnd.Choose(len(partTypes))
	}
	maxIn, maxOut := 3*vnd.Choose(2), 0
	if maxIn == 0 {
		maxOut = 2
	}
	op := operation{"run", "urn:run", []wpart{{"one", partTypes[k]}}, []wpart{{"two", partTypes[l]}}, "RunIn", "RunOut"}
	p := wport{"P", "http://host/p", "", []operation{op}}
	f, pkg := client(wconfig(maxIn, maxOut), service(wsdlTypes, p))
	method(f, pkg, "Run", p, op, maxIn, maxOut)
}

var partNames = []string{"one", "ctx", "c", "input", "type", "string", "err", "time", "a-b", "One", "a.b", "output", "_x", "result", "v", "rec", "Rec", "ab", "func", "nil", "error", "do"}

// H_part_names: parts of any names.
func H_part_names() {
	i, j := vnd.Choose(len(partNames)), vnd.Choose(len(partNames))
	vnd.Assume(i != j)
	c := vnd.Choose(5 + 2*vnd.Tier())
	ty := partTypes[[]int{0, 0, 1, 2, 0, 1, 2}[c]]
	max, maxOut := []int{2, 2, 2, 2, 0, 0, 0}[c], []int{1, 2, 2, 2, 0, 0, 0}[c]
	op := operation{"run", "urn:run", []wpart{{partNames[i], ty}, {partNames[j], partTypes[0]}}, []wpart{{partNames[j], partTypes[1]}, {partNames[i], ty}}, "RunIn", "RunOut"}
	p := wport{"P", "http://host/p", "", []operation{op}}
	f, pkg := client(wconfig(max, maxOut), service(fewTypes, p))
	method(f, pkg, "Run", p, op, max, maxOut)
}

// H_ports: two ports of one or two operations each, selected or not.
func H_ports() {
	actions := []string{"urn:1", "urn:2", "", "urn:1"}
	parts := []wpart{{"a", partTypes[0]}, {"b", partTypes[1]}}
	mk := func(i int) operation {
		m := choose("M", "N")
		o := "O" + string(rune('0'+i))
		return operation{"op" + string(rune('0'+i)), actions[i], parts, parts[:1], m, o}
	}
	one := wport{"one", "http://host/1", choose("", "PUT"), []operation{mk(0), mk(1)}}
	two := wport{"two", "http://host/2", choose("", "GET"), []operation{mk(2)}}
	if flip() {
		two.ops = append(two.ops, mk(3))
	}
	max := vnd.Choose(2) * 2
	cfg := wconfig(max, 2)
	first, second := true, true
	switch vnd.Choose(4) {
	case 1:
		cfg.Option(wsdlgen.OnlyPorts("one"))
		second = false
	case 2:
		cfg.Option(wsdlgen.OnlyPorts("zero", "two"))
		first = false
	case 3:
		cfg.Option(wsdlgen.OnlyPorts("two", "one"))
	}
	f, pkg := client(cfg, service(fewTypes, one, two))
	for _, p := range []wport{one, two} {
		for _, op := range p.ops {
			name := "Op" + op.name[2:]
			if p.name == "one" && first || p.name == "two" && second {
				method(f, pkg, name, p, op, max, 2)
				continue
			}
			for _, d := range f.Decls {
				if fn, ok := d.(*ast.FuncDecl); ok {
					vnd.Assert(fn.Name.Name != name, "no method for an operation of another port")
				}
			}
		}
	}
}

// H_messages: messages that several operations use, and whose names are those
// of other declarations.
func H_messages() {
	parts := []wpart{{"a", partTypes[0]}, {"b", partTypes[2]}}
	in1, out1 := choose("M", "m", "rec", "Client"), choose("M", "N", "Enum")
	in2, out2 := choose("M", "rec", "soapEnvelope", "run"), choose("M", "N")
	vnd.Assume(in1 != "soapEnvelope")
	ops := []operation{{"run", "1", parts, parts, in1, out1}, {"runMore", "2", parts, parts, in2, out2}}
	p := wport{"P", "http://host/p", "", ops}
	maxIn, maxOut := vnd.Choose(2)*2, vnd.Choose(2)*2
	f, pkg := client(wconfig(maxIn, maxOut), service(fewTypes, p))
	method(f, pkg, "Run", p, ops[0], maxIn, maxOut)
	method(f, pkg, "RunMore", p, ops[1], maxIn, maxOut)
}

// H_own_types: schema types with the names of what every client declares.
func H_own_types() {
	a := choose("Client", "client", "soapEnvelope", "RunIn", "Run", "P")
	b := choose("SoapEnvelope", "ClientX", "Client0", "runOut")
	vnd.Assume(strings.ToLower(a) != strings.ToLower(b))
	ty := "<s:complexType name='" + a + "'><s:sequence><s:element name='x' type='s:int'/></s:sequence></s:complexType>" +
		"<s:complexType name='" + b + "'><s:sequence><s:element name='y' type='s:int'/></s:sequence></s:complexType>"
	title := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	parts := []wpart{{"a", partType{"type='t:" + a + "'", title(a)}}, {"b", partType{"type='t:" + b + "'", title(b)}}}
	op := operation{"run", "1", parts, parts, "RunIn", "RunOut"}
	p := wport{"P", "http://host/p", "", []operation{op}}
	max := vnd.Choose(2) * 2
	f, pkg := client(wconfig(max, max), service(fewTypes+ty, p))
	method(f, pkg, "Run", p, op, max, max)
	carrier(fields(pkg, title(a)), "x", false)
	carrier(fields(pkg, title(b)), "y", false)
}

// H_op_names: operations of any names.
func H_op_names() {
	names := []string{"run", "Run", "a.b", "do", "HTTPClient", "requestHook", "get-it", "RunIn", "client", "String", "rec", "_z"}
	name := names[vnd.Choose(len(names))]
	parts := []wpart{{"a", partTypes[0]}, {"b", partTypes[2]}}
	op := operation{name, "1", parts, parts, "RunIn", "RunOut"}
	p := wport{"P", "http://host/p", "", []operation{op}}
	cfg := wconfig(vnd.Choose(2)*2, 2)
	f, _ := client(cfg, service(fewTypes, p))
	n := 0
	for _, d := range f.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv != nil && says(fn, "http://host/p") {
			n++
			vnd.Assert(fn.Name.IsExported(), "users can call it")
		}
	}
	vnd.Assert(n == 1, "one method for the operation")
}

// H_same_ops: two ports that offer the same operation.
func H_same_ops() {
	parts := []wpart{{"a", partTypes[0]}}
	one := wport{choose("one", "Run"), "http://host/1", "", []operation{{"run", "1", parts, parts, "M", "N"}}}
	two := wport{"two", "http://host/2", "", []operation{{choose("run", "Run"), "2", parts, parts, "M", choose("N", "O")}, {choose("runTwo", "other"), "3", parts, parts, "M", "N"}}}
	f, _ := client(wconfig(vnd.Choose(2), vnd.Choose(2)), service(fewTypes, one, two))
	for _, s := range []string{"http://host/1 1", "http://host/2 2", "http://host/2 3"} {
		n := 0
		for _, d := range f.Decls {
			if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv != nil && says(fn, s[:13]) && says(fn, s[14:]) {
				n++
			}
		}
		vnd.Assert(n == 1, "one method for every operation of every port")
	}
}

// H_one_way: operations without input or output.
func H_one_way() {
	parts := []wpart{{"a", partTypes[0]}, {"b", partTypes[1]}}
	op := operation{"run", "1", parts, nil, "M", choose("N", "")}
	if flip() {
		op = operation{"run", "1", nil, parts, choose("N", ""), "M"}
	}
	p := wport{"P", "http://host/p", "", []operation{op}}
	maxIn, maxOut := vnd.Choose(3), vnd.Choose(3)
	f, pkg := client(wconfig(maxIn, maxOut), service(fewTypes, p))
	method(f, pkg, "Run", p, op, maxIn, maxOut)
}

// H_quoted: addresses and actions of any characters.
func H_quoted() {
	a, b := choose("a", "%", "\\", "{{", "`", "&quot;", "&#10;", "\t"), choose("", "\\\\", "%s", "é", "}}", "&amp;")
	un := strings.NewReplacer("&quot;", "\"", "&#10;", "\n", "&amp;", "&")
	parts := []wpart{{"a", partTypes[0]}}
	op := operation{"run", "x" + b + a, parts, parts, "M", "N"}
	p := wport{"P", "http://h/" + a + b, "", []operation{op}}
	doc := service(fewTypes, p)
	op.action, p.address = un.Replace(op.action), un.Replace(p.address)
	f, pkg := client(wconfig(2, 2), doc)
	method(f, pkg, "Run", p, op, 2, 2)
}

// wsdlOptions makes one of several options.
var wsdlOptions = []func() wsdlgen.Option{
	func() wsdlgen.Option { return wsdlgen.OnlyPorts("one") },
	func() wsdlgen.Option { return wsdlgen.OnlyPorts("two", "w") },
	func() wsdlgen.Option { return wsdlgen.OnlyPorts() },
	func() wsdlgen.Option { return wsdlgen.PackageName("other") },
	func() wsdlgen.Option { return wsdlgen.PackageName("") },
	func() wsdlgen.Option { return wsdlgen.PackageComment("Package x does things.") },
	func() wsdlgen.Option { return wsdlgen.InputThreshold(1) },
	func() wsdlgen.Option { return wsdlgen.InputThreshold(0) },
	func() wsdlgen.Option { return wsdlgen.OutputThreshold(1) },
	func() wsdlgen.Option { return wsdlgen.OutputThreshold(2) },
	func() wsdlgen.Option { return wsdlgen.LogLevel(5) },
	func() wsdlgen.Option { return wsdlgen.LogOutput(new(sink)) },
}

func twoPorts() string {
	parts := []wpart{{"a", partTypes[0]}, {"b", partTypes[1]}}
	one := wport{"one", "http://host/1", "", []operation{{"run", "1", parts, parts, "M", "N"}}}
	two := wport{"two", "http://host/2", "GET", []operation{{"go", "2", parts, parts[:1], "M", "O"}}}
	return service(fewTypes, one, two)
}

func clientText(cfg *wsdlgen.Config, doc string) (string, bool) {
	f, err := cfg.GenAST(vnd.File("service.wsdl", []byte(doc)))
	if err != nil {
		vnd.Observe("error", err.Error())
		return "", false
	}
	src, _ := source(f)
	for _, g := range f.Comments {
		src += "\n" + g.Text()
	}
	if f.Doc != nil {
		src += "\n" + f.Doc.Text()
	}
	return src, true
}

// H_wsdl_undo: an option, undone, after one or two others.
func H_wsdl_undo() {
	var prior []func() wsdlgen.Option
	for k := vnd.Choose(2 + vnd.Tier()); len(prior) < k; {
		prior = append(prior, wsdlOptions[vnd.Choose(len(wsdlOptions))])
	}
	opt := wsdlOptions[vnd.Choose(len(wsdlOptions))]
	redo, used := flip(), flip()
	if vnd.Tier() == 0 {
		used = redo
	}
	one, two := new(wsdlgen.Config), new(wsdlgen.Config)
	if (vnd.Tier() == 0 && redo) || (vnd.Tier() > 0 && flip()) {
		one, two = wconfig(2, 2), wconfig(2, 2)
	}
	for _, p := range prior {
		one.Option(p())
		two.Option(p())
	}
	doc := twoPorts()
	undo := two.Option(opt())
	vnd.Assert(undo != nil, "an option returns the option that undoes it")
	if used {
		_, ok := clientText(two, doc)
		vnd.Assert(ok, "code is generated")
	}
	again := two.Option(undo)
	if redo {
		one.Option(opt())
		two.Option(again)
	}
	a, oka := clientText(one, doc)
	b, okb := clientText(two, doc)
	vnd.Assert(oka && okb, "code is generated")
	vnd.Observe("before", a)
	vnd.Observe("after", b)
	vnd.Assert(a == b, "the same code as before")
}

// H_wsdl_log: what is logged goes to the destination of the moment.
func H_wsdl_log() {
	a, b := new(sink), new(sink)
	cfg := wconfig(2, 2)
	cfg.Option(wsdlgen.LogOutput(a), wsdlgen.LogLevel(5))
	undo := cfg.Option(wsdlgen.LogOutput(b))
	swap, quiet := flip(), flip()
	if swap {
		cfg.Option(undo)
	}
	var loud wsdlgen.Option
	if quiet {
		loud = cfg.Option(wsdlgen.LogLevel(0))
	}
	doc := twoPorts()
	clientText(cfg, doc)
	if !swap {
		a, b = b, a
	}
	vnd.Assert(b.n == 0, "nothing is logged elsewhere")
	vnd.Assert(quiet || a.n > 0, "what is asked for is logged")
	if quiet {
		was := a.n
		cfg.Option(loud)
		clientText(cfg, doc)
		vnd.Assert(a.n > was && b.n == 0, "logging is turned on again")
	}
}

// H_wsdl_logparts: destinations and levels of both generators, each perhaps set
// on its own; undoing an option brings back what both had.
func H_wsdl_logparts() {
	var sinks [2][3]*sink
	var cfgs [2]*wsdlgen.Config
	for i := range cfgs {
		sinks[i] = [3]*sink{new(sink), new(sink), new(sink)}
		cfgs[i] = wconfig(2, 2)
	}
	both := func(set func(cfg *wsdlgen.Config, s [3]*sink)) {
		for i := range cfgs {
			set(cfgs[i], sinks[i])
		}
	}
	level, own := choose("0", "1", "5"), choose("0", "1", "5", "")
	number := map[string]int{"0": 0, "1": 1, "5": 5}
	both(func(cfg *wsdlgen.Config, s [3]*sink) {
		cfg.Option(wsdlgen.LogOutput(s[0]), wsdlgen.LogLevel(number[level]))
	})
	if own != "" {
		both(func(cfg *wsdlgen.Config, s [3]*sink) { cfg.XSDOption(xsdgen.LogLevel(number[own])) })
	}
	if flip() {
		both(func(cfg *wsdlgen.Config, s [3]*sink) { cfg.XSDOption(xsdgen.LogOutput(s[1])) })
	}
	// only the second has an option that is undone
	var opt wsdlgen.Option
	switch vnd.Choose(4) {
	case 0:
		opt = wsdlgen.LogLevel(0)
	case 1:
		opt = wsdlgen.LogLevel(5)
	case 2:
		opt = wsdlgen.LogOutput(sinks[1][2])
	case 3:
		opt = wsdlgen.LogOutput(nil)
	}
	again := cfgs[1].Option(cfgs[1].Option(opt))
	if flip() {
		cfgs[1].Option(cfgs[1].Option(again))
	}
	doc := twoPorts()
	_, ok := clientText(cfgs[0], doc)
	_, same := clientText(cfgs[1], doc)
	vnd.Assert(ok && same, "code is generated")
	for i := range sinks[0] {
		vnd.Assert(sinks[0][i].n == sinks[1][i].n, "the same messages go to the same destinations")
	}
}

// H_wsdl_package: the name and the comment of the package.
func H_wsdl_package() {
	name, comment := choose("", "ws", "other"), choose("", "Package x does things.")
	cfg := new(wsdlgen.Config)
	if flip() {
		cfg = wconfig(2, 2)
	}
	if flip() {
		cfg.Option(wsdlgen.PackageName("x"), wsdlgen.PackageComment("Nothing."))
	}
	cfg.Option(wsdlgen.PackageName(name), wsdlgen.PackageComment(comment))
	doc := strings.Replace(twoPorts(), "<port ", "<documentation>From the file.</documentation><port ", 1)
	f, err := cfg.GenAST(vnd.File("service.wsdl", []byte(doc)))
	vnd.Assert(err == nil, "code is generated")
	if name == "" {
		name = "ws"
	}
	vnd.Assert(f.Name.Name == name, "the package has the given name")
	vnd.Assert(f.Doc != nil, "the package is documented")
	text := f.Doc.Text()
	vnd.Observe("doc", text)
	if comment == "" {
		comment = "Package " + name
	}
	vnd.Assert(strings.HasPrefix(text, comment), "by the given comment first")
	vnd.Assert(strings.Contains(text[len(comment):], "From the file."), "then by what the file says")
}
