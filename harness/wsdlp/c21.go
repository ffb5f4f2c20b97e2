// Package wsdlp holds the properties of package wsdl.
package wsdlp

import (
	"encoding/xml"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/wsdl"
)

const (
	wns   = "http://schemas.xmlsoap.org/wsdl/"
	sns   = "http://schemas.xmlsoap.org/wsdl/soap/"
	s12ns = "http://schemas.xmlsoap.org/wsdl/soap12/"
	hns   = "http://schemas.xmlsoap.org/wsdl/http/"
)

func n(space, local string) xml.Name { return xml.Name{Space: space, Local: local} }

// def writes a definition. The WSDL elements are written with the prefix w
// and extension elements with s, s12 and h; t is the target namespace.
func def(tns string, body ...string) string {
	return "<w:definitions xmlns:w='" + wns + "' xmlns:s='" + sns + "' xmlns:s12='" + s12ns +
		"' xmlns:h='" + hns + "' xmlns:t='" + tns + "' xmlns:o='other' targetNamespace='" + tns + "'>" +
		strings.Join(body, "") + "</w:definitions>"
}

func parse(doc string) *wsdl.Definition {
	vnd.Observe("doc", doc)
	d, err := wsdl.Parse([]byte(doc))
	vnd.Assert(err == nil && d != nil, "a valid definition is accepted")
	return d
}

func name() string { return vnd.StringOf("abA", 1) }

func msg(name, parts string) string { return "<w:message name='" + name + "'>" + parts + "</w:message>" }

func op(name, in, out string) string {
	return "<w:operation name='" + name + "'><w:input message='t:" + in + "'/><w:output message='t:" + out + "'/></w:operation>"
}

func portType(name string, ops ...string) string {
	return "<w:portType name='" + name + "'>" + strings.Join(ops, "") + "</w:portType>"
}

func binding(name, typ string, body ...string) string {
	return "<w:binding name='" + name + "' type='t:" + typ + "'>" + strings.Join(body, "") + "</w:binding>"
}

func bop(name, action string) string {
	return "<w:operation name='" + name + "'><s:operation soapAction='" + action + "'/><w:input><s:body use='literal'/></w:input><w:output><s:body use='literal'/></w:output></w:operation>"
}

func port(name, bind, addr string) string {
	return "<w:port name='" + name + "' binding='t:" + bind + "'><s:address location='" + addr + "'/></w:port>"
}

func service(ports ...string) string {
	return "<w:service name='S'>" + strings.Join(ports, "") + "</w:service>"
}

// H_messages: every message with its parts in order, and nothing else.
func H_messages() {
	type part struct {
		name string
		typ  xml.Name
		el   xml.Name
	}
	var want [2][]part
	var names [2]string
	var body string
	k := 2
	for i := 0; i < k; i++ {
		names[i] = name() + string('c'+rune(i))
		var parts string
		for j, np := 0, vnd.Choose(3); j < np; j++ {
			p := part{name: name()}
			val := name()
			pre, space := "t", "u"
			if vnd.Choose(2) == 1 {
				pre, space = "o", "other"
			}
			if vnd.Choose(2) == 1 {
				parts += "<w:part name='" + p.name + "' type='" + pre + ":" + val + "'/>"
				p.typ = n(space, val)
			} else {
				parts += "<w:part element='" + pre + ":" + val + "' name='" + p.name + "'/>"
				p.el = n(space, val)
			}
			want[i] = append(want[i], p)
		}
		body += msg(names[i], parts)
	}
	d := parse(def("u", body))
	vnd.Assert(d.TargetNS == "u", "target namespace")
	vnd.Assert(len(d.Message) == k, "as many messages as written")
	for i := 0; i < k; i++ {
		m, ok := d.Message[n("u", names[i])]
		vnd.Assert(ok, "a message is found by its qualified name")
		vnd.Assert(m.Name == n("u", names[i]), "and carries it")
		vnd.Assert(len(m.Parts) == len(want[i]), "as many parts as written")
		for j, p := range want[i] {
			vnd.Assert(m.Parts[j].Name == p.name, "parts in order")
			vnd.Assert(m.Parts[j].Type.Local == p.typ.Local && m.Parts[j].Element.Local == p.el.Local, "type or element of a part, as written")
			if p.typ.Local != "" {
				vnd.Assert(m.Parts[j].Type == p.typ, "type of a part resolved")
			} else {
				vnd.Assert(m.Parts[j].Element == p.el, "element of a part resolved")
			}
		}
	}
}

// H_part_scope: a part is read with the prefixes in scope at the part.
func H_part_scope() {
	decl := func(on bool, ns string) string {
		if on {
			return " xmlns:p='" + ns + "'"
		}
		return ""
	}
	a, b, c := vnd.Choose(2) == 1, vnd.Choose(2) == 1, vnd.Choose(2) == 1
	want := "0"
	if a {
		want = "1"
	}
	if b {
		want = "2"
	}
	if c {
		want = "3"
	}
	kind := []string{"type", "element"}[vnd.Choose(2)]
	def := "<definitions xmlns='" + wns + "' xmlns:p='0' targetNamespace='u'" + ">" +
		"<types" + decl(true, "9") + "/>" +
		"<message name='m'" + decl(a, "1") + "><part name='z'" + decl(true, "8") + "/><part name='x'" + decl(b, "2") + " " + kind + "='p:y'" + decl(c && !b, "3") + "/></message></definitions>"
	if c && b {
		want = "2"
	}
	d := parse(def)
	m := d.Message[n("u", "m")]
	vnd.Assert(len(m.Parts) == 2, "two parts")
	got := m.Parts[1].Type
	if kind == "element" {
		got = m.Parts[1].Element
	}
	vnd.Assert(got == n(want, "y"), "a prefix means what it was last bound to around the part")
}

// H_ops: each port has the operations of the port type its binding names.
func H_ops() {
	// two port types, two bindings, two ports; all the links are arbitrary
	ptA, ptB := "P", "Q"
	type opw struct{ name, in, out string }
	var ops [2][]opw
	var pts string
	for i, p := range []string{ptA, ptB} {
		var s []string
		k := 1 + vnd.Choose(2)
		for j := 0; j < k; j++ {
			o := opw{name: name() + string('0'+rune(j)), in: name(), out: name()}
			ops[i] = append(ops[i], o)
			s = append(s, op(o.name, o.in, o.out))
		}
		pts += portType(p, s...)
	}
	pt := func(i int) string { return []string{ptA, ptB}[i] }
	bt := [2]int{vnd.Choose(2), vnd.Choose(2)}
	var binds string
	for i, b := range []string{"B", "C"} {
		binds += binding(b, pt(bt[i]))
	}
	pb := [2]int{vnd.Choose(2), vnd.Choose(2)}
	addr := [2]string{name(), name()}
	svc := service(port("x", []string{"B", "C"}[pb[0]], addr[0]), port("y", []string{"B", "C"}[pb[1]], addr[1]))
	d := parse(def("u", pts, binds, svc))
	vnd.Assert(len(d.Ports) == 2, "every port")
	for i := range d.Ports {
		p := d.Ports[i]
		vnd.Assert(p.Name == []string{"x", "y"}[i], "ports in order")
		vnd.Assert(p.Address == addr[i], "the address of the port")
		vnd.Assert(p.Method == "POST", "the method is POST where nothing else is said")
		want := ops[bt[pb[i]]]
		vnd.Assert(len(p.Operations) == len(want), "the operations of the port type bound to the port, no more and no less")
		for j, o := range want {
			g := p.Operations[j]
			vnd.Assert(g.Name == n("u", o.name), "operations in order")
			vnd.Assert(g.Input == n("u", o.in), "input message")
			vnd.Assert(g.Output == n("u", o.out), "output message")
			vnd.Assert(g.SOAPAction == "", "no action where none is given")
		}
	}
}

// H_names: ports, bindings and port types are matched by their whole names.
func H_names() {
	b1, b2 := vnd.StringOf("abA", 1+vnd.Choose(2)), vnd.StringOf("abA", 1+vnd.Choose(2))
	p1, p2 := vnd.StringOf("abA", 1+vnd.Choose(2)), vnd.StringOf("abA", 1+vnd.Choose(2))
	vnd.Assume(b1 != b2)
	vnd.Assume(p1 != p2)
	use, typ := vnd.Choose(2), vnd.Choose(2)
	bt := [2]string{p1, p2}
	if typ == 1 {
		bt = [2]string{p2, p1}
	}
	d := parse(def("u", portType(p1, op("o", "i", "r")), portType(p2, op("q", "j", "s")),
		binding(b1, bt[0], bop("o", "1"), bop("q", "2")), binding(b2, bt[1], bop("o", "3"), bop("q", "4")),
		service(port("x", []string{b1, b2}[use], "a"))))
	vnd.Assert(len(d.Ports) == 1 && len(d.Ports[0].Operations) == 1, "one port with one operation")
	g := d.Ports[0].Operations[0]
	first := (use == 0) == (typ == 0) // p1 is reached
	want, action := "q", []string{"2", "4"}[use]
	if first {
		want, action = "o", []string{"1", "3"}[use]
	}
	vnd.Assert(g.Name == n("u", want), "the port type that was named")
	vnd.Assert(g.SOAPAction == action, "the action given in the binding that was named")
}

// H_namespaces: names of another namespace are not taken for local ones.
func H_namespaces() {
	pre := func() (string, bool) {
		i := vnd.Choose(3)
		return []string{"t:", "o:", "p:"}[i], i != 1
	}
	pp, pok := pre()
	bp, bok := pre()
	d := parse("<w:definitions xmlns:w='" + wns + "' xmlns:t='u' xmlns:p='u' xmlns:o='v' targetNamespace='u'>" +
		portType("P", op("o", "i", "r")) +
		"<w:binding name='B' type='" + bp + "P'/>" +
		"<w:service name='S'><w:port name='x' binding='" + pp + "B'/></w:service></w:definitions>")
	vnd.Assert(len(d.Ports) == 1, "one port")
	if pok && bok {
		vnd.Assert(len(d.Ports[0].Operations) == 1, "found by namespace, whatever the prefix")
	} else {
		vnd.Assert(len(d.Ports[0].Operations) == 0, "a name of another namespace is not found")
	}
}

// H_default_ns: unprefixed references are in the default namespace.
func H_default_ns() {
	spaces := []string{"", "u", "v"}
	dns := spaces[vnd.Choose(3)]
	decl := ""
	if dns != "" {
		decl = " xmlns='" + dns + "'"
	}
	d := parse("<w:definitions xmlns:w='" + wns + "' targetNamespace='u'" + decl + ">" +
		"<w:message name='i'><w:part name='p' type='y'/></w:message>" +
		"<w:portType name='P'><w:operation name='o'><w:input message='i'/><w:output message='i'/></w:operation></w:portType>" +
		"<w:binding name='B' type='P'/>" +
		"<w:service name='S'><w:port name='x' binding='B'/></w:service></w:definitions>")
	m, ok := d.Message[n("u", "i")]
	vnd.Assert(ok && len(m.Parts) == 1, "a message is declared in the target namespace")
	vnd.Assert(m.Parts[0].Type == n(dns, "y"), "an unprefixed type is in the default namespace")
	if dns == "u" {
		vnd.Assert(len(d.Ports[0].Operations) == 1, "unprefixed references to the target namespace")
		vnd.Assert(d.Ports[0].Operations[0].Input == n("u", "i"), "unprefixed message")
	}
	if dns == "v" {
		vnd.Assert(len(d.Ports[0].Operations) == 0, "unprefixed references to another namespace")
	}
}

// H_method: the verb of the binding the port names.
func H_method() {
	verb := func() (string, string) {
		switch vnd.Choose(4) {
		case 0:
			return "", "POST"
		case 1:
			return "<h:binding verb=''/>", "POST"
		case 2:
			return "<s:binding style='rpc' verb='GET'/>", "POST"
		}
		v := vnd.StringOf("GEgePt", 1+vnd.Choose(3+vnd.Tier()))
		up := ""
		for i := 0; i < len(v); i++ {
			c := v[i]
			if c >= 'a' && c <= 'z' {
				c -= 32
			}
			up += string([]byte{c})
		}
		return "<h:binding verb='" + v + "'/>", up
	}
	v1, w1 := verb()
	v2, w2 := verb()
	second := vnd.Choose(2) == 1
	bind, want := "B", w1
	if second {
		bind, want = "C", w2
	}
	d := parse(def("u", portType("P", op("o", "i", "r")), binding("B", "P", v1), binding("C", "P", v2), service(port("x", bind, "a"))))
	vnd.Assert(len(d.Ports) == 1, "one port")
	vnd.Assert(d.Ports[0].Method == want, "the method is the verb of the binding of the port, POST if there is none")
}

// H_action: the action given for the operation in the binding of the port.
func H_action() {
	act := func() string { return vnd.StringOf("xy", 1) }
	o1, o2 := vnd.StringOf("oOq", 1+vnd.Choose(2)), vnd.StringOf("oOq", 1+vnd.Choose(2))
	vnd.Assume(o1 != o2)
	b1o, b1q, b2o, b2q := act(), act(), act(), act()
	has := vnd.Choose(2) == 1
	var second string
	if has {
		second = bop(o2, b1q)
	}
	soap12 := vnd.Choose(2) == 1
	first := bop(o1, b1o) + second
	if soap12 {
		first = strings.Replace(first, "<s:operation", "<s12:operation", -1)
	}
	if vnd.Choose(2) == 1 {
		first = "<s:binding style='document'/>" + first
	}
	// the order in which the binding lists the operations is not that of the port type
	d := parse(def("u", portType("P", op(o2, "i", "r"), op(o1, "i", "r")),
		binding("B", "P", first), binding("C", "P", bop(o1, b2o)+bop(o2, b2q)),
		service(port("x", "B", "a"), port("y", "C", "b"))))
	vnd.Assert(len(d.Ports) == 2 && len(d.Ports[0].Operations) == 2 && len(d.Ports[1].Operations) == 2, "two ports with two operations")
	x, y := d.Ports[0].Operations, d.Ports[1].Operations
	vnd.Assert(x[0].Name.Local == o2 && x[1].Name.Local == o1, "in the order of the port type")
	vnd.Assert(x[1].SOAPAction == b1o, "action in the first binding")
	if has {
		vnd.Assert(x[0].SOAPAction == b1q, "action of the other operation")
	} else {
		vnd.Assert(x[0].SOAPAction == "", "an operation for which the binding gives no action has none")
	}
	vnd.Assert(y[1].SOAPAction == b2o && y[0].SOAPAction == b2q, "actions in the second binding")
}

// H_address: the address of each port, of whatever protocol, and every port
// of every service.
func H_address() {
	kind := func() string { return []string{"s", "s12", "h"}[vnd.Choose(3)] }
	k1, k2 := kind(), kind()
	a1, a2 := vnd.StringOf("xy/:", 2), vnd.StringOf("xy/:", 2)
	p1 := "<w:port name='x' binding='t:B'><" + k1 + ":address location='" + a1 + "'/></w:port>"
	p2 := "<w:port name='y' binding='t:B'><" + k2 + ":address location='" + a2 + "'/></w:port>"
	var svc string
	shape := vnd.Choose(3)
	switch shape {
	case 0:
		svc = service(p1, p2)
	case 1:
		svc = service(p1) + service(p2)
	case 2:
		svc = service(p1, "<w:port name='y' binding='t:B'/>")
		a2 = ""
	}
	d := parse(def("u", portType("P", op("o", "i", "r")), binding("B", "P", bop("o", "z")), svc))
	vnd.Assert(len(d.Ports) == 2, "every port of every service")
	vnd.Assert(d.Ports[0].Name == "x" && d.Ports[1].Name == "y", "ports in order")
	vnd.Assert(d.Ports[0].Address == a1, "address of the first port")
	vnd.Assert(d.Ports[1].Address == a2, "address of the second port")
	for i := range d.Ports {
		vnd.Assert(len(d.Ports[i].Operations) == 1 && d.Ports[i].Operations[0].SOAPAction == "z", "each port has the operations of its own")
	}
}

// H_oneway: an operation without input or output has none, and does not get
// that of another.
func H_oneway() {
	piece := func(i int) (string, string, string) {
		s := "<w:operation name='o" + string('0'+rune(i)) + "'>"
		var in, out string
		if vnd.Choose(2) == 1 {
			in = name()
			s += "<w:input message='t:" + in + "'/>"
		}
		if vnd.Choose(2) == 1 {
			out = name()
			s += "<w:output message='t:" + out + "'/>"
		}
		return s + "<w:fault name='f' message='t:zz'/></w:operation>", in, out
	}
	s0, i0, r0 := piece(0)
	s1, i1, r1 := piece(1)
	d := parse(def("u", portType("P", s0, s1), binding("B", "P"), service(port("x", "B", "a"))))
	vnd.Assert(len(d.Ports) == 1 && len(d.Ports[0].Operations) == 2, "two operations")
	ops := d.Ports[0].Operations
	vnd.Assert(ops[0].Input.Local == i0 && ops[0].Output.Local == r0, "messages of the first")
	vnd.Assert(ops[1].Input.Local == i1 && ops[1].Output.Local == r1, "messages of the second")
}

// H_malformed: what is not well-formed is an error, not a definition.
func H_malformed() {
	doc := def("u", portType("P", op("o", "i", "r")))
	cut := 30*vnd.Choose((len(doc)+29)/30) + vnd.Choose(30)
	vnd.Assume(cut < len(doc))
	_, err := wsdl.Parse([]byte(doc[:cut]))
	vnd.Assert(err != nil, "a truncated document is an error")
}

// H_scopes: every reference is read with the prefixes in scope at the element
// that has it.
func H_scopes() {
	// the declarations on an element and on the one around it
	place := func() (outer, inner string) {
		const good, bad = " xmlns:p='u'", " xmlns:p='bad'"
		switch vnd.Choose(3) {
		case 0:
			return good, ""
		case 1:
			return "", good
		}
		return bad, good
	}
	svc, pt := place()
	_, bd := place()
	opd, in := place()
	out := in
	if in == "" {
		out = []string{"", " xmlns:p='v'"}[vnd.Choose(2)]
	}
	vnd.Assume(bd != "")
	d := parse("<w:definitions xmlns:w='" + wns + "' xmlns:s='" + sns + "' xmlns:p='zz' targetNamespace='u'>" +
		"<w:portType name='P'><w:operation name='o'" + opd + "><w:input" + in + " message='p:i'/><w:output message='p:r'" + out + "/></w:operation></w:portType>" +
		"<w:binding name='B' type='p:P'" + bd + "/>" +
		"<w:service name='S'" + svc + "><w:port name='x' binding='p:B'" + pt + "/></w:service></w:definitions>")
	vnd.Assert(len(d.Ports) == 1 && len(d.Ports[0].Operations) == 1, "a prefix means what it was last bound to around a reference")
	o := d.Ports[0].Operations[0]
	vnd.Assert(o.Input == n("u", "i"), "of a message")
	want := "u"
	if out == " xmlns:p='v'" {
		want = "v"
	}
	vnd.Assert(o.Output == n(want, "r"), "of a message")
}

// H_overloaded: operations of one name, which are told apart by the names of
// their messages, and others beside them.
func H_overloaded() {
	k := 2 + vnd.Tier()
	var ops, bops []string
	var want []string
	no := vnd.Choose(3) // what has a name
	side := func(kind string, i int) string {
		if no == 0 && kind == "input" || no == 1 && kind == "output" {
			return ""
		}
		return " name='" + kind + string('0'+rune(i)) + "'"
	}
	for i := 0; i < k; i++ {
		a := vnd.StringOf("xy", 1)
		ops = append(ops, "<w:operation name='o'><w:input"+side("input", i)+" message='t:i"+string('0'+rune(i))+"'/><w:output"+side("output", i)+" message='t:r'/></w:operation>")
		bops = append(bops, "<w:operation name='o'><s:operation soapAction='"+a+"'/><w:input"+side("input", i)+"/><w:output"+side("output", i)+"/></w:operation>")
		want = append(want, a)
	}
	ops = append(ops, op("q", "i", "r"))
	bops = append(bops, bop("q", "z"))
	want = append(want, "z")
	if vnd.Choose(2) == 1 {
		bops[0], bops[1] = bops[1], bops[0]
	}
	if vnd.Choose(2) == 1 {
		bops[0], bops[k] = bops[k], bops[0]
	}
	d := parse(def("u", portType("P", ops...), binding("B", "P", bops...), service(port("x", "B", "a"))))
	vnd.Assert(len(d.Ports) == 1 && len(d.Ports[0].Operations) == k+1, "every operation")
	for i, o := range d.Ports[0].Operations {
		vnd.Assert(o.SOAPAction == want[i], "the action of an operation that has the name of another")
	}
}
