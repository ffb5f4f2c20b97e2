package gen

import (
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
)

var oddNames = []string{"element", "attribute", "complexType", "simpleType", "group", "attributeGroup",
	"sequence", "choice", "all", "any", "anyAttribute", "simpleContent", "complexContent", "extension", "restriction",
	"list", "union", "annotation", "enumeration", "pattern", "minLength", "schema"}

var oddAttrs = []string{" name='N'", "", " name='A' type='t:N'", " ref='t:N'", " base='t:N' itemType='t:N' memberTypes='t:N s:int' value='4'",
	" base='e:Array' ref='e:arrayType' name='N'"}

func oddElem(name, attr int, inner string) string {
	return "<s:" + oddNames[name] + oddAttrs[attr] + ">" + inner + "</s:" + oddNames[name] + ">"
}

// arrays is the part of the SOAP encoding schema that is treated specially.
const arrays = "<s:schema xmlns:s='" + xs + "' xmlns:t='http://schemas.xmlsoap.org/soap/encoding/' targetNamespace='http://schemas.xmlsoap.org/soap/encoding/'><s:attribute name='arrayType' type='s:string'/><s:complexType name='Array'><s:sequence><s:any minOccurs='0' maxOccurs='unbounded'/></s:sequence><s:attribute ref='t:arrayType'/></s:complexType></s:schema>"

// survives generates code with a configuration; it has to return.
func survives(cfg *xsdgen.Config, docs ...string) {
	code, f, err := generate(cfg, docs...)
	if err != nil {
		vnd.Assert(f == nil, "an error or a result")
		vnd.Cover("rejected")
		return
	}
	vnd.Assert(f != nil, "an error or a result")
	code.NameOf(n("u", "N"))
	code.DocType("u")
	vnd.Cover("accepted")
}

func oddOpen() string {
	return "<s:schema xmlns:s='" + xs + "' xmlns:t='u' xmlns:e='http://schemas.xmlsoap.org/soap/encoding/' xmlns:w='http://schemas.xmlsoap.org/wsdl/' targetNamespace='u'>"
}

func oddConfig() *xsdgen.Config {
	switch vnd.Choose(3) {
	case 0:
		return new(xsdgen.Config)
	case 1:
		return defaults()
	}
	cfg := defaults()
	cfg.Option(xsdgen.SOAPArrayAsSlice(), xsdgen.UseFieldNames(), xsdgen.OnlyTypes("N"), xsdgen.Replace("N", ""))
	return cfg
}

// H_odd_types: elements of schemas in places they do not belong.
func H_odd_types() {
	cfg := oddConfig()
	a := vnd.Choose(6)
	x := 0
	b, y := vnd.Choose(len(oddNames)), vnd.Choose(len(oddAttrs))
	inner := ""
	if vnd.Tier() == 1 {
		x = vnd.Choose(2)
		inner = oddElem(vnd.Choose(len(oddNames)), vnd.Choose(len(oddAttrs)), "")
	}
	use := ""
	if a == 2 || a == 3 {
		use = "<s:complexType name='M'><s:sequence><s:element name='n' type='t:N'/></s:sequence></s:complexType>"
	}
	survives(cfg, oddOpen()+oddElem(a, x, oddElem(b, y, inner))+use+"</s:schema>", arrays)
}

// H_odd_content: the same, one level deeper.
func H_odd_content() {
	b, c := vnd.Choose(len(oddNames)), vnd.Choose(len(oddNames))
	cfg, y, z := defaults(), 4, 0
	if vnd.Tier() == 0 {
		z = []int{0, 4, 5}[vnd.Choose(3)]
	} else {
		cfg = oddConfig()
		y = []int{1, 4, 5}[vnd.Choose(3)]
		z = vnd.Choose(len(oddAttrs))
	}
	survives(cfg, oddOpen()+oddElem(2, 0, oddElem(b, y, oddElem(c, z, "")))+"</s:schema>", arrays)
}

// H_odd_array: any value of the attribute that names the type of the items.
func H_odd_array() {
	v := vnd.StringOf("s:N[]2", vnd.Choose(5+vnd.Tier()))
	survives(defaults(), oddOpen()+"<s:complexType name='N'><s:complexContent><s:restriction base='e:Array'><s:attribute ref='e:arrayType' w:arrayType='"+v+"'/></s:restriction></s:complexContent></s:complexType></s:schema>", arrays)
}

// H_odd_name: any name of a type, an element in it, and an attribute.
func H_odd_name() {
	v := vnd.StringOf("aN1_-.:", 1+vnd.Choose(3))
	survives(oddConfig(), oddOpen()+[]string{
		"<s:complexType name='" + v + "'><s:sequence><s:element name='a' type='t:" + v + "'/></s:sequence></s:complexType>",
		"<s:simpleType name='" + v + "'><s:list itemType='s:int'/></s:simpleType>",
		"<s:complexType name='M'><s:sequence><s:element name='" + v + "'><s:complexType><s:attribute name='" + v + "'><s:simpleType><s:list itemType='s:int'/></s:simpleType></s:attribute></s:complexType></s:element></s:sequence></s:complexType>",
	}[vnd.Choose(3)]+"</s:schema>")
}

// H_odd_wsdl: elements of definitions with attributes missing or wrong.
func H_odd_wsdl() {
	doc := service("<s:complexType name='T'><s:attribute name='a' type='s:int'/></s:complexType><s:element name='e' type='t:T'/>",
		wport{name: "P", address: "http://e", ops: []operation{
			{name: "A", action: "a", input: []wpart{{"x", partType{attr: "type='t:T'"}}}, output: []wpart{{"y", partType{attr: "element='t:e'"}}}, in: "IA", out: "OA"},
			{name: "B", action: "b", input: []wpart{{"x", partType{attr: "type='s:int'"}}}, in: "IB"},
		}})
	// every attribute in turn is missing, empty, or has another value
	var at []int
	for i := 0; i < len(doc); i++ {
		if doc[i] == '\'' && doc[i-1] == '=' && !strings.HasSuffix(doc[:i], "xmlns=") && !strings.HasSuffix(doc[:i-1], ":s") && !strings.HasSuffix(doc[:i-1], ":w") && !strings.HasSuffix(doc[:i-1], ":t") && !strings.HasSuffix(doc[:i-1], ":soap") {
			at = append(at, i)
		}
	}
	change := func(k int) {
		i := at[k]
		j := i + 1 + strings.IndexByte(doc[i+1:], '\'')
		values := []string{"-", "", ":", "w:none", "t:T", "s:", "w:IA", "x", "1", "w:PT"}
		v := values[vnd.Choose(len(values))]
		if v == "-" {
			start := strings.LastIndexByte(doc[:i], ' ')
			doc = doc[:start] + doc[j+1:]
		} else {
			doc = doc[:i+1] + v + doc[j:]
		}
	}
	k := vnd.Choose(len(at))
	if vnd.Tier() == 1 && k > 0 {
		l := vnd.Choose(k) // an earlier one, positions up to it do not move
		change(k)
		change(l)
	} else {
		change(k)
	}
	vnd.Observe("doc", doc)
	cfg := wconfig(1, 1)
	if vnd.Tier() == 0 && k%2 == 1 || vnd.Tier() == 1 && vnd.Choose(2) == 1 {
		cfg = new(wsdlgen.Config)
	}
	f, err := cfg.GenAST(vnd.File("service.wsdl", []byte(doc)))
	vnd.Assert((f == nil) == (err != nil), "an error or a result")
	if err == nil {
		vnd.Cover("accepted")
	} else {
		vnd.Cover("rejected")
	}
}

// H_odd_part: elements of definitions missing or in places they do not belong.
func H_odd_part() {
	names := []string{"types", "message", "part", "portType", "operation", "input", "output", "binding", "service", "port", "definitions"}
	attrs := []string{" name='P'", "", " name='P' message='w:P' type='w:P' binding='w:P'", " element='w:P'"}
	elem := func(inner string) string {
		nm := names[vnd.Choose(len(names))]
		attr := 0
		if inner == "" || vnd.Tier() == 1 {
			attr = vnd.Choose(len(attrs))
		}
		return "<" + nm + attrs[attr] + ">" + inner + "</" + nm + ">"
	}
	rest := "<message name='P'><part name='P' type='s:int'/></message><portType name='P'><operation name='P'><input message='w:P'/></operation></portType><binding name='P' type='w:P'/>" +
		"<service name='P'><port name='P' binding='w:P'/></service>"
	doc := "<definitions xmlns='" + wsdlNS + "' xmlns:w='w' xmlns:s='" + xs + "' targetNamespace='w'>"
	x := elem(elem(""))
	if vnd.Choose(2) == 0 {
		doc += x + rest
	} else {
		doc += rest + x
	}
	doc += "</definitions>"
	vnd.Observe("doc", doc)
	f, err := wconfig(1, 1).GenAST(vnd.File("service.wsdl", []byte(doc)))
	vnd.Assert((f == nil) == (err != nil), "an error or a result")
	if err == nil {
		vnd.Cover("accepted")
	} else {
		vnd.Cover("rejected")
	}
}
