package gen

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsdgen"
)

// text is what is generated from documents under a configuration.
func text(cfg *xsdgen.Config, docs ...string) (string, bool) {
	_, f, err := generate(cfg, docs...)
	if err != nil {
		return "", false
	}
	src, _ := source(f)
	return src, true
}

// twice generates code in order of insertion, then in other orders.
func twice(make func() *xsdgen.Config, docs ...string) {
	a, ok := text(make(), docs...)
	vnd.Assert(ok, "code is generated")
	if vnd.Tier() > 0 && flip() {
		vnd.MapOrderOne()
	} else {
		vnd.MapOrderFew()
	}
	_, f, err := generate(make(), docs...)
	vnd.MapOrder(false)
	if err != nil {
		vnd.Observe("error", err.Error())
	}
	vnd.Assert(err == nil, "code is generated in any order")
	b, _ := source(f)
	vnd.Observe("one", a)
	vnd.Observe("other", b)
	vnd.Assert(a == b, "the same code in any order")
}

// H_order_types: types that use one another and share names, helpers and
// methods.
func H_order_types() {
	pieces := []string{
		"<s:complexType name='B'><s:complexContent><s:extension base='t:A'><s:sequence><s:element name='d' type='s:date'/></s:sequence><s:attribute name='w' type='t:Day'/></s:extension></s:complexContent></s:complexType>",
		"<s:simpleType name='Day'><s:restriction base='s:date'/></s:simpleType><s:complexType name='A'><s:sequence><s:element name='e'><s:simpleType><s:restriction base='s:string'><s:enumeration value='1'/></s:restriction></s:simpleType></s:element></s:sequence><s:attribute name='a'><s:simpleType><s:list itemType='s:date'/></s:simpleType></s:attribute></s:complexType>",
		"<s:complexType name='C'><s:complexContent><s:extension base='t:B'><s:sequence><s:element name='e'><s:complexType><s:attribute name='e' type='s:time'/></s:complexType></s:element></s:sequence></s:extension></s:complexContent></s:complexType>",
		"<s:complexType name='c'><s:sequence><s:element name='b' type='s:hexBinary'/></s:sequence></s:complexType><s:element name='e' type='t:A'/><s:element name='f'><s:complexType><s:sequence><s:element name='e'><s:simpleType><s:list itemType='t:Day'/></s:simpleType></s:element></s:sequence></s:complexType></s:element>",
	}
	k := vnd.Choose(len(pieces))
	body := ""
	for i := range pieces {
		body += pieces[(i+k)%len(pieces)]
	}
	twice(config(), schema("u", body))
}

// H_order_chains: chains of types that stand for one another, and types of two
// namespaces with the same names.
func H_order_chains() {
	base := choose("s:int", "t:E", "t:L", "t:D", "t:W")
	link := func(name, base string) string {
		if flip() {
			return "<s:complexType name='" + name + "'><s:simpleContent><s:extension base='" + base + "'/></s:simpleContent></s:complexType>"
		}
		return "<s:complexType name='" + name + "'><s:simpleContent><s:extension base='" + base + "'><s:attribute name='at" + name + "' type='s:date'/></s:extension></s:simpleContent></s:complexType>"
	}
	decl := "<s:simpleType name='E'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType><s:simpleType name='L'><s:list itemType='s:int'/></s:simpleType>" +
		"<s:simpleType name='D'><s:restriction base='s:date'/></s:simpleType><s:simpleType name='W'><s:restriction base='t:V'/></s:simpleType><s:simpleType name='V'><s:restriction base='t:L'/></s:simpleType>"
	u := schema("u", decl, link("p", base), link("o", "t:p"), link("q", "t:o"),
		"<s:element name='top'><s:complexType><s:sequence><s:element name='f' type='t:q'/><s:element name='g' type='t:o' maxOccurs='2'/></s:sequence><s:attribute name='h' type='t:W'/></s:complexType></s:element>")
	v := schema("v", "<s:complexType name='o'><s:sequence><s:element name='p' type='s:int'/></s:sequence></s:complexType><s:simpleType name='E'><s:restriction base='s:string'><s:enumeration value='w'/></s:restriction></s:simpleType><s:complexType name='p'><s:attribute name='e' type='t:E'/></s:complexType>")
	vnd.Observe("u", u)
	twice(defaults, u, v)
}

// config is a choice of configurations.
func config() func() *xsdgen.Config {
	k := vnd.Choose(3)
	return func() *xsdgen.Config {
		switch k {
		case 0:
			return new(xsdgen.Config)
		case 1:
			cfg := defaults()
			cfg.Option(xsdgen.OnlyTypes("^[BC]$"))
			return cfg
		}
		return defaults()
	}
}
