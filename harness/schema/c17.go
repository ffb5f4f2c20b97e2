package schema

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

func sameRef(a, b xsd.Type, what string) {
	vnd.Assert(a != nil && b != nil, what+" is there")
	vnd.Assert(xsd.XMLName(a) == xsd.XMLName(b), what+" has the same name")
	ab, aok := a.(xsd.Builtin)
	bb, bok := b.(xsd.Builtin)
	vnd.Assert(aok == bok && ab == bb, what+" is the same built-in")
	_, ac := a.(*xsd.ComplexType)
	_, bc := b.(*xsd.ComplexType)
	vnd.Assert(ac == bc, what+" is of the same kind")
}

// sameSchemas asserts that two results of Parse are equal in every respect.
func sameSchemas(a, b []xsd.Schema) {
	vnd.Assert(len(a) == len(b), "as many schemas")
	for i := range a {
		vnd.Assert(a[i].TargetNS == b[i].TargetNS && a[i].Doc == b[i].Doc, "schemas in the same order")
		vnd.Assert(len(a[i].Types) == len(b[i].Types), "as many types")
		if a[i].TargetNS == xs {
			continue
		}
		for name, t := range a[i].Types {
			u := b[i].Types[name]
			sameRef(t, u, "the type")
			switch t := t.(type) {
			case *xsd.ComplexType:
				u := u.(*xsd.ComplexType)
				vnd.Assert(t.Name == u.Name && t.Doc == u.Doc && t.Anonymous == u.Anonymous, "the same type")
				vnd.Assert(t.Abstract == u.Abstract && t.Extends == u.Extends && t.Mixed == u.Mixed, "the same flags")
				sameRef(t.Base, u.Base, "the base")
				vnd.Assert(len(t.Elements) == len(u.Elements) && len(t.Attributes) == len(u.Attributes), "as many members")
				for j, x := range t.Elements {
					y := u.Elements[j]
					vnd.Assert(x.Name == y.Name && x.Doc == y.Doc && x.Default == y.Default, "the same element")
					vnd.Assert(x.Plural == y.Plural && x.Optional == y.Optional && x.Nillable == y.Nillable && x.Abstract == y.Abstract && x.Wildcard == y.Wildcard, "the same element flags")
					sameRef(x.Type, y.Type, "the element's type")
				}
				for j, x := range t.Attributes {
					y := u.Attributes[j]
					vnd.Assert(x.Name == y.Name && x.Doc == y.Doc && x.Default == y.Default && x.Optional == y.Optional, "the same attribute")
					sameRef(x.Type, y.Type, "the attribute's type")
				}
			case *xsd.SimpleType:
				u := u.(*xsd.SimpleType)
				vnd.Assert(t.Name == u.Name && t.Doc == u.Doc && t.Anonymous == u.Anonymous && t.List == u.List, "the same type")
				sameRef(t.Base, u.Base, "the base")
				vnd.Assert(len(t.Union) == len(u.Union), "as many members")
				for j := range t.Union {
					sameRef(t.Union[j], u.Union[j], "the member")
				}
				r, q := t.Restriction, u.Restriction
				vnd.Assert(len(r.Enum) == len(q.Enum), "as many values")
				for j := range r.Enum {
					vnd.Assert(r.Enum[j] == q.Enum[j], "the same values")
				}
				vnd.Assert(r.Min == q.Min && r.Max == q.Max && r.Length == q.Length && r.Doc == q.Doc, "the same facets")
			}
		}
	}
}

// pieces of schemas that use one another.
var pieces = []string{
	"<s:complexType name='A'><s:complexContent><s:extension base='t:B'><s:sequence><s:element name='a' type='t:C'/></s:sequence></s:extension></s:complexContent></s:complexType>",
	"<s:complexType name='B' mixed='true'><s:choice><s:element ref='t:e'/><s:group ref='t:g'/></s:choice><s:attributeGroup ref='t:g'/></s:complexType>",
	"<s:simpleType name='C'><s:union memberTypes='t:D s:int'><s:simpleType><s:list itemType='t:D'/></s:simpleType></s:union></s:simpleType>",
	"<s:simpleType name='D'><s:restriction base='s:int'><s:minInclusive value='3'/></s:restriction></s:simpleType>",
	"<s:element name='e'><s:complexType><s:sequence><s:element name='e'><s:simpleType><s:restriction base='s:token'/></s:simpleType></s:element></s:sequence></s:complexType></s:element>",
	"<s:element name='f' type='t:D'/>",
	"<s:group name='g'><s:sequence><s:element ref='t:f'/></s:sequence></s:group>",
	"<s:attributeGroup name='g'><s:attribute name='x' type='t:D'/><s:attribute name='y'><s:simpleType><s:restriction base='t:D'/></s:simpleType></s:attribute></s:attributeGroup>",
	"<s:element name='h'><s:simpleType><s:list itemType='t:D'/></s:simpleType></s:element>",
}

// H_order_one: one schema, any loop over a map in any order.
func H_order_one() {
	doc := open("u")
	k, step := vnd.Choose(len(pieces)), []int{1, 2, 4, 5}[vnd.Choose(2+2*vnd.Tier())]
	for i := range pieces {
		doc += pieces[(k+i*step)%len(pieces)]
	}
	doc += end
	twice(doc)
}

func twice(docs ...string) {
	var data [][]byte
	for _, d := range docs {
		vnd.Observe("doc", d)
		data = append(data, []byte(d))
	}
	a, err := xsd.Parse(data...)
	vnd.Assert(err == nil, "accepted")
	if vnd.Choose(2) == 0 {
		vnd.MapOrderOne()
	} else {
		vnd.MapOrderFew()
	}
	b, err := xsd.Parse(data...)
	vnd.Assert(err == nil, "accepted in any order")
	vnd.MapOrder(false)
	sameSchemas(a, b)
}

// H_order_docs: schemas of several namespaces that refer to one another.
func H_order_docs() {
	opn := func(tns string) string {
		return "<s:schema xmlns:s='" + xs + "' xmlns:u='u' xmlns:v='v' xmlns:w='w' targetNamespace='" + tns + "'>"
	}
	a := opn("u") + "<s:complexType name='T'><s:complexContent><s:extension base='v:T'><s:sequence><s:element name='l'><s:simpleType><s:list itemType='w:S'/></s:simpleType></s:element></s:sequence></s:extension></s:complexContent></s:complexType><s:element name='e' type='v:T'/>" + end
	b := opn("v") + "<s:complexType name='T'><s:complexContent><s:extension base='w:T'><s:sequence><s:element ref='u:e'/></s:sequence></s:extension></s:complexContent></s:complexType><s:element name='e' type='w:S'/>" + end
	c := opn("w") + "<s:complexType name='T' mixed='1'><s:attribute name='k'><s:simpleType><s:restriction base='w:S'/></s:simpleType></s:attribute></s:complexType><s:simpleType name='S'><s:restriction base='s:int'/></s:simpleType>" + end
	d := opn("u") + "<s:complexType name='V'><s:complexContent><s:extension base='u:T'><s:attribute name='k'><s:simpleType><s:restriction base='w:S'/></s:simpleType></s:attribute></s:extension></s:complexContent></s:complexType><s:element name='d' type='u:V'/>" + end
	all := [][]string{{a, b, c}, {c, d, a, b}, {b, c, "<x>" + a + d + "</x>"}, {a, b, c, d}}
	twice(all[vnd.Choose(len(all))]...)
}

// H_order_error: whether a schema is an error does not depend on the order
// either.
func H_order_error() {
	bad := []string{"<s:complexType name='X'><s:sequence><s:element name='e' type='t:Z'/></s:sequence></s:complexType>",
		"<s:simpleType name='X'><s:restriction base='t:X'/></s:simpleType>",
		"<s:simpleType name='X'><s:restriction base='t:Y'/></s:simpleType><s:simpleType name='Y'><s:restriction base='t:X'/></s:simpleType>",
		"<s:element name='X' type='t:Z'/>",
		"<s:simpleType name='X'><s:union memberTypes='t:D t:Z'/></s:simpleType>",
		"<s:complexType name='X'><s:attribute name='a' type='t:Z'/></s:complexType>"}[vnd.Choose(6)]
	at := vnd.Choose(3)
	doc := open("u")
	for i, p := range pieces {
		if i == at*4 {
			doc += bad
		}
		doc += p
	}
	if vnd.Choose(2) == 0 {
		vnd.MapOrderOne()
	} else {
		vnd.MapOrderFew()
	}
	vnd.Observe("doc", doc)
	_, err := xsd.Parse([]byte(doc + end))
	vnd.Assert(err != nil, "an error in any order")
}
