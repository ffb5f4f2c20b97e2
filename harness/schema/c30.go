package schema

import (
	"encoding/xml"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

func isSchemaElem(el *xmltree.Element, local string) bool {
	return el.Name == xml.Name{Space: xs, Local: local}
}

func isTypeElem(el *xmltree.Element) bool {
	return isSchemaElem(el, "simpleType") || isSchemaElem(el, "complexType")
}

// normalForm asserts what the documentation of Normalize says about a tree.
func normalForm(root *xmltree.Element, names map[xml.Name]bool) {
	tns := root.Attr("", "targetNamespace")
	vnd.Assert(isSchemaElem(root, "schema"), "the trees are schemas")
	for i := range root.Children {
		t := &root.Children[i]
		if isTypeElem(t) {
			name := xml.Name{Space: tns, Local: t.Attr("", "name")}
			vnd.Assert(name.Local != "", "every type has a name")
			vnd.Assert(!names[name], "a name no other type has")
			names[name] = true
		}
	}
	var walk func(el *xmltree.Element, depth int)
	walk = func(el *xmltree.Element, depth int) {
		if el.Name.Space == xs {
			vnd.Assert(el.Attr("", "ref") == "", "no references are left")
			if isTypeElem(el) {
				vnd.Assert(depth == 1, "types are children of the schema")
			}
			if isSchemaElem(el, "complexType") {
				n := 0
				for i := range el.Children {
					c := &el.Children[i]
					if isSchemaElem(c, "simpleContent") || isSchemaElem(c, "complexContent") {
						n++
					} else {
						vnd.Assert(isSchemaElem(c, "annotation"), "complex types have nothing but their content")
					}
				}
				vnd.Assert(n == 1, "complex types are written out")
			}
			if isSchemaElem(el, "element") || isSchemaElem(el, "attribute") {
				t := el.Attr("", "type")
				vnd.Assert(t != "", "elements and attributes have a type")
				_, ok := el.ResolveNS(t)
				vnd.Assert(ok || t == el.Resolve(t).Local, "whose name resolves")
			}
			if depth > 1 {
				vnd.Assert(!isSchemaElem(el, "group") && !isSchemaElem(el, "attributeGroup"), "groups are merged")
			}
		}
		for i := range el.Children {
			walk(&el.Children[i], depth+1)
		}
	}
	walk(root, 0)
}

func checkNormalize(docs ...string) {
	var data [][]byte
	for _, d := range docs {
		vnd.Observe("doc", d)
		data = append(data, []byte(d))
	}
	before, err := xsd.Parse(data...)
	vnd.Assert(err == nil, "accepted by Parse")
	trees, err := xsd.Normalize(data...)
	vnd.Assert(err == nil, "accepted by Normalize")
	for i, d := range docs {
		vnd.Assert(string(data[i]) == d, "the documents are not changed")
	}
	names := make(map[xml.Name]bool)
	var again [][]byte
	for _, t := range trees {
		var b []byte
		if vnd.Choose(2) == 0 {
			b = xmltree.Marshal(t)
		} else {
			b = xmltree.MarshalIndent(t, "", "  ")
		}
		vnd.Observe("normal", string(b))
		normalForm(t, names)
		back, err := xmltree.Parse(b)
		vnd.Assert(err == nil, "the tree can be written")
		normalForm(back, make(map[xml.Name]bool))
		again = append(again, b)
	}
	after, err := xsd.Parse(again...)
	vnd.Assert(err == nil, "the normal form is accepted by Parse")
	sameSchemas(before, after)
	vnd.Cover("normalized")
}

// more pieces, that go with the ones of pieces.
var morePieces = []string{
	"<s:attributeGroup name='none'/><s:complexType name='N0'><s:complexContent><s:extension base='t:B'><s:attributeGroup ref='t:none'/></s:extension></s:complexContent></s:complexType>",
	"<s:complexType name='N1'><s:annotation><s:documentation>text</s:documentation></s:annotation><s:all><s:element name='a' minOccurs='0'/><s:element ref='t:f' maxOccurs='3'/></s:all><s:attribute name='q'/><s:attribute ref='t:at' use='required'/></s:complexType><s:attribute name='at' type='t:C'/>",
	"<s:complexType name='N2'><s:simpleContent><s:extension base='t:D'><s:attribute name='q' type='s:int' default='4'/><s:attributeGroup ref='t:g'/></s:extension></s:simpleContent></s:complexType>",
	"<s:complexType name='N3'/><s:element name='empty'><s:complexType/></s:element><s:element name='any'/>",
	"<s:complexType name='N4'><s:choice maxOccurs='2'><s:sequence><s:element name='l'><s:complexType mixed='1'><s:sequence><s:element name='l'><s:complexType><s:attribute name='l'><s:simpleType><s:list><s:simpleType><s:restriction base='s:int'/></s:simpleType></s:list></s:simpleType></s:attribute></s:complexType></s:element></s:sequence></s:complexType></s:element></s:sequence><s:choice><s:group ref='t:g2'/></s:choice></s:choice></s:complexType><s:group name='g2'><s:choice><s:group ref='t:g'/><s:element name='z' nillable='true'/></s:choice></s:group>",
	"<s:simpleType name='N5'><s:restriction><s:simpleType><s:union><s:simpleType><s:restriction base='s:string'><s:enumeration value='a'/><s:enumeration value='b'/></s:restriction></s:simpleType><s:simpleType><s:restriction base='t:D'/></s:simpleType></s:union></s:simpleType></s:restriction></s:simpleType>",
}

// H_normal_one: one schema of some of the pieces, beginning anywhere.
func H_normal_one() {
	k := vnd.Choose(len(pieces))
	doc := open("u")
	for i := range pieces {
		doc += pieces[(k+i)%len(pieces)]
		if i == 3 || vnd.Tier() == 1 && i == 6 {
			doc += morePieces[vnd.Choose(len(morePieces))]
		}
		if vnd.Tier() == 1 && i == 6 {
			break
		}
	}
	if vnd.Tier() == 1 {
		for i := 7; i < len(pieces); i++ {
			doc += pieces[(k+i)%len(pieces)]
		}
	}
	checkNormalize(doc + end)
}

// H_normal_docs: several namespaces, prefixes that mean different things in
// different places, and several schemas in a document.
func H_normal_docs() {
	opn := func(tns string) string {
		if vnd.Choose(2) == 1 {
			return "<schema xmlns='" + xs + "' xmlns:s='" + xs + "' xmlns:u='u' xmlns:v='v' targetNamespace='" + tns + "'>"
		}
		return "<s:schema xmlns:s='" + xs + "' xmlns='" + tns + "' xmlns:u='u' xmlns:v='v' targetNamespace='" + tns + "'>"
	}
	cls := func(o string) string {
		if o[1] == 's' && o[2] == 'c' {
			return "</schema>"
		}
		return end
	}
	a, b := opn("u"), opn("v")
	a += "<s:complexType name='T'><s:sequence><s:element ref='v:e' minOccurs='0'/><s:element xmlns:w='v' ref='w:f'/><s:group ref='v:g'/></s:sequence><s:attribute ref='v:a'/></s:complexType><s:element name='e' xmlns:v='u' type='v:T'/>" + cls(a)
	b += "<s:element name='e' type='u:T'/><s:element name='f'><s:complexType><s:sequence><s:element name='i' type='u:T'/><s:element ref='u:e'/></s:sequence></s:complexType></s:element><s:attribute name='a'><s:simpleType><s:list itemType='v:L'/></s:simpleType></s:attribute><s:simpleType name='L'><s:restriction base='s:int'><s:maxInclusive value='9'/></s:restriction></s:simpleType><s:group name='g'><s:choice><s:element name='k' xmlns:u='v' type='u:L'/><s:element ref='v:f' maxOccurs='unbounded'/></s:choice></s:group>" + cls(b)
	switch vnd.Choose(3) {
	case 0:
		checkNormalize(a, b)
	case 1:
		checkNormalize("<types>"+b+a+"</types>", open("w")+"<s:element name='e'/>"+end)
	case 2:
		checkNormalize(b, a)
	}
}

// H_normal_name: the names of an element, its attribute and a type are any
// of three, the same or different.
func H_normal_name() {
	p, q, r := vnd.StringOf("abc", 1), vnd.StringOf("abc", 1), vnd.StringOf("abc", 1)
	doc := open("u") + "<s:complexType name='" + p + "'><s:sequence><s:element name='" + q + "'><s:complexType><s:sequence><s:element name='" + r + "' minOccurs='" + vnd.StringOf("012", 1) + "'><s:simpleType><s:restriction base='s:int'/></s:simpleType></s:element></s:sequence><s:attribute name='" + q + "'><s:simpleType><s:restriction base='s:date'/></s:simpleType></s:attribute></s:complexType></s:element></s:sequence></s:complexType>"
	doc += "<s:element name='" + r + "'><s:simpleType><s:restriction base='s:token'/></s:simpleType></s:element><s:element name='root' type='t:" + p + "'/>"
	checkNormalize(doc + end)
}
