package schema

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

// oddNames are names of elements of schemas, and others.
var oddNames = []string{"schema", "element", "attribute", "complexType", "simpleType", "group", "attributeGroup",
	"sequence", "choice", "all", "any", "anyAttribute", "simpleContent", "complexContent", "extension", "restriction",
	"list", "union", "annotation", "documentation", "import", "enumeration", "pattern", "maxInclusive", "length", "unique"}

var oddAttrs = []string{"", " name='N'", " name='N' type='t:N'", " ref='t:N'", " base='t:N' itemType='t:N' memberTypes='t:N s:int' value='('",
	" name='N' ref='t:N' maxOccurs='2'", " type='N'"}

// oddElem is an element with some of the names and attributes, around others.
func oddElem(name, attr int, inner string) string {
	return "<s:" + oddNames[name] + oddAttrs[attr] + ">" + inner + "</s:" + oddNames[name] + ">"
}

// survives calls every function that reads schemas; each has to return.
func survives(docs ...string) {
	var data [][]byte
	for _, d := range docs {
		vnd.Observe("doc", d)
		data = append(data, []byte(d))
	}
	_, nerr := xsd.Normalize(data...)
	schemas, err := xsd.Parse(data...)
	vnd.Assert(nerr == nil || err != nil, "what Normalize rejects, Parse rejects")
	for i, d := range docs {
		vnd.Assert(string(data[i]) == d, "the documents are not changed")
	}
	if err != nil {
		vnd.Assert(schemas == nil, "an error or a result")
		vnd.Cover("rejected")
		return
	}
	for i := range schemas {
		for name, t := range schemas[i].Types {
			schemas[i].FindType(name)
			n := 0
			for ; t != nil; t = xsd.Base(t) {
				n++
				vnd.Assert(n < 100, "bases end")
			}
		}
	}
	for _, d := range data {
		xsd.Imports(d)
	}
	vnd.Cover("accepted")
}

// H_odd_two: an element in an element of any name, in a schema.
func H_odd_two() {
	a, x := vnd.Choose(len(oddNames)), vnd.Choose(len(oddAttrs))
	b, y := vnd.Choose(len(oddNames)), vnd.Choose(len(oddAttrs))
	survives(open("u") + oddElem(a, x, oddElem(b, y, "")) + "</s:schema>")
}

// H_odd_three: three levels.
func H_odd_three() {
	a := vnd.Choose(len(oddNames))
	b := vnd.Choose(len(oddNames))
	c := vnd.Choose(len(oddNames))
	x, y, z := 1, 0, 2
	if vnd.Tier() == 1 {
		x = vnd.Choose(2)
		y = []int{0, 1, 4}[vnd.Choose(3)]
		z = vnd.Choose(5)
	} else {
		y, z = 4, 2
	}
	survives(open("u") + oddElem(a, x, oddElem(b, y, oddElem(c, z, ""))) + "</s:schema>")
}

// H_odd_beside: two declarations of the same name beside one another, and a
// use of it.
func H_odd_beside() {
	a, x := vnd.Choose(7), vnd.Choose(len(oddAttrs))
	b, y := vnd.Choose(7), vnd.Choose(len(oddAttrs))
	use := []string{
		"<s:complexType name='U'><s:sequence><s:group ref='t:N'/><s:element ref='t:N'/></s:sequence><s:attribute ref='t:N'/><s:attributeGroup ref='t:N'/></s:complexType>",
		"<s:complexType name='U'><s:complexContent><s:extension base='t:N'><s:group ref='t:N'/></s:extension></s:complexContent></s:complexType>",
		"<s:simpleType name='U'><s:list itemType='t:N'/></s:simpleType>",
		"<s:complexType name='N'><s:simpleContent><s:restriction base='t:N'/></s:simpleContent></s:complexType>",
	}[vnd.Choose(4)]
	survives(open("u") + oddElem(a, x, "") + oddElem(b, y, "") + use + "</s:schema>")
}

// H_odd_value: any value of an attribute.
func H_odd_value() {
	n := 2 + vnd.Tier()
	v := vnd.StringOf("t:N 1", n)
	survives([]string{
		open("u") + "<s:complexType name='" + v + "'><s:attribute name='a'><s:simpleType><s:list itemType='s:int'/></s:simpleType></s:attribute></s:complexType></s:schema>",
		open("u") + "<s:complexType name='N'><s:sequence><s:element name='a' type='" + v + "'/></s:sequence></s:complexType></s:schema>",
		open("u") + "<s:complexType name='N'><s:sequence><s:element ref='" + v + "'/></s:sequence></s:complexType><s:element name='N'/></s:schema>",
		open("u") + "<s:complexType name='N'><s:complexContent><s:extension base='" + v + "'/></s:complexContent></s:complexType></s:schema>",
		open("u") + "<s:simpleType name='N'><s:union memberTypes='" + v + "'/></s:simpleType></s:schema>",
		open("u") + "<s:simpleType name='N'><s:restriction base='s:int'><s:maxLength value='" + v + "'/><s:minInclusive value='" + v + "'/></s:restriction></s:simpleType></s:schema>",
		open("u") + "<s:complexType name='N' mixed='" + v + "'><s:sequence minOccurs='" + v + "'><s:element name='a' maxOccurs='" + v + "' nillable='" + v + "'/></s:sequence></s:complexType></s:schema>",
		open(v) + "<s:complexType name='N'><s:attribute name='a' type='t:S'/></s:complexType><s:simpleType name='S'/></s:schema>",
		open("u") + "<s:element name='" + v + "'><s:complexType><s:attribute name='" + v + "' type='t:N'/></s:complexType></s:element><s:simpleType name='N'><s:restriction base='s:int'/></s:simpleType></s:schema>",
		open("u") + "<s:group name='" + v + "'><s:sequence><s:group ref='" + v + "'/></s:sequence></s:group><s:complexType name='T'><s:group ref='t:" + v + "'/></s:complexType></s:schema>",
	}[vnd.Choose(10)])
}

// H_odd_root: documents that are no schemas, and schemas inside others.
func H_odd_root() {
	root := []string{"r", "s:element", "s:simpleType", "s:include"}[vnd.Choose(4)]
	inner := open("u") + "<s:complexType name='N'/>" + open("v") + "<s:complexType name='M'><s:attribute name='a' type='t:M'/></s:complexType></s:schema></s:schema>"
	docs := []string{"<" + root + " xmlns:s='" + xs + "'/>", "<" + root + " xmlns:s='" + xs + "' name='a' type='s:int'>" + inner + "</" + root + ">", inner, "", open("") + "</s:schema>", open("u") + "</s:schema>"}
	n := vnd.Choose(3)
	var all []string
	for i := 0; i <= n; i++ {
		all = append(all, docs[vnd.Choose(len(docs))])
	}
	survives(all...)
}
