// Command docsgen prints what the generator makes of a schema of two
// namespaces.
package main

import (
	"fmt"
	"os"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/xsdgen"
)

const head = "<s:schema xmlns:s='http://www.w3.org/2001/XMLSchema' xmlns:t='u' xmlns:v='v' xmlns:e='http://schemas.xmlsoap.org/soap/encoding/' xmlns:w='http://schemas.xmlsoap.org/wsdl/' elementFormDefault='qualified' targetNamespace='"

const orders = `
<s:complexType name='Order'>
 <s:sequence>
  <s:element name='id' type='s:int'/>
  <s:element name='note' type='s:string' minOccurs='0'/>
  <s:element name='line' type='t:Line' minOccurs='0' maxOccurs='unbounded'/>
  <s:element name='customer'>
   <s:complexType>
    <s:sequence>
     <s:element name='name' type='s:string'/>
     <s:element name='phone' maxOccurs='3'><s:complexType><s:simpleContent><s:extension base='s:string'><s:attribute name='kind'><s:simpleType><s:restriction base='s:string'><s:enumeration value='home'/><s:enumeration value='work'/></s:restriction></s:simpleType></s:attribute></s:extension></s:simpleContent></s:complexType></s:element>
    </s:sequence>
    <s:attribute name='vip' type='s:boolean'/>
   </s:complexType>
  </s:element>
  <s:element name='tag' type='s:string' minOccurs='0' maxOccurs='unbounded'/>
 </s:sequence>
 <s:attribute name='cur' type='s:string'/>
 <s:attribute name='n' type='s:int' use='required'/>
</s:complexType>
<s:complexType name='Item'>
 <s:sequence><s:element name='sku' type='t:Sku'/></s:sequence>
 <s:attribute name='pos' type='s:int'/>
</s:complexType>
<s:simpleType name='Sku'><s:restriction base='s:string'><s:pattern value='[A-Z]+'/></s:restriction></s:simpleType>
<s:complexType name='Line'>
 <s:complexContent><s:extension base='t:Item'>
  <s:sequence><s:element name='qty' type='s:short'/><s:element name='opt' type='s:int' minOccurs='0' maxOccurs='unbounded'/></s:sequence>
  <s:attribute name='gift' type='s:boolean'/>
 </s:extension></s:complexContent>
</s:complexType>
<s:complexType name='Special'>
 <s:complexContent><s:extension base='t:Line'>
  <s:choice><s:element name='left' type='t:Item'/><s:element name='right' type='t:Line'/></s:choice>
  <s:attribute name='why' type='s:string'/>
 </s:extension></s:complexContent>
</s:complexType>
<s:complexType name='Tree'>
 <s:sequence><s:element name='label' type='s:string'/><s:element name='kid' type='t:Tree' minOccurs='0' maxOccurs='unbounded'/></s:sequence>
 <s:attribute name='w' type='s:int'/>
</s:complexType>
<s:complexType name='Link'>
 <s:sequence><s:element name='v' type='s:int'/><s:element name='next' type='t:Link' minOccurs='0'/></s:sequence>
 <s:attribute name='at' type='s:date'/>
</s:complexType>
<s:complexType name='Branch'>
 <s:choice><s:element name='leaf' type='s:string'/><s:element name='fork' type='t:Fork'/></s:choice>
</s:complexType>
<s:complexType name='Fork'>
 <s:sequence><s:element name='left' type='t:Branch'/><s:element name='when' type='s:time'/><s:element name='right' type='t:Tall' minOccurs='0'/></s:sequence>
</s:complexType>
<s:complexType name='Tall'>
 <s:complexContent><s:extension base='t:Branch'><s:sequence><s:element name='over' type='t:Tall' minOccurs='0'/></s:sequence><s:attribute name='height' type='s:int'/></s:extension></s:complexContent>
</s:complexType>
<s:complexType name='Qualified'>
 <s:sequence><s:element name='q' type='s:QName'/></s:sequence>
</s:complexType>
<s:complexType name='Names'>
 <s:sequence>
  <s:element name='a-b' type='s:string'/>
  <s:element name='aB' type='s:string'/>
  <s:element name='a.b' type='s:string' maxOccurs='2'/>
  <s:element name='A-b' type='s:string'/>
  <s:element name='type' type='s:string'/>
  <s:element name='chardata' type='s:string'/>
  <s:element name='XMLName' type='s:string'/>
  <s:element name='_1' type='s:string'/>
 </s:sequence>
 <s:attribute name='a-b' type='s:string'/>
 <s:attribute name='a_b' type='s:string'/>
 <s:attribute name='Type' type='s:string'/>
</s:complexType>
<s:complexType name='Mix'>
 <s:sequence>
  <s:element ref='v:thing' maxOccurs='unbounded'/>
  <s:element name='thing' type='s:string'/>
  <s:element ref='v:count' minOccurs='0'/>
 </s:sequence>
</s:complexType>
<s:complexType name='Models'>
 <s:sequence>
  <s:choice maxOccurs='unbounded'><s:element name='red' type='s:string'/><s:element name='green' type='s:int'/></s:choice>
  <s:sequence minOccurs='0'><s:element name='part' type='s:string'/></s:sequence>
  <s:group ref='t:Pair' minOccurs='0' maxOccurs='2'/>
  <s:sequence><s:element name='end' type='s:int'/><s:element name='mid' type='s:string'/><s:element name='end' type='s:int'/></s:sequence>
 </s:sequence>
 <s:attribute ref='v:mark'/>
 <s:attribute ref='xml:lang'/>
 <s:attribute name='num' type='s:int'/>
</s:complexType>
<s:group name='Pair'><s:sequence><s:element name='key' type='s:string'/><s:element name='val' type='s:int'/></s:sequence></s:group>
<s:complexType name='Foreign'>
 <s:sequence><s:element name='thing' type='v:Thing' minOccurs='0'/><s:element name='size' type='v:Size' minOccurs='0'/></s:sequence>
 <s:attribute ref='t:own'/>
</s:complexType>
<s:attribute name='own' type='s:string'/>
<s:complexType name='Price'>
 <s:simpleContent><s:extension base='t:Amount'><s:attribute name='cur' type='s:string'/><s:attribute name='per' type='s:int'/></s:extension></s:simpleContent>
</s:complexType>
<s:simpleType name='Amount'><s:restriction base='s:long'/></s:simpleType>
<s:complexType name='Prices'><s:sequence><s:element name='p' type='t:Price' minOccurs='0' maxOccurs='unbounded'/><s:element name='best' type='t:Dear'/></s:sequence></s:complexType>
<s:complexType name='Dear'><s:simpleContent><s:extension base='t:Price'><s:attribute name='until' type='s:date'/></s:extension></s:simpleContent></s:complexType>
`

// A schema without a target namespace.
const plain = `<s:schema xmlns:s='http://www.w3.org/2001/XMLSchema'>
<s:element name='memo'><s:complexType>
 <s:sequence><s:element name='to' type='s:string' maxOccurs='2'/><s:element ref='entry' minOccurs='0' maxOccurs='unbounded'/><s:element name='due' type='s:date' minOccurs='0'/></s:sequence>
 <s:attribute ref='at'/>
</s:complexType></s:element>
<s:element name='entry' type='Entry'/>
<s:attribute name='at' type='s:dateTime'/>
<s:complexType name='Entry'><s:simpleContent><s:extension base='s:int'><s:attribute name='unit' type='Unit'/></s:extension></s:simpleContent></s:complexType>
<s:simpleType name='Unit'><s:restriction base='s:string'><s:enumeration value='kg'/><s:enumeration value='lb'/></s:restriction></s:simpleType>
</s:schema>`

func main() {
	doc := head + "u'>" + orders
	for _, b := range []string{"string", "anyURI", "language", "token", "normalizedString", "NCName", "NMTOKEN", "Name", "ID", "IDREF", "duration",
		"boolean", "byte", "short", "int", "long", "integer", "negativeInteger", "nonNegativeInteger", "nonPositiveInteger", "positiveInteger",
		"unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong", "decimal", "float", "double",
		"date", "dateTime", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth", "time", "hexBinary", "base64Binary"} {
		doc += "<s:simpleType name='N" + b + "'><s:restriction base='s:" + b + "'/></s:simpleType>"
		doc += "<s:complexType name='All" + b + "'><s:sequence><s:element name='one' type='s:" + b + "'/><s:element name='maybe' type='s:" + b + "' minOccurs='0'/><s:element name='many' type='s:" + b + "' minOccurs='0' maxOccurs='unbounded'/>" +
			"<s:element name='own' type='t:N" + b + "'/><s:element name='owns' type='t:N" + b + "' minOccurs='0' maxOccurs='unbounded'/>" +
			"<s:element name='content' type='t:Content" + b + "' minOccurs='0' maxOccurs='unbounded'/></s:sequence>" +
			"<s:attribute name='att' type='s:" + b + "'/><s:attribute name='attown' type='t:N" + b + "'/></s:complexType>" +
			"<s:complexType name='Content" + b + "'><s:simpleContent><s:extension base='s:" + b + "'><s:attribute name='x' type='s:int'/></s:extension></s:simpleContent></s:complexType>"
	}
	members := ""
	for _, b := range []string{"s:int", "s:string", "s:boolean", "s:date", "s:hexBinary", "s:base64Binary", "s:unsignedByte", "t:Item", "t:Colour", "t:Ints", "t:Ndate", "t:Arrint", "s:anyURI", "s:time"} {
		name := b[2:]
		doc += "<s:complexType name='Arr" + name + "'><s:complexContent><s:restriction base='e:Array'><s:attribute ref='e:arrayType' w:arrayType='" + b + "[]'/></s:restriction></s:complexContent></s:complexType>"
		members += "<s:element name='" + name + "' type='t:Arr" + name + "' minOccurs='0'/>"
	}
	doc += "<s:complexType name='Arrays'><s:sequence>" + members + "</s:sequence></s:complexType>"
	doc += "<s:complexType name='Labelled'><s:complexContent><s:restriction base='e:Array'><s:attribute name='before' type='s:string'/><s:attribute ref='e:arrayType' w:arrayType='s:int[]'/><s:attribute name='after' type='s:date'/></s:restriction></s:complexContent></s:complexType>"
	doc += "<s:simpleType name='Colour'><s:restriction base='s:string'><s:enumeration value='red'/><s:enumeration value='green'/></s:restriction></s:simpleType><s:simpleType name='Ints'><s:list itemType='s:int'/></s:simpleType>"
	doc += "</s:schema>"
	enc := head + "http://schemas.xmlsoap.org/soap/encoding/'><s:complexType name='Array'><s:sequence><s:any maxOccurs='unbounded'/></s:sequence><s:attribute name='arrayType' type='s:string'/></s:complexType></s:schema>"
	other := head + "v'><s:attribute name='mark' type='s:string'/><s:element name='thing' type='v:Thing'/><s:element name='count' type='s:int'/><s:simpleType name='Size'><s:restriction base='s:int'/></s:simpleType><s:complexType name='Thing'><s:sequence><s:element name='in' type='s:string'/></s:sequence><s:attribute name='k' type='s:string'/></s:complexType></s:schema>"
	var cfg xsdgen.Config
	cfg.Option(xsdgen.DefaultOptions...)
	lang := head + "http://www.w3.org/XML/1998/namespace'><s:attribute name='lang' type='s:language'/></s:schema>"
	code, err := cfg.GenCode([]byte(doc), []byte(other), []byte(enc), []byte(lang), []byte(plain))
	if err != nil {
		fail(err)
	}
	file, err := code.GenAST()
	if err != nil {
		fail(err)
	}
	src, err := gen.FormattedSource(file, "ws.go")
	if err != nil {
		fail(err)
	}
	os.Stdout.Write(src)
}

func fail(err error) {
	fmt.Println(err)
	os.Exit(1)
}
