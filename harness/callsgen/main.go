// Command callsgen prints the client that the generator makes of a definition
// of two ports, using minihttp instead of net/http.
package main

import (
	"fmt"
	"os"
	"strings"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
)

var doc = `<definitions xmlns='http://schemas.xmlsoap.org/wsdl/' xmlns:soap='http://schemas.xmlsoap.org/wsdl/soap/' xmlns:http='http://schemas.xmlsoap.org/wsdl/http/' xmlns:s='http://www.w3.org/2001/XMLSchema' xmlns:t='t' xmlns:w='w' targetNamespace='w'>
<types><s:schema elementFormDefault='qualified' targetNamespace='t'>
 <s:complexType name='Rec'><s:sequence><s:element name='r' type='s:string'/><s:element name='n' type='s:int'/></s:sequence><s:attribute name='k' type='s:string'/></s:complexType>
 <s:simpleType name='Enum'><s:restriction base='s:string'><s:enumeration value='v'/></s:restriction></s:simpleType>
 <s:simpleType name='Ints'><s:list itemType='s:int'/></s:simpleType>
 <s:element name='rec' type='t:Rec'/>
</s:schema></types>
<message name='None'/>
<message name='OneIn'><part name='text' type='s:string'/></message>
<message name='OneOut'><part name='answer' type='s:string'/></message>
<message name='TwoIn'><part name='count' type='s:int'/><part name='rec' element='t:rec'/></message>
<message name='TwoOut'><part name='flag' type='s:boolean'/><part name='word' type='t:Enum'/></message>
<message name='ManyIn'><part name='a-b' type='s:string'/><part name='list' type='t:Ints'/><part name='type' type='t:Enum'/></message>
` + kindMessages() + `<portType name='PT'>
 <operation name='one'><input message='w:OneIn'/><output message='w:OneOut'/></operation>
 <operation name='two'><input message='w:TwoIn'/><output message='w:TwoOut'/></operation>
 <operation name='many'><input message='w:ManyIn'/><output message='w:None'/></operation>
 <operation name='send'><input message='w:OneIn'/></operation>
 <operation name='ping'><output message='w:OneOut'/></operation>
 <operation name='poke'/>
` + kindOps("<input message='w:In%s'/><output message='w:Out%s'/>") + `</portType>
<portType name='GT'>
 <operation name='get'><input message='w:OneIn'/><output message='w:OneOut'/></operation>
 <operation name='put'><input message='w:OneIn'/><output message='w:OneOut'/></operation>
</portType>
<binding name='PB' type='w:PT'>
 <operation name='one'><soap:operation soapAction='urn:one'/></operation>
 <operation name='two'><soap:operation soapAction='urn:two'/></operation>
 <operation name='many'><soap:operation soapAction='urn:many'/></operation>
 <operation name='send'/>
 <operation name='ping'><soap:operation soapAction='urn:ping'/></operation>
 <operation name='poke'><soap:operation soapAction='urn:poke'/></operation>
` + kindOps("") + `</binding>
<binding name='GB' type='w:GT'>
 <http:binding verb='GET'/>
 <operation name='get'><soap:operation soapAction='urn:get'/></operation>
 <operation name='put'/>
</binding>
<service name='S'>
 <port name='P' binding='w:PB'><soap:address location='http://post.example/p?x=1&amp;y=%20'/></port>
 <port name='G' binding='w:GB'><soap:address location='http://get.example/'/></port>
</service>
</definitions>`

// Operations that take a value of a built-in type and return one.
var builtins = []string{"date", "hexBinary", "base64Binary", "boolean", "int", "unsignedByte", "unsignedLong", "decimal", "anyURI", "NMTOKEN"}

func kindMessages() (s string) {
	for _, b := range builtins {
		s += "<message name='In" + b + "'><part name='p' type='s:" + b + "'/></message><message name='Out" + b + "'><part name='q' type='s:" + b + "'/></message>\n"
	}
	return s
}

func kindOps(content string) (s string) {
	for _, b := range builtins {
		s += " <operation name='echo" + b + "'>" + strings.ReplaceAll(content, "%s", b) + "</operation>\n"
	}
	return s
}

func main() {
	f, err := os.CreateTemp("", "callsgen")
	if err != nil {
		fail(err)
	}
	defer os.Remove(f.Name())
	f.WriteString(doc)
	f.Close()
	var cfg wsdlgen.Config
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.XSDOption(xsdgen.DefaultOptions...)
	cfg.Option(wsdlgen.InputThreshold(2), wsdlgen.OutputThreshold(1))
	file, err := cfg.GenAST(f.Name())
	if err != nil {
		fail(err)
	}
	src, err := gen.FormattedSource(file, "ws.go")
	if err != nil {
		fail(err)
	}
	fmt.Print(strings.Replace(string(src), `"net/http"`, `http "aqwari.net/xml/internal/zzverif/minihttp"`, 1))
}

func fail(err error) {
	fmt.Println(err)
	os.Exit(1)
}
