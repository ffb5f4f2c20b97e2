// Command codecgen prints what the generator makes of one schema.
package main

import (
	"fmt"
	"os"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/xsdgen"
)

const head = "<s:schema xmlns:s='http://www.w3.org/2001/XMLSchema' xmlns:t='u' targetNamespace='u'>"

func main() {
	doc := head
	list := func(name, item string) {
		doc += "<s:simpleType name='" + name + "'><s:list itemType='" + item + "'/></s:simpleType>"
	}
	restrict := func(name, base string) {
		doc += "<s:simpleType name='" + name + "'><s:restriction base='" + base + "'/></s:simpleType>"
	}
	// lists of every built-in that can be a list item
	for _, b := range []string{"ID", "NCName", "NMTOKEN", "Name", "ENTITY", "anyURI", "language", "string", "token", "duration", "normalizedString", "anySimpleType",
		"long", "decimal", "double", "int", "integer", "negativeInteger", "nonNegativeInteger", "nonPositiveInteger", "short",
		"unsignedInt", "unsignedShort", "unsignedLong", "byte", "unsignedByte", "boolean",
		"date", "dateTime", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth", "time"} {
		list("L"+b, "s:"+b)
	}
	// lists of derived types, and types derived from lists
	restrict("derivedInt", "s:int")
	list("LderivedInt", "t:derivedInt")
	restrict("again", "t:Lint")
	doc += "<s:simpleType name='fewer'><s:restriction base='t:Lboolean'><s:maxLength value='3'/></s:restriction></s:simpleType>"
	// types with helpers
	for _, b := range []string{"date", "dateTime", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth", "time", "hexBinary", "base64Binary"} {
		restrict("S"+b, "s:"+b)
		doc += "<s:complexType name='E" + b + "'><s:sequence><s:element name='one' type='s:" + b + "'/><s:element name='many' type='s:" + b + "' minOccurs='0' maxOccurs='unbounded'/><s:element name='named' type='t:S" + b + "' minOccurs='0'/></s:sequence>"
		doc += "<s:attribute name='att' type='s:" + b + "'/></s:complexType>"
		doc += "<s:complexType name='C" + b + "'><s:simpleContent><s:extension base='s:" + b + "'><s:attribute name='n' type='s:int'/></s:extension></s:simpleContent></s:complexType>"
	}
	// lists in elements and attributes
	doc += "<s:complexType name='H'><s:sequence><s:element name='ints' type='t:Lint'/><s:element name='strs' type='t:Lstring'/><s:element name='flags' type='t:Lboolean'/></s:sequence><s:attribute name='days' type='t:Ldate'/></s:complexType>"
	doc += "</s:schema>"
	var cfg xsdgen.Config
	cfg.Option(xsdgen.DefaultOptions...)
	code, err := cfg.GenCode([]byte(doc))
	if err != nil {
		fail(err)
	}
	file, err := code.GenAST()
	if err != nil {
		fail(err)
	}
	src, err := gen.FormattedSource(file, "ws.go")
	if err != nil {
		fail(err)
	}
	os.Stdout.Write(src)
}

func fail(err error) {
	fmt.Println(err)
	os.Exit(3)
}
