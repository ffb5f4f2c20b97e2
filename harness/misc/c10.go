package misc

import (
	"encoding/xml"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

const (
	xsdNS = "http://www.w3.org/2001/XMLSchema"
	xmlNS = "http://www.w3.org/2009/01/xml.xsd"
)

// builtinNames are the names the standard gives to the built-in types.
var builtinNames = []struct {
	b    xsd.Builtin
	name string
}{
	{xsd.AnyType, "anyType"}, {xsd.AnySimpleType, "anySimpleType"},
	{xsd.ENTITIES, "ENTITIES"}, {xsd.ENTITY, "ENTITY"}, {xsd.ID, "ID"},
	{xsd.IDREF, "IDREF"}, {xsd.IDREFS, "IDREFS"}, {xsd.NCName, "NCName"},
	{xsd.NMTOKEN, "NMTOKEN"}, {xsd.NMTOKENS, "NMTOKENS"},
	{xsd.NOTATION, "NOTATION"}, {xsd.Name, "Name"}, {xsd.QName, "QName"},
	{xsd.AnyURI, "anyURI"}, {xsd.Base64Binary, "base64Binary"},
	{xsd.Boolean, "boolean"}, {xsd.Byte, "byte"}, {xsd.Date, "date"},
	{xsd.DateTime, "dateTime"}, {xsd.Decimal, "decimal"},
	{xsd.Double, "double"}, {xsd.Duration, "duration"},
	{xsd.Float, "float"}, {xsd.GDay, "gDay"}, {xsd.GMonth, "gMonth"},
	{xsd.GMonthDay, "gMonthDay"}, {xsd.GYear, "gYear"},
	{xsd.GYearMonth, "gYearMonth"}, {xsd.HexBinary, "hexBinary"},
	{xsd.Int, "int"}, {xsd.Integer, "integer"}, {xsd.Language, "language"},
	{xsd.Long, "long"}, {xsd.NegativeInteger, "negativeInteger"},
	{xsd.NonNegativeInteger, "nonNegativeInteger"},
	{xsd.NonPositiveInteger, "nonPositiveInteger"},
	{xsd.NormalizedString, "normalizedString"},
	{xsd.PositiveInteger, "positiveInteger"}, {xsd.Short, "short"},
	{xsd.String, "string"}, {xsd.Time, "time"}, {xsd.Token, "token"},
	{xsd.UnsignedByte, "unsignedByte"}, {xsd.UnsignedInt, "unsignedInt"},
	{xsd.UnsignedLong, "unsignedLong"}, {xsd.UnsignedShort, "unsignedShort"},
}

// the types of the attributes of the xml namespace
var xmlNames = []struct {
	b    xsd.Builtin
	name string
}{
	{xsd.XMLLang, "xMLLang"}, {xsd.XMLSpace, "xMLSpace"},
	{xsd.XMLBase, "xMLBase"}, {xsd.XMLId, "xMLId"},
}

func wantBuiltin(name xml.Name) (xsd.Builtin, bool) {
	if name.Space == xsdNS {
		for _, b := range builtinNames {
			if b.name == name.Local {
				return b.b, true
			}
		}
	}
	for _, b := range xmlNames {
		if b.b.Name() == name {
			return b.b, true
		}
	}
	return 0, false
}

func checkBuiltin(name xml.Name) {
	want, ok := wantBuiltin(name)
	got, err := xsd.ParseBuiltin(name)
	vnd.Assert((err == nil) == ok, "found exactly when it is a built-in")
	if ok {
		vnd.Cover("found")
		vnd.Assert(got == want, "the built-in of that name")
		vnd.Assert(got.Name() == name, "whose name that is")
	}
}

// H_builtin_names: every built-in has the standard name, and no other has it.
func H_builtin_names() {
	i := vnd.Int(0, int(xsd.AnySimpleType))
	a := xsd.Builtin(i)
	name := a.Name()
	found := false
	for _, b := range builtinNames {
		if b.b == a {
			found = true
			vnd.Assert(name == xml.Name{Space: xsdNS, Local: b.name}, "standard name")
		}
	}
	for _, b := range xmlNames {
		if b.b == a {
			found = true
			vnd.Assert(name.Space != xsdNS, "not in the schema namespace")
		}
	}
	vnd.Assert(found, "listed")
	got, err := xsd.ParseBuiltin(name)
	vnd.Assert(err == nil && got == a, "found by its name")
	for j := 0; j <= int(xsd.AnySimpleType); j++ {
		if i != j {
			vnd.Assert(xsd.Builtin(j).Name() != name, "distinct names")
		}
	}
}

// H_builtin_local: any local name of letters.
func H_builtin_local() {
	checkBuiltin(xml.Name{Space: xsdNS, Local: vnd.String(vnd.Choose(20))})
}

// H_builtin_space: any short namespace, and variations of the right ones.
func H_builtin_space() {
	local := builtinNames[vnd.Choose(len(builtinNames))].name
	var space string
	switch vnd.Choose(4) {
	case 0:
		space = vnd.String(vnd.Choose(3))
	case 1:
		space = xsdNS[:len(xsdNS)-1] + vnd.String(vnd.Choose(3))
	case 2:
		space = xmlNS + vnd.String(vnd.Choose(2))
	case 3:
		space = vnd.String(1) + xsdNS[1:]
	}
	checkBuiltin(xml.Name{Space: space, Local: local})
}

// H_builtin_near: a built-in name with one character changed, added or
// removed.
func H_builtin_near() {
	n := builtinNames[vnd.Choose(len(builtinNames))].name
	switch vnd.Choose(4) {
	case 0:
		n = vnd.String(1) + n[1:]
	case 1:
		n = n[:len(n)-1] + vnd.String(vnd.Choose(3))
	case 2:
		n = vnd.String(1) + n
	case 3:
		k := len(n) / 2
		n = n[:k] + vnd.String(1) + n[k+1:]
	}
	vnd.Observe("name", n)
	checkBuiltin(xml.Name{Space: xsdNS, Local: n})
}

// H_builtin_xml: the names of the xml namespace are not lost.
func H_builtin_xml() {
	b := xmlNames[vnd.Choose(len(xmlNames))]
	n := b.b.Name()
	if vnd.Bool() {
		n.Local = vnd.String(1) + n.Local[1:]
	}
	if vnd.Bool() {
		n.Space = n.Space[:len(n.Space)-1] + vnd.String(1)
	}
	checkBuiltin(n)
}
