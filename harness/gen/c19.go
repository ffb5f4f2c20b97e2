package gen

import (
	"go/types"

	"aqwari.net/xml/internal/zzverif/vnd"
)

// codec asserts that the type has methods to marshal and unmarshal text.
func codec(pkg *types.Package, name string) {
	t := decl(pkg, name)
	set := types.NewMethodSet(types.NewPointer(t))
	m, u := set.Lookup(nil, "MarshalText"), set.Lookup(nil, "UnmarshalText")
	vnd.Assert(m != nil && u != nil, "the type can be marshalled and unmarshalled")
	sig := func(s *types.Selection) string { return types.TypeString(s.Type(), nil) }
	vnd.Assert(sig(m) == "func() ([]byte, error)", "as encoding.TextMarshaler")
	vnd.Assert(sig(u) == "func(text []byte) error", "as encoding.TextUnmarshaler")
}

var goItems = map[string]string{"ENTITY": "string", "ID": "string", "NCName": "string", "NMTOKEN": "string", "Name": "string", "anySimpleType": "string", "anyURI": "string",
	"boolean": "bool", "byte": "int8", "date": "time.Time", "dateTime": "time.Time", "decimal": "float64", "double": "float64", "duration": "string", "gDay": "time.Time",
	"gMonth": "time.Time", "gMonthDay": "time.Time", "gYear": "time.Time", "gYearMonth": "time.Time", "int": "int", "integer": "int", "language": "string", "long": "int64",
	"negativeInteger": "int", "nonNegativeInteger": "int", "nonPositiveInteger": "int", "normalizedString": "string", "short": "int", "string": "string", "time": "time.Time",
	"token": "string", "unsignedByte": "byte", "unsignedInt": "uint", "unsignedLong": "uint64", "unsignedShort": "uint"}

// H_list_types: a list of every built-in type, in several ways.
func H_list_types() {
	b := builtins[vnd.Choose(len(builtins))][0]
	how := vnd.Choose(7)
	item := "s:" + b
	extra := ""
	list := func(item string) string {
		return "<s:simpleType name='L'><s:list itemType='" + item + "'/></s:simpleType>"
	}
	doc := ""
	switch how {
	case 0:
		doc = list(item)
	case 1: // of a derived type
		doc = list("t:D") + "<s:simpleType name='D'><s:restriction base='" + item + "'/></s:simpleType>"
	case 2: // of a type with a name of its own
		doc = list("t:D") + "<s:simpleType name='D'><s:restriction base='" + item + "'><s:enumeration value='1'/></s:restriction></s:simpleType>"
	case 3: // of an anonymous type
		doc = "<s:simpleType name='L'><s:list><s:simpleType><s:restriction base='" + item + "'><s:maxLength value='3'/></s:restriction></s:simpleType></s:list></s:simpleType>"
	case 4: // derived from a list
		doc = "<s:simpleType name='L'><s:restriction base='t:M'><s:minLength value='3'/></s:restriction></s:simpleType><s:simpleType name='M'><s:list itemType='" + item + "'/></s:simpleType>"
	case 5: // two of them
		doc = list(item) + "<s:simpleType name='L2'><s:list itemType='" + item + "'/></s:simpleType>"
	case 6: // in an element and an attribute
		doc = list(item)
		extra = "<s:complexType name='A'><s:sequence><s:element name='e' type='t:L'/><s:element name='many' type='t:L' maxOccurs='2'/></s:sequence><s:attribute name='x' type='t:L'/></s:complexType>"
	}
	src := schema("u", doc, extra)
	code, f, err := generate(defaults(), src)
	_ = code
	if err != nil {
		vnd.Observe("error", err.Error())
		vnd.Assert(goItems[b] == "", "lists of this type are supported")
		return
	}
	pkg := load(f)
	codec(pkg, "L")
	if goItems[b] != "" {
		s, ok := decl(pkg, "L").Underlying().(*types.Slice)
		vnd.Assert(ok && typeString(pkg, s.Elem()) == goItems[b], "a list is a slice of the Go type of its items")
	}
	switch how {
	case 4:
		codec(pkg, "M")
	case 5:
		codec(pkg, "L2")
	case 6:
		fs := fields(pkg, "A")
		vnd.Assert(carrier(fs, "e", false).typ == "L" && carrier(fs, "many", false).typ == "[]L" && carrier(fs, "x", true).typ == "L", "fields of the list type")
	}
}

// H_helper_types: types derived from those with helpers, in several ways.
func H_helper_types() {
	b := [][2]string{{"date", "time.Time"}, {"dateTime", "time.Time"}, {"gDay", "time.Time"}, {"gMonth", "time.Time"}, {"gMonthDay", "time.Time"}, {"gYear", "time.Time"}, {"gYearMonth", "time.Time"}, {"time", "time.Time"}, {"hexBinary", "[]byte"}, {"base64Binary", "[]byte"}}[vnd.Choose(10)]
	c := []string{"date", "hexBinary", "time", "string"}[vnd.Choose(2+2*vnd.Tier())]
	doc := "<s:simpleType name='S'><s:restriction base='s:" + b[0] + "'/></s:simpleType><s:simpleType name='S2'><s:restriction base='t:S'><s:enumeration value='1'/></s:restriction></s:simpleType>" +
		"<s:simpleType name='S3'><s:restriction base='s:" + c + "'/></s:simpleType>"
	el := ""
	if flip() {
		el += "<s:element name='one' type='s:" + b[0] + "'" + choose("", " minOccurs='0'", " default='1'") + "/>"
	}
	if flip() {
		el += "<s:element name='many' type='s:" + c + "' maxOccurs='unbounded'/>"
	}
	if flip() {
		el += "<s:element name='named' type='t:S2'/>"
	}
	at := ""
	if flip() {
		at = "<s:attribute name='x' type='s:" + b[0] + "'/>"
	}
	doc += "<s:complexType name='A'><s:sequence>" + el + "</s:sequence>" + at + "</s:complexType><s:complexType name='V'><s:simpleContent><s:extension base='s:" + b[0] + "'><s:attribute name='y' type='s:" + c + "'/></s:extension></s:simpleContent></s:complexType>"
	_, pkg := mustGenerate(defaults(), schema("u", doc))
	codec(pkg, "S")
	codec(pkg, "S2")
	for _, f := range fields(pkg, "V") {
		if f.chardata {
			vnd.Assert(f.typ == b[1], "content of the Go type")
		}
	}
	fields(pkg, "A")
}
