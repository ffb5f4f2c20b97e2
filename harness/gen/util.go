// Package gen holds the properties of code generation.
package gen

import (
	"encoding/xml"
	"go/ast"
	"go/types"
	"reflect"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// Setup keeps the bundled schemas out of the way (see package schema).
func Setup() { xsd.StandardSchema = nil }

const xs = "http://www.w3.org/2001/XMLSchema"

func n(space, local string) xml.Name { return xml.Name{Space: space, Local: local} }

func schema(tns string, body ...string) string {
	return "<s:schema xmlns:s='" + xs + "' xmlns:t='" + tns + "' targetNamespace='" + tns + "'>" + strings.Join(body, "") + "</s:schema>"
}

// defaults are the options of the command line tool.
func defaults() *xsdgen.Config {
	cfg := new(xsdgen.Config)
	cfg.Option(xsdgen.DefaultOptions...)
	return cfg
}

func generate(cfg *xsdgen.Config, docs ...string) (*xsdgen.Code, *ast.File, error) {
	var data [][]byte
	for _, d := range docs {
		vnd.Observe("doc", d)
		data = append(data, []byte(d))
	}
	code, err := cfg.GenCode(data...)
	if err != nil {
		return nil, nil, err
	}
	f, err := code.GenAST()
	return code, f, err
}

func mustGenerate(cfg *xsdgen.Config, docs ...string) (*xsdgen.Code, *types.Package) {
	code, f, err := generate(cfg, docs...)
	if err != nil {
		vnd.Observe("error", err.Error())
	}
	vnd.Assert(err == nil, "code is generated from a valid schema")
	return code, load(f)
}

// decl is the type declared under a Go name.
func decl(pkg *types.Package, name string) types.Type {
	o := pkg.Scope().Lookup(name)
	vnd.Assert(o != nil, "the type is declared under its Go name")
	t, ok := o.(*types.TypeName)
	vnd.Assert(ok, "as a type")
	return t.Type()
}

// field is one field of a generated struct as encoding/xml sees it.
type field struct {
	name      string
	typ       string
	space     string
	local     string
	attr      bool
	omitempty bool
	any       bool
	chardata  bool
	t         types.Type
}

func fields(pkg *types.Package, name string) []field {
	st, ok := decl(pkg, name).Underlying().(*types.Struct)
	vnd.Assert(ok, "a complex type is a struct")
	var out []field
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		f := field{name: v.Name(), t: v.Type(), typ: typeString(pkg, v.Type())}
		vnd.Assert(v.Exported() && !v.Embedded(), "fields are exported, so that encoding/xml uses them")
		tag, ok := reflect.StructTag(st.Tag(i)).Lookup("xml")
		vnd.Assert(ok, "every field has an xml tag")
		parts := strings.Split(tag, ",")
		f.local = parts[0]
		if j := strings.LastIndexByte(f.local, ' '); j >= 0 {
			f.space, f.local = f.local[:j], f.local[j+1:]
		}
		for _, o := range parts[1:] {
			switch o {
			case "attr":
				f.attr = true
			case "omitempty":
				f.omitempty = true
			case "any":
				f.any = true
			case "chardata":
				f.chardata = true
			default:
				vnd.Assert(false, "tag options are known ones")
			}
		}
		out = append(out, f)
	}
	return out
}

func typeString(pkg *types.Package, t types.Type) string {
	return types.TypeString(t, types.RelativeTo(pkg))
}

// carrier is the only field for an element or attribute.
func carrier(fs []field, local string, attr bool) field {
	var got field
	k := 0
	for _, f := range fs {
		if f.local == local && f.attr == attr && !f.chardata && !f.any {
			got = f
			k++
		}
	}
	if k != 1 {
		vnd.Observe("missing", local)
	}
	vnd.Assert(k == 1, "carried by exactly one field")
	return got
}

// builtins and the Go types that hold their values.
var builtins = [][2]string{
	{"anyType", "string"}, {"anySimpleType", "string"}, {"ENTITIES", "[]string"}, {"ENTITY", "string"},
	{"ID", "string"}, {"IDREF", "string"}, {"IDREFS", "[]string"}, {"NCName", "string"},
	{"NMTOKEN", "string"}, {"NMTOKENS", "[]string"}, {"NOTATION", "[]string"}, {"Name", "string"},
	{"QName", "encoding/xml.Name"}, {"anyURI", "string"}, {"base64Binary", "[]byte"}, {"boolean", "bool"},
	{"byte", "int8"}, {"date", "time.Time"}, {"dateTime", "time.Time"}, {"decimal", "float64"},
	{"double", "float64"}, {"duration", "string"}, {"float", "float32"}, {"gDay", "time.Time"},
	{"gMonth", "time.Time"}, {"gMonthDay", "time.Time"}, {"gYear", "time.Time"}, {"gYearMonth", "time.Time"},
	{"hexBinary", "[]byte"}, {"int", "int"}, {"integer", "int"}, {"language", "string"},
	{"long", "int64"}, {"negativeInteger", "int"}, {"nonNegativeInteger", "int"}, {"nonPositiveInteger", "int"},
	{"normalizedString", "string"}, {"positiveInteger", "int"}, {"short", "int"}, {"string", "string"},
	{"time", "time.Time"}, {"token", "string"}, {"unsignedByte", "byte"}, {"unsignedInt", "uint"},
	{"unsignedLong", "uint64"}, {"unsignedShort", "uint"},
}
