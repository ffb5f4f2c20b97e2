package gen

import (
	"go/types"

	"aqwari.net/xml/internal/zzverif/vnd"
)

const soapEnc = "http://schemas.xmlsoap.org/soap/encoding/"

func encoding(attrs string) string {
	return "<s:schema xmlns:s='" + xs + "' xmlns:t='" + soapEnc + "' targetNamespace='" + soapEnc + "'><s:attribute name='arrayType' type='s:string'/><s:complexType name='Array'><s:sequence><s:any minOccurs='0' maxOccurs='unbounded'/></s:sequence><s:attribute ref='t:arrayType'/>" + attrs + "</s:complexType></s:schema>"
}

// H_soap: an array of every kind of item, beside other attributes, in another
// type.
func H_soap() {
	var item, want string
	if vnd.Choose(2) == 0 {
		b := builtins[vnd.Choose(len(builtins))]
		item, want = "s:"+b[0], b[1]
	} else {
		t := [][2]string{{"t:Enum", "Enum"}, {"t:Plain", "int"}, {"t:Second", "Second"}, {"t:Many", "Many"}, {"t:Either", "Either"}, {"t:Day", "Day"},
			{"t:Rec", "Rec"}, {"t:Text", "int"}, {"t:Tagged", "Tagged"}, {"v:Far", "Far"}, {"t:Other", "Other"}, {"t:Rec2", "Rec2"}, {"t:int8x16", "Int8x16"}, {"t:s", "S"}, {"t:string", "float64"}}[vnd.Choose(15)]
		item, want = t[0], t[1]
	}
	ref := "<s:attribute ref='e:arrayType' w:arrayType='" + item + choose("[]", "[] ", "") + "'/>"
	own := vnd.Choose(4)
	attrs := ref
	switch own {
	case 1:
		attrs = "<s:attribute name='x' type='s:int'/>" + ref
	case 2:
		attrs = ref + "<s:attribute name='x' type='s:date' use='required'/>"
	}
	ids := ""
	if own == 3 {
		ids = "<s:attribute name='x' type='s:string'/>"
	}
	arr := "<s:complexType name='Arr'><s:complexContent><s:restriction base='e:Array'>" + attrs + "</s:restriction></s:complexContent></s:complexType>"
	other := "<s:complexType name='Other'><s:complexContent><s:restriction base='e:Array'><s:attribute ref='e:arrayType' w:arrayType='s:long[]'/></s:restriction></s:complexContent></s:complexType>"
	odd := "<s:complexType name='Rec2'><s:sequence><s:element name='r2' type='s:string'/></s:sequence></s:complexType>" +
		"<s:complexType name='int8x16'><s:sequence><s:element name='r3' type='s:string'/></s:sequence></s:complexType>" +
		"<s:complexType name='s'><s:attribute name='r4' type='s:string'/></s:complexType>" +
		"<s:simpleType name='string'><s:restriction base='s:double'/></s:simpleType>"
	use := "<s:complexType name='Use'><s:sequence><s:element name='one' type='t:Arr'/><s:element name='two' type='t:Other' maxOccurs='2'/></s:sequence></s:complexType>"
	if flip() {
		arr, other, use = use, arr, other
	}
	doc := "<s:schema xmlns:s='" + xs + "' xmlns:t='u' xmlns:v='v' xmlns:e='" + soapEnc + "' xmlns:w='http://schemas.xmlsoap.org/wsdl/' targetNamespace='u'>" + decls + odd + arr + other + use + "</s:schema>"
	far := schema("v", "<s:complexType name='Far'><s:sequence><s:element name='z' type='s:int'/></s:sequence></s:complexType>")
	_, pkg := mustGenerate(defaults(), doc, encoding(ids), far)
	vnd.Observe("item", item)
	if own == 0 {
		slice, ok := decl(pkg, "Arr").Underlying().(*types.Slice)
		vnd.Assert(ok, "an array of nothing but items is a slice")
		vnd.Assert(typeString(pkg, slice.Elem()) == want, "of the Go type of the items")
		methods(pkg, "Arr", "MarshalXML", "UnmarshalXML")
	} else {
		fs := fields(pkg, "Arr")
		vnd.Assert(len(fs) == 2, "a field for the items and one for the attribute")
		carrier(fs, "x", true)
		for _, f := range fs {
			if !f.attr {
				vnd.Assert(f.any && f.typ == "[]"+want, "the items")
			}
		}
	}
	if own == 3 {
		ot := fields(pkg, "Other")
		vnd.Assert(len(ot) == 2, "a field for the items and one for the attribute")
	} else {
		vnd.Assert(typeString(pkg, decl(pkg, "Other").Underlying()) == "[]int64", "another array")
	}
	us := fields(pkg, "Use")
	vnd.Assert(carrier(us, "one", false).typ == "Arr" && carrier(us, "two", false).typ == "[]Other", "elements that are arrays")
}

// methods asserts that a type has methods.
func methods(pkg *types.Package, name string, want ...string) {
	t := types.NewPointer(decl(pkg, name))
	for _, m := range want {
		o, _, _ := types.LookupFieldOrMethod(t, true, pkg, m)
		_, ok := o.(*types.Func)
		vnd.Assert(ok, "with methods for encoding/xml")
	}
}
