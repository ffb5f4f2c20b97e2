package schema

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

// derived is one type of a derivation chain.
type derived struct {
	name  string
	how   int // how it is derived
	base  int // index of its base, or -1 for the built-in
	mixed bool
}

const (
	extension      = iota // complexContent/extension
	restriction           // complexContent/restriction
	simpleExt             // simpleContent/extension
	shorthand             // no content element
	mixedOnContent        // mixed on complexContent, extension
	ways
)

func (d derived) xml(base, mixed string) string {
	on, in := mixed, "-"
	if d.how == mixedOnContent {
		on, in = "-", mixed
	}
	open := "<s:complexType name='" + d.name + "'" + attr("mixed", on) + ">"
	switch d.how {
	case extension, mixedOnContent:
		return open + "<s:complexContent" + attr("mixed", in) + "><s:extension base='" + base + "'><s:sequence/></s:extension></s:complexContent></s:complexType>"
	case restriction:
		return open + "<s:complexContent><s:restriction base='" + base + "'/></s:complexContent></s:complexType>"
	case simpleExt:
		return open + "<s:simpleContent><s:extension base='" + base + "'/></s:simpleContent></s:complexType>"
	}
	return open + "<s:sequence/></s:complexType>"
}

// mixed applies the rules.
func mixed(all []derived, i int) bool {
	d := all[i]
	if d.mixed || d.how == simpleExt {
		return true
	}
	if d.how == extension || d.how == mixedOnContent {
		return d.base < 0 || mixed(all, d.base)
	}
	return false
}

// flagText is a spelling of a flag.
func flagText() (string, bool) {
	switch vnd.Choose(4) {
	case 0:
		return "-", false
	case 1:
		return "true", true
	case 2:
		return "false", false
	}
	s := vnd.StringOf("01", 1)
	return s, s == "1"
}

// H_mixed_chain: chains of derivation of any kinds, declared and named in any
// order.
func H_mixed_chain() {
	vnd.MapOrderFew()
	count := 2 + vnd.Choose(2+vnd.Tier())
	var all []derived
	texts := make([]string, count)
	// names decide nothing, but are in a different order than the chain
	names := []string{"cabd", "abcd", "dcba"}[vnd.Choose(3)]
	for i := 0; i < count; i++ {
		d := derived{name: names[i : i+1], base: i - 1}
		var text string
		if i == 0 {
			d.how = vnd.Choose(ways)
			text, d.mixed = flagText()
		} else {
			d.how = vnd.Choose(3) // extension, restriction, simple extension
			text = "-"
			if vnd.Tier() == 1 {
				d.how = vnd.Choose(ways)
			}
			if i == 1 && vnd.Bool() {
				text, d.mixed = "true", true
			}
		}
		if d.how == simpleExt && i > 0 && all[i-1].how != simpleExt {
			return // the base of simple content has simple content
		}
		if d.how == shorthand {
			d.base = -1
		}
		base := "s:anyType"
		if d.how == simpleExt {
			base = "s:string"
		}
		if d.base >= 0 {
			base = "t:" + names[i-1:i]
		}
		texts[i] = d.xml(base, text)
		all = append(all, d)
	}
	doc := open("u")
	rev := vnd.Bool()
	for i := range texts {
		if rev {
			i = count - 1 - i
		}
		doc += texts[i]
	}
	s := mustParse(doc + end)
	for i, d := range all {
		t := complexOf(s["u"], d.name)
		vnd.Assert(t.Extends == (d.how == extension || d.how == simpleExt || d.how == mixedOnContent), "Extends")
		vnd.Assert(t.Mixed == mixed(all, i), "Mixed as the rules say")
	}
}

// H_mixed_simple: types derived from simple types, directly or not.
func H_mixed_simple() {
	vnd.MapOrderFew()
	base := []string{"t:s1", "t:s2", "t:s3", "s:int", "s:anySimpleType"}[vnd.Choose(5)]
	how := []int{extension, restriction, simpleExt}[vnd.Choose(3)]
	a := derived{name: "a", how: how}
	b := derived{name: "b", how: []int{extension, restriction, simpleExt}[vnd.Choose(3)]}
	c := derived{name: "c", how: extension}
	doc := open("u")
	simple := "<s:simpleType name='s1'><s:restriction base='s:int'/></s:simpleType><s:simpleType name='s2'><s:list itemType='t:s1'/></s:simpleType><s:simpleType name='s3'><s:union memberTypes='t:s2 s:int'/></s:simpleType>"
	texts := simple + a.xml(base, "-") + b.xml("t:a", "-") + c.xml("t:b", "-")
	if vnd.Bool() {
		texts = c.xml("t:b", "-") + b.xml("t:a", "-") + a.xml(base, "-") + simple
	}
	s := mustParse(doc + texts + end)
	// a built-in that is not anyType gives simple content only when said so
	am := how == simpleExt || base[0] == 't'
	bm := b.how == simpleExt || b.how == extension && am
	vnd.Assert(complexOf(s["u"], "a").Mixed == am, "derived from a simple type")
	vnd.Assert(complexOf(s["u"], "b").Mixed == bm, "derived from that")
	vnd.Assert(complexOf(s["u"], "c").Mixed == bm, "an extension of that")
}

// H_mixed_spaces: chains through several namespaces and documents.
func H_mixed_spaces() {
	if vnd.Bool() {
		vnd.MapOrderFew()
	} else {
		vnd.MapOrderOne()
	}
	count := 3 + vnd.Tier()
	var docs []string
	var all []derived
	ns := []string{"u", "v", "w", "x"}
	for i := 0; i < count; i++ {
		d := derived{name: "T", base: i - 1, how: vnd.Choose(2)}
		text := "-"
		if i == 0 && vnd.Bool() {
			text, d.mixed = "true", true
		}
		base := "s:anyType"
		if i > 0 {
			base = ns[i-1] + ":T"
		}
		all = append(all, d)
		docs = append(docs, "<s:schema xmlns:s='"+xs+"' xmlns:u='u' xmlns:v='v' xmlns:w='w' targetNamespace='"+ns[i]+"'>"+d.xml(base, text)+end)
	}
	switch vnd.Choose(4) {
	case 1:
		docs[0], docs[2] = docs[2], docs[0]
	case 2:
		docs[0], docs[1], docs[2] = docs[1], docs[2], docs[0]
	case 3:
		docs[0], docs[1], docs[2] = docs[2], docs[0], docs[1]
	}
	s := mustParse(docs...)
	for i := range all {
		vnd.Assert(complexOf(s[ns[i]], "T").Mixed == mixed(all, i), "Mixed as the rules say")
	}
}

// H_mixed_anon: anonymous types follow the same rules.
func H_mixed_anon() {
	text, val := flagText()
	how := vnd.Choose(2)
	d := derived{name: "x", how: how}
	typ := d.xml("t:b", "-")
	typ = "<s:complexType>" + typ[len("<s:complexType name='x'>"):]
	b := derived{name: "b", how: shorthand}
	doc := open("u") + "<s:element name='e'>" + typ + "</s:element>" + b.xml("", text) + end
	if vnd.Bool() {
		doc = open("u") + b.xml("", text) + "<s:complexType name='T'><s:sequence><s:element name='e'>" + typ + "</s:element></s:sequence></s:complexType>" + end
	}
	s := mustParse(doc)
	vnd.Assert(complexOf(s["u"], "e").Mixed == (val && how == extension), "Mixed as the rules say")
	vnd.Assert(complexOf(s["u"], "b").Mixed == val, "as written")
	vnd.Assert(complexOf(s["u"], "_self").Mixed == false, "the top-level elements' type is not mixed")
	_ = xsd.AnyType
}

// H_mixed_long: long chains of extensions of a mixed type.
func H_mixed_long() {
	count := []int{10, 40, 120}[vnd.Choose(2+vnd.Tier())]
	text, val := "-", false
	if vnd.Choose(2) == 1 {
		text, val = "true", true
	}
	stop := []int{-1, 3, 7}[vnd.Choose(3)]
	name := func(i int) string { return "t" + string(rune('0'+i/100)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10)) }
	doc := open("u")
	rev := vnd.Choose(2) == 1
	for k := 0; k < count; k++ {
		i := k
		if rev {
			i = count - 1 - k
		}
		d := derived{name: name(i), how: extension}
		if i == stop {
			d.how = restriction
		}
		if i == 0 {
			d.how = shorthand
			doc += d.xml("", text)
		} else {
			doc += d.xml("t:"+name(i-1), "-")
		}
	}
	s := mustParse(doc + end)
	for i := 0; i < count; i++ {
		vnd.Assert(complexOf(s["u"], name(i)).Mixed == (val && (stop < 0 || i < stop)), "Mixed as the rules say")
	}
}
