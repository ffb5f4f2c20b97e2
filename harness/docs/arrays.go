//go:build go1.21

package docs

import (
	"encoding/xml"
	"reflect"

	ws "aqwari.net/xml/internal/zzverif/docsws"
	"aqwari.net/xml/internal/zzverif/vnd"
)

const (
	xsdSpace  = "http://www.w3.org/2001/XMLSchema"
	wsdlSpace = "http://schemas.xmlsoap.org/wsdl/"
)

// array is a type of array, with what may be in it.
type array struct {
	name, space string
	items       func(a *ws.Arrays) any
	item        func(i int) *el
	value       func(i int) any
}

func textItem(texts ...string) func(int) *el {
	return func(i int) *el { return leaf("", "", texts[i%len(texts)]) }
}

func values[T any](vs ...T) func(int) any {
	return func(i int) any { return vs[i%len(vs)] }
}

var arrays = []array{
	{"int", xsdSpace, func(a *ws.Arrays) any { return a.Int }, textItem("7", "-8", "0"), values(7, -8, 0)},
	{"string", xsdSpace, func(a *ws.Arrays) any { return a.String }, textItem("a b", "", "<"), values("a b", "", "<")},
	{"boolean", xsdSpace, func(a *ws.Arrays) any { return a.Boolean }, textItem("true", "false"), values(true, false)},
	{"date", xsdSpace, func(a *ws.Arrays) any { return a.Date }, textItem("2004-02-28Z", "1999-12-31-05:00"), nil},
	{"hexBinary", xsdSpace, func(a *ws.Arrays) any { return a.HexBinary }, textItem("00ff", "7a"), values([]byte{0, 255}, []byte{0x7a})},
	{"base64Binary", xsdSpace, func(a *ws.Arrays) any { return a.Base64Binary }, textItem("AAEC", "/w=="), values([]byte{0, 1, 2}, []byte{255})},
	{"Item", "u", func(a *ws.Arrays) any { return a.Item }, func(i int) *el {
		return leaf("", "", "").att("pos", itoa(i+1)).add(leaf("u", "sku", "S"+itoa(i)))
	}, func(i int) any { return ws.Item{Sku: ws.Sku("S" + itoa(i)), Pos: i + 1} }},
	{"Colour", "u", func(a *ws.Arrays) any { return a.Colour }, textItem("red", "green"), values[ws.Colour]("red", "green")},
	{"Ints", "u", func(a *ws.Arrays) any { return a.Ints }, textItem("1 2", "3", "-1"), values(ws.Ints{1, 2}, ws.Ints{3}, ws.Ints{-1})},
	{"Arrint", "u", func(a *ws.Arrays) any { return a.Arrint }, func(i int) *el {
		e := leaf("", "", "")
		for k := 0; k <= i; k++ {
			e.add(leaf("u", "item", itoa(i-k)))
		}
		return e
	}, func(i int) any {
		var a ws.Arrint
		for k := 0; k <= i; k++ {
			a = append(a, i-k)
		}
		return a
	}},
	{"anyURI", xsdSpace, func(a *ws.Arrays) any { return a.AnyURI }, textItem("urn:a", "b"), values("urn:a", "b")},
	{"time", xsdSpace, func(a *ws.Arrays) any { return a.Time }, textItem("00:59:59Z", "23:00:00.25-01:00"), nil},
}

// H_arrays: the items of a SOAP array, whatever their elements are called.
func H_arrays() {
	a := arrays[vnd.Choose(len(arrays))]
	vnd.Observe("type", a.name)
	e := leaf("u", a.name, "")
	count := vnd.Choose(4 + vnd.Tier())
	for i := 0; i < count; i++ {
		it := a.item(i)
		it.name = []string{"item", "x", "a-b", a.name}[vnd.Choose(4)]
		it.ns = "u"
		if vnd.Choose(2) == 1 {
			it.ns = "v"
		}
		e.add(it)
	}
	doc := leaf("u", "arrays", "").add(e).write(vnd.Choose(3), "")
	vnd.Observe("doc", doc)
	x := new(ws.Arrays)
	err := xml.Unmarshal([]byte(doc), x)
	vnd.Assert(err == nil, "a valid array is decoded")
	got := reflect.ValueOf(a.items(x))
	vnd.Assert(got.Len() == count, "one item for every element")
	for i := 0; a.value != nil && i < count; i++ {
		vnd.Assert(reflect.DeepEqual(got.Index(i).Interface(), a.value(i)), "the value of an item")
	}
	b, err := xml.Marshal(x)
	vnd.Assert(err == nil, "an array is encoded")
	vnd.Observe("encoded", string(b))
	out := read(b).named("u", a.name)
	if count == 0 && len(out) == 0 {
		return // not required
	}
	vnd.Assert(len(out) == 1, "an array is one element")
	vnd.Assert(len(out[0].kids) == count, "one element for every item")
	for i, k := range out[0].kids {
		vnd.Assert(k.name == "item", "of one name")
		compare(e.kids[i], k)
	}
	// The type is written with a prefix that is declared for it.
	prefix := "ns1"
	typed := false
	for _, t := range out[0].attrs {
		if t.name == wsdlSpace+" arrayType" {
			typed = t.val == prefix+":"+a.name+"[]"
		}
	}
	vnd.Assert(typed, "the type of the items")
	y := new(ws.Arrays)
	err = xml.Unmarshal(b, y)
	vnd.Assert(err == nil, "what is encoded is decoded")
	vnd.Assert(reflect.DeepEqual(a.items(x), a.items(y)) || a.value == nil, "as the same array")
	c, err := xml.Marshal(y)
	vnd.Assert(err == nil && string(b) == string(c), "and encoded as the same")
}

// H_labelled: an array with attributes of its own.
func H_labelled() {
	e := leaf("u", "labelled", "")
	if vnd.Choose(2) == 1 {
		e.att("before", vnd.StringOf(chars, 1))
	}
	if vnd.Choose(2) == 1 {
		e.att("after", "2004-02-28Z")
	}
	e.may = "@before"
	n := vnd.Choose(4)
	for i := 0; i < n; i++ {
		e.add(leaf("u", "i", itoa(i)))
	}
	x := new(ws.Labelled)
	doc := e.write(vnd.Choose(3), "")
	vnd.Observe("doc", doc)
	err := xml.Unmarshal([]byte(doc), x)
	vnd.Assert(err == nil, "a valid array is decoded")
	vnd.Assert(len(x.Items) == n, "one item for every element")
	for i, v := range x.Items {
		vnd.Assert(v == i, "the value of an item")
	}
	vnd.Assert(x.After.IsZero() == (len(e.attrs) == 0 || e.attrs[len(e.attrs)-1].name != "after"), "an attribute of the array")
	if len(e.attrs) > 0 && e.attrs[0].name == "before" {
		vnd.Assert(x.Before == e.attrs[0].val, "an attribute of the array")
	}
}

// H_array_bytes: an array of unsignedByte.
func H_array_bytes() {
	vnd.Observe("type", "unsignedByte")
	a := &ws.Arrays{UnsignedByte: make(ws.ArrunsignedByte, 1+vnd.Choose(3))}
	for i := range a.UnsignedByte {
		a.UnsignedByte[i] = byte(65 + i)
	}
	b, err := xml.Marshal(a)
	ok := err == nil
	if ok {
		r := read(b)
		ok = len(r.kids) == 1 && len(r.kids[0].kids) == len(a.UnsignedByte) && r.kids[0].kids[0].text == "65"
	}
	vnd.Assert(ok, "every item of the array")
}
