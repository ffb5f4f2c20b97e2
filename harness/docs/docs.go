//go:build go1.21

// Package docs checks that the types generated from a schema carry the
// documents of the schema.
package docs

import (
	"encoding/xml"
	"io"
	"strings"

	ws "aqwari.net/xml/internal/zzverif/docsws"
	"aqwari.net/xml/internal/zzverif/vnd"
)

const xmlSpace = "http://www.w3.org/XML/1998/namespace"

type attr struct{ name, val string }

// el is an element of a document.
type el struct {
	ns, name string
	attrs    []attr
	text     string
	alt      string // what the text may become
	kids     []*el
	// may are the names of elements and attributes that may appear
	// although they are not there: optional ones whose Go type has no zero
	// value that is left out.
	may string
	// gone is set for optional elements with a zero value, which are left
	// out.
	gone bool
}

func leaf(ns, name, text string) *el { return &el{ns: ns, name: name, text: text} }

func (e *el) add(kids ...*el) *el { e.kids = append(e.kids, kids...); return e }

func (e *el) att(name, val string) *el { e.attrs = append(e.attrs, attr{name, val}); return e }

func escape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<':
			b = append(b, "&lt;"...)
		case '&':
			b = append(b, "&amp;"...)
		case '\'':
			b = append(b, "&#39;"...)
		case '\n':
			b = append(b, "&#10;"...)
		case '\t':
			b = append(b, "&#x9;"...)
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

// write writes an element in one of several styles: prefixes for both
// namespaces, default namespaces, or white space between elements.
func (e *el) write(style int, scope string) string {
	name, decl, inner := e.name, "", scope
	switch {
	case style == 1 && e.ns != "":
		name = "p" + e.ns + ":" + e.name
		if scope == "" {
			decl, inner = " xmlns:pu='u' xmlns:pv='v'", "p"
		}
	case scope != e.ns:
		decl, inner = " xmlns='"+e.ns+"'", e.ns
	}
	s := "<" + name + decl
	for _, a := range e.attrs {
		n := a.name
		switch {
		case strings.HasPrefix(n, xmlSpace+" "):
			n = "xml:" + n[len(xmlSpace)+1:]
		case strings.HasPrefix(n, "v "), strings.HasPrefix(n, "u "):
			ns := n[:1]
			n = "p" + ns + ":" + n[2:]
			if style != 1 {
				n = "xmlns:p" + ns + "='" + ns + "' " + n
			}
		}
		s += " " + n + "='" + escape(a.val) + "'"
	}
	if e.text == "" && len(e.kids) == 0 && style == 2 {
		return s + "/>"
	}
	s += ">" + escape(e.text)
	for _, k := range e.kids {
		if style == 2 {
			s += "\n  <!-- -->"
		}
		s += k.write(style, inner)
	}
	if style == 2 && len(e.kids) > 0 {
		s += "\n"
	}
	return s + "</" + name + ">"
}

// read reads what was encoded.
func read(data []byte) *el {
	d := xml.NewDecoder(strings.NewReader(string(data)))
	var stack []*el
	var root *el
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return root
		}
		vnd.Assert(err == nil, "what is encoded is well formed")
		switch t := tok.(type) {
		case xml.StartElement:
			e := &el{ns: t.Name.Space, name: t.Name.Local}
			for _, a := range t.Attr {
				if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
					n := a.Name.Local
					if a.Name.Space != "" {
						n = a.Name.Space + " " + n
					}
					e.attrs = append(e.attrs, attr{n, a.Value})
				}
			}
			if len(stack) == 0 {
				root = e
			} else {
				up := stack[len(stack)-1]
				up.kids = append(up.kids, e)
			}
			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(t)
			}
		}
	}
}

func (e *el) named(ns, name string) []*el {
	var got []*el
	for _, k := range e.kids {
		if k.ns == ns && k.name == name && !k.gone {
			got = append(got, k)
		}
	}
	return got
}

func has(list, name string) bool {
	for _, s := range strings.Fields(list) {
		if s == name {
			return true
		}
	}
	return false
}

// compare compares the contents of an element of the document with those of
// the encoded one.
func compare(want, got *el) {
	if len(want.kids) == 0 && len(got.kids) == 0 {
		vnd.Assert(got.text == want.text || want.alt != "" && got.text == want.alt, "the text of an element")
	}
	for _, a := range want.attrs {
		n := 0
		for _, b := range got.attrs {
			if b.name == a.name {
				n++
				vnd.Assert(b.val == a.val, "the value of an attribute")
			}
		}
		if !has(want.may, "-"+a.name) {
			vnd.Assert(n == 1, "every attribute of the document")
		}
	}
	for _, b := range got.attrs {
		found := has(want.may, "@"+b.name) || b.name == wsdlSpace+" arrayType"
		for _, a := range want.attrs {
			found = found || a.name == b.name
		}
		if !found {
			vnd.Observe("attribute", b.name)
		}
		vnd.Assert(found, "no other attributes")
	}
	for _, k := range want.kids {
		if k.gone {
			continue
		}
		w, g := want.named(k.ns, k.name), got.named(k.ns, k.name)
		if len(w) != len(g) {
			vnd.Observe("element", k.name)
		}
		vnd.Assert(len(w) == len(g), "every element of the document")
		for i := range w {
			if w[i] == k {
				compare(k, g[i])
			}
		}
	}
	for _, k := range got.kids {
		ok := has(want.may, k.name) || len(want.named(k.ns, k.name)) > 0
		if !ok {
			vnd.Observe("element", k.name)
		}
		vnd.Assert(ok, "no other elements")
	}
}

// carry decodes a document, encodes the value, and compares.
func carry(e *el, x any) { carryAs(e, x, "") }

// carryAs observes what kind of document it is.
func carryAs(e *el, x any, kind string) {
	if kind != "" {
		vnd.Observe("type", kind)
	}
	doc := e.write(vnd.Choose(3), "")
	vnd.Observe("doc", doc)
	err := xml.Unmarshal([]byte(doc), x)
	if err != nil {
		vnd.Observe("error", err.Error())
	}
	vnd.Assert(err == nil, "a valid document is decoded")
	b, err := xml.Marshal(x)
	if err != nil {
		vnd.Observe("error", err.Error())
	}
	vnd.Assert(err == nil, "a decoded value is encoded")
	vnd.Observe("encoded", string(b))
	compare(e, read(b))
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

// optional adds an element or not.
func (e *el) optional(k *el) *el {
	if vnd.Choose(2) == 1 {
		e.add(k)
	}
	return e
}

const chars = "a <&'>\n"

// H_order: a document of several types.
func H_order() {
	e := leaf("u", "order", "").att("n", "7")
	if vnd.Choose(2) == 1 {
		e.att("cur", "EUR")
	}
	e.add(leaf("u", "id", "42"))
	if vnd.Choose(2) == 1 {
		e.add(leaf("u", "note", vnd.StringOf(chars, 1+vnd.Tier())))
	}
	for k := vnd.Choose(3); k > 0; k-- {
		l := leaf("u", "line", "").att("pos", itoa(k)).add(leaf("u", "sku", "AB"), leaf("u", "qty", itoa(-k)))
		if k == 1 {
			l.att("gift", "true").add(leaf("u", "opt", "5"), leaf("u", "opt", "0"))
		}
		e.add(l)
	}
	c := leaf("u", "customer", "").att("vip", "true").add(leaf("u", "name", "x"))
	for k := 1 + vnd.Choose(2); k > 0; k-- {
		p := leaf("u", "phone", itoa(100+k))
		if vnd.Choose(2) == 1 {
			p.att("kind", "work")
		}
		c.add(p)
	}
	e.add(c)
	for k := vnd.Choose(2 + vnd.Tier()); k > 0; k-- {
		e.add(leaf("u", "tag", vnd.StringOf(chars, 2)))
	}
	carry(e, new(ws.Order))
}

// H_special: a type at the end of a chain of extensions.
func H_special() {
	item := func(name string, more bool) *el {
		i := leaf("u", name, "").att("pos", "3").add(leaf("u", "sku", vnd.StringOf(chars, 1)))
		if more {
			i.add(leaf("u", "qty", "0")).att("gift", "true")
		}
		return i
	}
	e := item("special", true).att("why", vnd.StringOf(chars, 1))
	e.may = "left right"
	for k := vnd.Choose(3); k > 0; k-- {
		e.add(leaf("u", "opt", itoa(k-1)))
	}
	if vnd.Choose(2) == 0 {
		e.add(item("left", false))
	} else {
		e.add(item("right", true))
	}
	carry(e, new(ws.Special))
}

// H_tree: a type that contains itself.
func H_tree() {
	n := 0
	var tree func(depth int) *el
	tree = func(depth int) *el {
		n++
		t := leaf("u", "kid", "").att("w", itoa(n)).add(leaf("u", "label", "l"+itoa(n)))
		if depth > 0 {
			for k := vnd.Choose(3); k > 0; k-- {
				t.add(tree(depth - 1))
			}
		}
		return t
	}
	carry(tree(2+vnd.Tier()), new(ws.Tree))
}

// H_chain: types that refer to themselves through elements that need not be
// there.
func H_chain() {
	n := 0
	num := func() string { n++; return itoa(n) }
	var link func(depth int) *el
	link = func(depth int) *el {
		l := leaf("u", "next", "").add(leaf("u", "v", num()))
		if vnd.Choose(2) == 1 {
			l.att("at", "2004-02-28Z")
		} else {
			l.may = "at"
		}
		if depth > 0 && vnd.Choose(2) == 1 {
			l.add(link(depth - 1))
		}
		return l
	}
	var branch, tall func(name string, depth int) *el
	branch = func(name string, depth int) *el {
		b := leaf("u", name, "")
		if depth == 0 || vnd.Choose(2) == 0 {
			return b.add(leaf("u", "leaf", "l"+num()))
		}
		f := leaf("u", "fork", "").add(branch("left", depth-1), leaf("u", "when", "10:00:00Z"))
		if vnd.Choose(2) == 1 {
			f.add(tall("right", depth-1))
		}
		return b.add(f)
	}
	tall = func(name string, depth int) *el {
		t := branch(name, depth).att("height", num())
		if depth > 0 && vnd.Choose(2) == 1 {
			t.add(tall("over", depth-1))
		}
		return t
	}
	switch vnd.Choose(3) {
	case 0:
		carry(link(3+vnd.Tier()), new(ws.Link))
	case 1:
		carry(branch("branch", 2+vnd.Tier()), new(ws.Branch))
	case 2:
		carry(tall("tall", 2), new(ws.Tall))
	}
}

// H_plain: documents without a namespace.
func H_plain() {
	e := leaf("", "memo", "")
	if vnd.Choose(2) == 1 {
		e.att("at", "2004-02-28T10:00:00Z")
	} else {
		e.may = "at"
	}
	for k := 1 + vnd.Choose(2); k > 0; k-- {
		e.add(leaf("", "to", vnd.StringOf(chars, 1)))
	}
	for k := vnd.Choose(3); k > 0; k-- {
		i := leaf("", "entry", itoa(k))
		if vnd.Choose(2) == 1 {
			i.att("unit", "kg")
		}
		e.add(i)
	}
	if vnd.Choose(2) == 1 {
		e.add(leaf("", "due", "2004-02-28Z"))
	}
	carry(e, new(ws.Memo))
}

// H_names: elements and attributes whose Go names coincide.
func H_names() {
	special := vnd.Choose(11)
	n := 0
	text := func() string {
		n++
		if n-1 == special {
			return itoa(n) + vnd.StringOf(chars, 1)
		}
		return itoa(n)
	}
	e := leaf("u", "names", "").att("a-b", text()).att("a_b", text()).att("Type", text())
	for i, n := range []string{"a-b", "aB", "a.b", "A-b", "type", "chardata", "XMLName", "_1"} {
		e.add(leaf("u", n, text()))
		if i == 2 && vnd.Choose(2) == 1 {
			e.add(leaf("u", n, "again"))
		}
	}
	carry(e, new(ws.Names))
}

// H_mix: elements of two namespaces.
func H_mix() {
	e := leaf("u", "mix", "")
	for k := 1 + vnd.Choose(2); k > 0; k-- {
		t := leaf("v", "thing", "").add(leaf("v", "in", vnd.StringOf(chars, 1)))
		if vnd.Choose(2) == 1 {
			t.att("k", "x")
		}
		e.add(t)
	}
	e.add(leaf("u", "thing", vnd.StringOf(chars, 1)))
	if vnd.Choose(2) == 1 {
		e.add(leaf("v", "count", "3"))
	}
	carry(e, new(ws.Mix))
}

// H_models: repeated and optional model groups, an element at two places of
// a content model, and attributes of other namespaces.
func H_models() {
	e := leaf("u", "models", "")
	for k := 1 + vnd.Choose(2+vnd.Tier()); k > 0; k-- {
		if vnd.Choose(2) == 1 {
			e.add(leaf("u", "red", "r"+itoa(k)))
		} else {
			e.add(leaf("u", "green", itoa(k)))
		}
	}
	if vnd.Choose(2) == 1 {
		e.add(leaf("u", "part", vnd.StringOf(chars, 1)))
	}
	for k := vnd.Choose(3); k > 0; k-- {
		e.add(leaf("u", "key", "k"+itoa(k)), leaf("u", "val", itoa(k)))
	}
	e.add(leaf("u", "end", itoa(5)), leaf("u", "mid", "m"), leaf("u", "end", itoa(6)))
	if vnd.Choose(2) == 1 {
		e.att("v mark", vnd.StringOf(chars, 1)).att(xmlSpace+" lang", "de")
	}
	if vnd.Choose(2) == 1 {
		e.att("num", "7")
	}
	carry(e, new(ws.Models))
}

// H_foreign: a local element whose type is of another namespace, and a
// reference to an attribute of the schema's own namespace.
func H_foreign() {
	e := leaf("u", "foreign", "")
	kind := []string{"complex", "simple", "attribute"}[vnd.Choose(3)]
	switch kind {
	case "complex":
		e.add(leaf("u", "thing", "").att("k", "x").add(leaf("v", "in", "y")))
	case "simple":
		e.add(leaf("u", "size", "3"))
	case "attribute":
		e.att("u own", "z")
	}
	e.may = "thing size"
	carryAs(e, new(ws.Foreign), kind)
}

// H_content: types with simple content.
func H_content() {
	price := func(name string) *el {
		p := leaf("u", name, itoa(10+vnd.Choose(2)))
		if vnd.Choose(2) == 1 {
			p.att("cur", vnd.StringOf("a<", 1))
		}
		if vnd.Choose(2) == 1 {
			p.att("per", "5")
		}
		return p
	}
	e := leaf("u", "prices", "")
	for k := vnd.Choose(2 + vnd.Tier()); k > 0; k-- {
		e.add(price("p"))
	}
	best := price("best")
	if vnd.Choose(2) == 1 {
		best.att("until", "2004-02-28Z")
	}
	carry(e.add(best), new(ws.Prices))
}

// kind is a built-in type, with the type generated for elements of it, texts
// of values, and the text of its zero value.
type kind struct {
	name  string
	make  func() any
	texts []string
	zero  string
}

// H_builtin: elements, attributes and content of every built-in type.
func H_builtin() {
	k := kinds[vnd.Choose(len(kinds))]
	n := 0
	text := func() string {
		n++
		if k.texts == nil {
			if n == 1 {
				return vnd.StringOf("ab<", 2)
			}
			return []string{"<b", "a b", "c"}[n%3]
		}
		return k.texts[n%len(k.texts)]
	}
	if k.texts != nil {
		n = vnd.Choose(len(k.texts))
	}
	e := leaf("u", "all", "")
	opt := func(l *el) *el { l.gone = l.text == k.zero; return l }
	if vnd.Choose(2) == 1 {
		e.att("att", text())
		if e.attrs[0].val == k.zero {
			e.may += " -att"
		}
	}
	if vnd.Choose(2) == 1 {
		v := text()
		e.att("attown", v)
		if v == k.zero {
			e.may += " -attown"
		}
	}
	e.add(leaf("u", "one", text()))
	if vnd.Choose(2) == 1 {
		e.add(opt(leaf("u", "maybe", text())))
	}
	// a slice of bytes is one text to encoding/xml, see H_bytes
	plural := 1
	if k.name == "unsignedByte" {
		plural = 0
		e.may += " many owns"
	}
	for c := plural * vnd.Choose(3); c > 0; c-- {
		e.add(leaf("u", "many", text()))
	}
	e.add(leaf("u", "own", text()))
	for c := plural * vnd.Choose(2); c > 0; c-- {
		e.add(leaf("u", "owns", text()), leaf("u", "owns", text()))
	}
	for c := vnd.Choose(2); c > 0; c-- {
		e.add(leaf("u", "content", text()).att("x", "5"))
	}
	carry(e, k.make())
}

// H_padded: white space around a value is not part of it.
func H_padded() {
	k := kinds[vnd.Choose(len(kinds))]
	vnd.Assume(k.texts != nil)
	v := k.texts[vnd.Choose(2)]
	vnd.Assume(v != k.zero)
	pad := vnd.Choose(3)
	before, after := []string{" ", "\n\t", ""}[pad], []string{"", "\n  ", "\t"}[pad]
	place := vnd.Choose(6)
	vnd.Assume(k.name != "unsignedByte" || place != 3)
	build := func(v string) *el {
		e := leaf("u", "all", "")
		other := k.texts[0]
		switch place {
		case 0:
			e.att("att", v)
		case 1:
			e.att("attown", v)
		case 3:
			e.add(leaf("u", "many", other), leaf("u", "many", v))
		case 5:
			e.add(leaf("u", "content", v).att("x", "5"))
		}
		one, own := other, other
		if place == 2 {
			one = v
		}
		if place == 4 {
			own = v
		}
		e.add(leaf("u", "one", one), leaf("u", "own", own))
		if k.name == "unsignedByte" {
			e.may = "many owns"
		}
		return e
	}
	doc := build(before + v + after).write(vnd.Choose(3), "")
	vnd.Observe("type", k.name)
	vnd.Observe("doc", doc)
	x := k.make()
	err := xml.Unmarshal([]byte(doc), x)
	if err != nil {
		vnd.Observe("error", err.Error())
	}
	vnd.Assert(err == nil, "a valid document is decoded")
	b, err := xml.Marshal(x)
	vnd.Assert(err == nil, "a decoded value is encoded")
	vnd.Observe("encoded", string(b))
	compare(build(v), read(b))
}

// H_bytes: elements of type unsignedByte that may be repeated.
func H_bytes() {
	e := leaf("u", "all", "").add(leaf("u", "one", "1"), leaf("u", "own", "2"))
	for c := vnd.Choose(3); c > 0; c-- {
		e.add(leaf("u", "many", itoa(c)))
	}
	doc := e.write(0, "")
	x := new(ws.AllunsignedByte)
	vnd.Observe("type", "unsignedByte")
	err := xml.Unmarshal([]byte(doc), x)
	same := err == nil && len(x.Many) == len(e.named("u", "many"))
	if same {
		b, err := xml.Marshal(x)
		vnd.Observe("encoded", string(b))
		same = err == nil && len(read(b).named("u", "many")) == len(x.Many)
	}
	vnd.Assert(same, "every element of the document")
}

// H_qname: an element that holds a qualified name.
func H_qname() {
	e := leaf("u", "qualified", "").add(leaf("u", "q", []string{"a", "xml:lang"}[vnd.Choose(2)]))
	carryAs(e, new(ws.Qualified), "QName")
}

// H_malformed: documents with values that are none of their types.
func H_malformed() {
	bad := []struct {
		name string
		text string
		x    any
	}{
		{"int", "x", new(ws.Allint)}, {"int", "2147483648000000000000", new(ws.Allint)},
		{"boolean", "yes", new(ws.Allboolean)}, {"byte", "300", new(ws.Allbyte)}, {"unsignedShort", "-1", new(ws.AllunsignedShort)},
		{"decimal", "1,5", new(ws.Alldecimal)}, {"float", "x", new(ws.Allfloat)},
		{"date", "2004-02-31Z", new(ws.Alldate)}, {"dateTime", "2004-02-28", new(ws.AlldateTime)}, {"gYear", "04", new(ws.AllgYear)}, {"time", "25:00:00", new(ws.Alltime)},
		{"hexBinary", "0", new(ws.AllhexBinary)}, {"hexBinary", "0g", new(ws.AllhexBinary)}, {"base64Binary", "AAE", new(ws.Allbase64Binary)}, {"base64Binary", "A===", new(ws.Allbase64Binary)},
	}
	k := bad[vnd.Choose(len(bad))]
	e := leaf("u", "all", "")
	place := vnd.Choose(6)
	switch place {
	case 0:
		e.att("att", k.text)
	case 1:
		e.att("attown", k.text)
	case 5:
		e.add(leaf("u", "content", k.text))
	default:
		e.add(leaf("u", []string{"", "", "one", "many", "own"}[place], k.text))
	}
	vnd.Observe("doc", e.write(0, ""))
	err := xml.Unmarshal([]byte(e.write(0, "")), k.x)
	vnd.Assert(err != nil, "a malformed value is an error")
}

// H_malformed_array: an array with an item that is none of its type.
func H_malformed_array() {
	name := []string{"int", "boolean", "date", "hexBinary"}[vnd.Choose(4)]
	vnd.Observe("type", name)
	e := leaf("u", name, "").add(leaf("u", "item", "x"))
	err := xml.Unmarshal([]byte(leaf("u", "arrays", "").add(e).write(0, "")), new(ws.Arrays))
	vnd.Assert(err != nil, "a malformed item is an error")
}
