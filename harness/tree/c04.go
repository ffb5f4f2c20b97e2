package tree

import (
	"bytes"
	"encoding/xml"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

// same asserts that b, read from what was written for a, is a again.
func same(a, b *xmltree.Element, uris []string, what string) {
	vnd.Assert(sameName(a.Name, b.Name), what+": element name")
	vnd.Assert(len(a.StartElement.Attr) == len(b.StartElement.Attr), what+": number of attributes")
	for i, x := range a.StartElement.Attr {
		y := b.StartElement.Attr[i]
		vnd.Assert(vnd.And(sameName(x.Name, y.Name), x.Value == y.Value), what+": attribute")
	}
	vnd.Assert(len(a.Children) == len(b.Children), what+": number of children")
	if len(a.Children) == 0 {
		vnd.Assert(string(a.Content) == string(b.Content), what+": content")
	}
	for _, p := range prefixes {
		x, xok := a.ResolveNS(p + ":z")
		y, yok := b.ResolveNS(p + ":z")
		if xok {
			vnd.Assert(vnd.And(yok, sameName(x, y)), what+": prefix "+p)
		}
	}
	for i := range a.Children {
		same(&a.Children[i], &b.Children[i], uris, what)
	}
}

// noDup asserts that no tag declares one prefix twice.
func noDup(n *node) {
	for i, d := range n.decls {
		for _, e := range n.decls[:i] {
			vnd.Assert(d.Local != e.Local, "prefix declared twice in one tag")
		}
	}
	for _, k := range n.kids {
		noDup(k)
	}
}

// declared tells that every prefix used in the document is declared (the
// tokenizer leaves the prefix as the namespace otherwise).
func (n *node) declared(uris string) bool {
	ok := func(s string) bool {
		if s == "" || s == xmlNS {
			return true
		}
		for i := range uris {
			if s == uris[i:i+1] {
				return true
			}
		}
		return false
	}
	if !ok(n.name.Space) {
		return false
	}
	for _, a := range n.attrs {
		if !ok(a.Name.Space) {
			return false
		}
	}
	for _, k := range n.kids {
		if !k.declared(uris) {
			return false
		}
	}
	return true
}

func roundTrip(doc string) {
	el, ref := parseBoth(doc)
	vnd.Assume(ref.declared("uvw"))
	ref.walk(el, func(el *xmltree.Element, n *node) {
		out := xmltree.Marshal(el)
		vnd.Observe("marshalled", string(out))
		back, err := xmltree.Parse(out)
		vnd.Assert(err == nil, "Marshal output does not parse")
		same(el, back, nil, "Marshal")
		r, err := refParse(out)
		vnd.Assert(err == nil, "Marshal output does not parse")
		noDup(r)
		vnd.Assert(el.String() == string(out), "String differs from Marshal")
		var buf bytes.Buffer
		vnd.Assert(xmltree.Encode(&buf, el) == nil, "Encode error")
		vnd.Assert(buf.String() == string(out), "Encode differs from Marshal")
		vnd.Cover("round trip")
	})
	back, err := xmltree.Parse(xmltree.MarshalIndent(el, "", " "))
	vnd.Assert(err == nil, "MarshalIndent output does not parse")
	same(el, back, nil, "MarshalIndent")
	// Everything above only read the tree.
	checkTree(el, ref)
}

// H_marshal_value: any text as attribute value, namespace and content.
func H_marshal_value() {
	n := 2 + vnd.Tier()
	esc := func(s string) string {
		var b bytes.Buffer
		xml.EscapeText(&b, []byte(s))
		return b.String()
	}
	switch vnd.Choose(4) {
	case 0:
		v := vnd.String(n)
		roundTrip("<r a='" + esc(v) + "' b='x'/>")
	case 1:
		v := vnd.String(n)
		roundTrip("<r b='x'>" + esc(v) + "</r>")
	case 2:
		v := vnd.StringOf("uv<&\"'> \n\t\r", n)
		el, _ := parseBoth("<p:r xmlns:p='" + esc(v) + "' p:a='1'><p:b/></p:r>")
		out := xmltree.Marshal(el)
		back, err := xmltree.Parse(out)
		vnd.Assert(err == nil, "Marshal output does not parse")
		same(el, back, nil, "Marshal")
	case 3:
		v := vnd.String(1 + vnd.Choose(n+1))
		roundTrip("<r><a>" + v + "</a></r>")
	}
}

// H_marshal_ns: namespace declarations at every level, prefixed and
// unprefixed element and attribute names.
func H_marshal_ns() {
	d := func() string {
		s := ""
		k := vnd.Choose(4)
		if k&1 != 0 {
			s += " xmlns='" + vnd.StringOf("uv", vnd.Choose(2)) + "'"
		}
		if k&2 != 0 {
			s += " xmlns:p='" + vnd.StringOf("uv", 1) + "'"
		}
		return s
	}
	pf := func() string {
		if vnd.Choose(2) == 1 {
			return "p:"
		}
		return ""
	}
	b, c := pf(), pf()
	a := ""
	if vnd.Choose(2) == 1 {
		a = " " + pf() + "k='1'"
	}
	doc := "<r" + d() + "><" + b + "m" + d() + a + "><" + c + "n"
	if vnd.Tier() == 1 {
		doc += d()
	}
	roundTrip(doc + "/></" + b + "m></r>")
}

// H_marshal_shapes: nesting, siblings, leaves with and without content.
func H_marshal_shapes() {
	var gen func(d int) string
	gen = func(d int) string {
		n := 5
		if d == 0 {
			n = 3
		}
		switch vnd.Choose(n) {
		case 0:
			return ""
		case 1:
			return vnd.StringOf("a \n", 1)
		case 2:
			return "<![CDATA[<b>]]>&amp;<!--x-->"
		case 3:
			return "<a>" + gen(d-1) + "</a> \n<b xmlns='u'/>"
		}
		return "<a/><q:b xmlns:q='v' q:k='&#34;'>" + gen(d-1) + "</q:b>"
	}
	roundTrip("<r xmlns:w='w'>" + gen(2+vnd.Tier()) + "</r>")
}

// H_marshal_modified: documents whose attributes were set and children
// removed or repeated after parsing.
func H_marshal_modified() {
	el, _ := parseBoth("<r xmlns='u' xmlns:p='v' p:a='1'><p:m a='2' xmlns:p='w'><n p:a='3'>x</n></p:m><m/><p:n>t</p:n></r>")
	v := vnd.String(2)
	if vnd.Tier() == 0 {
		v = vnd.StringOf("a<&\"'\n]>", 2)
	}
	switch vnd.Choose(4) {
	case 0:
		el.SetAttr("", "a", v)
	case 1:
		el.SetAttr("v", "b", v)
	case 2:
		el.Children[0].SetAttr("w", "a", v)
	case 3:
		el.Children[0].Children[0].SetAttr("u", "a", v)
		vnd.Assume(false) // no prefix for u usable in an attribute there
	}
	for _, c := range []byte(v) {
		vnd.Assume(c == 9 || c == 10 || c == 13 || c >= 32 && c < 127)
	}
	k := vnd.Choose(3)
	switch vnd.Choose(3) {
	case 1:
		el.Children = append(el.Children[:k:k], el.Children[k+1:]...)
	case 2:
		el.Children = append(el.Children, el.Children[k])
	}
	out := xmltree.Marshal(el)
	vnd.Observe("marshalled", string(out))
	back, err := xmltree.Parse(out)
	vnd.Assert(err == nil, "Marshal output does not parse")
	same(el, back, nil, "Marshal")
	back, err = xmltree.Parse(xmltree.MarshalIndent(el, "", "\t"))
	vnd.Assert(err == nil, "MarshalIndent output does not parse")
	same(el, back, nil, "MarshalIndent")
}

// H_marshal_long: more elements than the nesting limit, side by side; deep
// nesting below it; long text.
func H_marshal_long() {
	k := vnd.StringOf("ab", 1)
	doc := "<r xmlns='u'>"
	var size int
	switch vnd.Choose(4) {
	case 0:
		size = 3002
		doc += strings.Repeat("<i/>", size) + "<" + k + "/>"
		size++
	case 1:
		size = 3003
		doc += "<m>" + strings.Repeat("<i><j/></i>", size/3) + strings.Repeat("<i a='1'/>", size/3) + "<" + k + ">t</" + k + "></m>"
		size += 2
	case 2:
		size = 200
		doc += strings.Repeat("<i>", size) + "<" + k + "/>" + strings.Repeat("</i>", size)
		size++
	case 3:
		doc += "<i>" + strings.Repeat("0123456789", 7000) + "</i><" + k + " a='" + strings.Repeat("x", 9000) + "'/>"
		size = 2
	}
	doc += "</r>"
	el, err := xmltree.Parse([]byte(doc))
	vnd.Assert(err == nil, "rejected a document the tokenizer accepts")
	back, err := xmltree.Parse(xmltree.Marshal(el))
	vnd.Assert(err == nil, "Marshal output does not parse")
	vnd.Assert(len(back.Flatten()) == size, "every element is there")
	same(el, back, nil, "Marshal")
}

// H_marshal_indent: MarshalIndent writes what Marshal writes, on lines that
// begin with the prefix and an indent for each level of nesting.
func H_marshal_indent() {
	var depths []int // of the lines, from the shape of the document
	var gen func(d int) string
	gen = func(d int) string {
		s := ""
		for i, n := 0, vnd.Choose(3); i < n; i++ {
			depths = append(depths, d)
			switch vnd.Choose(3) {
			case 0:
				s += "<a k='1'>text</a>"
			case 1:
				s += "<b/>"
			case 2:
				if d > 1+vnd.Tier() {
					vnd.Assume(false)
				}
				in := gen(d + 1)
				if in != "" {
					depths = append(depths, d)
				}
				s += "<c>" + in + "</c>"
			}
		}
		return s
	}
	depths = append(depths, 0)
	in := gen(1)
	if in != "" {
		depths = append(depths, 0)
	}
	el, err := xmltree.Parse([]byte("<r xmlns:p='u'>" + in + "</r>"))
	vnd.Assert(err == nil, "rejected a document the tokenizer accepts")
	prefix := vnd.StringOf("# \t-", vnd.Choose(3))
	indent := vnd.StringOf("# \t.", vnd.Choose(3))
	out := string(xmltree.MarshalIndent(el, prefix, indent))
	vnd.Observe("marshalled", out)
	lines := strings.Split(out, "\n")
	vnd.Assert(len(lines) == len(depths)+1 && lines[len(depths)] == "", "a line for each element without children, two for others")
	plain := ""
	for i, d := range depths {
		lead := prefix + strings.Repeat(indent, d)
		vnd.Assert(strings.HasPrefix(lines[i], lead), "each line begins with the prefix, followed by indentation")
		plain += lines[i][len(lead):]
	}
	vnd.Assert(plain == string(xmltree.Marshal(el)), "apart from that it is what Marshal writes")
}
