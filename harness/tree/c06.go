package tree

import (
	"bytes"
	"encoding/xml"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

func sameAttrs(a, b *node) bool {
	if len(a.attrs) != len(b.attrs) {
		return false
	}
	for _, x := range a.attrs {
		found := false
		for _, y := range b.attrs {
			if x.Name == y.Name && x.Value == y.Value {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// refEqual looks for a permutation of the children.
func refEqual(a, b *node) bool {
	if a.name != b.name || !sameAttrs(a, b) || len(a.kids) != len(b.kids) {
		return false
	}
	if len(a.kids) == 0 {
		return bytes.Equal(bytes.TrimSpace(a.content), bytes.TrimSpace(b.content))
	}
	return refMatch(a.kids, b.kids, 0, make([]bool, len(b.kids)))
}

func refMatch(a, b []*node, i int, used []bool) bool {
	if i == len(a) {
		return true
	}
	for j := range b {
		if !used[j] && refEqual(a[i], b[j]) {
			used[j] = true
			if refMatch(a, b, i+1, used) {
				return true
			}
			used[j] = false
		}
	}
	return false
}

func checkEqual(d1, d2 string) {
	a, ra := parseBoth(d1)
	b, rb := parseBoth(d2)
	want := refEqual(ra, rb)
	if want {
		vnd.Cover("equal")
	} else {
		vnd.Cover("different")
	}
	got := xmltree.Equal(a, b)
	vnd.Assert(got == want, "Equal(a, b)")
	vnd.Assert(xmltree.Equal(b, a) == want, "Equal(b, a)")
	vnd.Assert(xmltree.Equal(a, a), "Equal(a, a)")
	checkTree(a, ra)
	checkTree(b, rb)
}

// H_equal_flat: two elements with up to three children each.
func H_equal_flat() {
	gen := func(n int) string {
		s := "<r>"
		for i := 0; i < n; i++ {
			nm := vnd.StringOf("ab", 1)
			s += "<" + nm + ">" + vnd.StringOf("xy", 1) + "</" + nm + ">"
		}
		return s + "</r>"
	}
	n := vnd.Choose(4)
	m := n
	if vnd.Choose(2) == 1 {
		m = vnd.Choose(3)
	}
	checkEqual(gen(n), gen(m))
}

// H_equal_three: three same-named children in any order.
func H_equal_three() {
	gen := func() string {
		s := "<r>"
		for i := 0; i < 3; i++ {
			s += "<a k='" + vnd.StringOf("xy", 1) + "'/>"
		}
		return s + "</r>"
	}
	checkEqual(gen(), gen())
}

// H_equal_attrs: attributes present, absent, reordered, qualified.
func H_equal_attrs() {
	gen := func() string {
		a := []string{"", " a='" + vnd.StringOf("12", 1) + "'", " p:a='1'", " xmlns='u'", " b='2'"}
		i := vnd.Choose(len(a))
		j := vnd.Choose(len(a))
		vnd.Assume(i != j || i == 0)
		return "<p:r xmlns:p='u'" + a[i] + a[j] + "/>"
	}
	checkEqual(gen(), gen())
}

// H_equal_values: values of attributes are compared as they are, with their
// case and white space.
func H_equal_values() {
	gen := func() string {
		v := vnd.StringOf("aA 0", vnd.Choose(3+vnd.Tier()))
		if vnd.Choose(2) == 1 {
			return "<r k='" + v + "'/>"
		}
		return "<r><e k='" + v + "'>t</e></r>"
	}
	checkEqual(gen(), gen())
}

// H_equal_ns: prefixes differ, namespaces may or may not.
func H_equal_ns() {
	gen := func() string {
		u := vnd.StringOf("uv", 1)
		switch vnd.Choose(4) {
		case 0:
			return "<r xmlns='" + u + "'><a/></r>"
		case 1:
			return "<p:r xmlns:p='" + u + "'><p:a/></p:r>"
		case 2:
			return "<q:r xmlns:q='u'><a xmlns='" + u + "'/></q:r>"
		}
		return "<r xmlns='u'><a xmlns='" + vnd.StringOf("uv", vnd.Choose(2)) + "'/></r>"
	}
	checkEqual(gen(), gen())
}

// H_equal_nested: order differences at two levels.
func H_equal_nested() {
	leaf := func() string {
		if vnd.Choose(3) == 0 {
			return ""
		}
		nm := vnd.StringOf("ab", 1)
		return "<" + nm + "/>"
	}
	gen := func() string {
		s := "<r>"
		for i := 0; i < 2; i++ {
			s += "<a>" + leaf()
			if i == 0 || vnd.Tier() == 1 {
				s += leaf()
			}
			s += "</a>"
		}
		return s + "</r>"
	}
	checkEqual(gen(), gen())
}

// H_equal_space: text up to surrounding white space; names split differently
// between namespace and local part.
func H_equal_space() {
	t := func() string { return "<r>" + vnd.StringOf("a \n\t", 3) + "</r>" }
	if vnd.Choose(2) == 0 {
		checkEqual(t(), t())
		return
	}
	k := func() string {
		switch vnd.Choose(3) {
		case 0:
			return "<ab xmlns='u'/>"
		case 1:
			return "<b xmlns='ua'/>"
		}
		return "<b xmlns='ua'>x</b>"
	}
	checkEqual("<r>"+k()+k()+"</r>", "<r>"+k()+k()+"</r>")
}

// H_equal_mixed: white space and text between children does not matter.
func H_equal_mixed() {
	g := func() string {
		return "<r>" + vnd.StringOf("x \n", 1) + "<a/>" + vnd.StringOf("x \n", vnd.Choose(2)) + "<b>1</b></r>"
	}
	checkEqual(g(), g())
}

// H_equal_deep: nested as deeply as Parse accepts.
func H_equal_deep() {
	n := []int{10, 999, 1001, 1002, 1500, 3000}[vnd.Choose(6)]
	doc := strings.Repeat("<a>", n) + vnd.StringOf("xy", 1) + strings.Repeat("</a>", n)
	el, err := xmltree.Parse([]byte(doc))
	vnd.Assert(err == nil, "parse")
	el2, err := xmltree.Parse([]byte(strings.Repeat("<a>", n) + "x" + strings.Repeat("</a>", n)))
	vnd.Assert(err == nil, "parse")
	d, e := el, el2
	for len(d.Children) > 0 {
		d, e = &d.Children[0], &e.Children[0]
	}
	vnd.Assert(xmltree.Equal(el, el2) == (string(d.Content) == string(e.Content)), "Equal(a, b)")
	vnd.Assert(xmltree.Equal(el, el), "Equal(a, a)")
}

// H_equal_wide: many children, rotated and with one of them changed.
func H_equal_wide() {
	n := []int{5, 13, 20, 40}[vnd.Choose(4)]
	rot := vnd.Choose(3) * (n / 3)
	changed := vnd.Choose(3) * (n / 4)
	t := vnd.StringOf("xy", 1)
	gen := func(rot int, v string) string {
		s := "<r>"
		for i := 0; i < n; i++ {
			j := (i + rot) % n
			nm := []string{"a", "b", "c"}[j%3]
			c := string(rune(0x40 + j))
			if j == changed {
				c = v
			}
			s += "<" + nm + " k='" + c + "'><d>" + c + "</d></" + nm + ">"
		}
		return s + "</r>"
	}
	checkEqual(gen(0, "x"), gen(rot, t))
}

// H_equal_built: elements with namespace declarations among their attributes,
// as the standard decoder gives them.
func H_equal_built() {
	gen := func() (*xmltree.Element, map[string]string) {
		el := &xmltree.Element{StartElement: xml.StartElement{Name: xml.Name{Local: "r"}}}
		m := make(map[string]string)
		n := vnd.Choose(3 + vnd.Tier())
		for i := 0; i < n; i++ {
			v := vnd.StringOf("12", 1)
			switch vnd.Choose(4) {
			case 0:
				el.StartElement.Attr = append(el.StartElement.Attr, xml.Attr{Name: xml.Name{Space: "xmlns", Local: "p"}, Value: v})
			case 1:
				el.StartElement.Attr = append(el.StartElement.Attr, xml.Attr{Name: xml.Name{Local: "xmlns"}, Value: v})
			case 2:
				_, dup := m["a"]
				vnd.Assume(!dup)
				m["a"] = v
				el.StartElement.Attr = append(el.StartElement.Attr, xml.Attr{Name: xml.Name{Local: "a"}, Value: v})
			case 3:
				_, dup := m["b"]
				vnd.Assume(!dup)
				m["b"] = v
				el.StartElement.Attr = append(el.StartElement.Attr, xml.Attr{Name: xml.Name{Local: "b"}, Value: v})
			}
		}
		return el, m
	}
	a, am := gen()
	b, bm := gen()
	want := len(am) == len(bm)
	for k, v := range am {
		w, ok := bm[k]
		if !ok || v != w {
			want = false
		}
	}
	vnd.Assert(xmltree.Equal(a, b) == want, "Equal(a, b)")
	vnd.Assert(xmltree.Equal(b, a) == want, "Equal(b, a)")
	vnd.Cover("compared")
}
