package tree

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

func checkParse(doc []byte) {
	orig := string(doc)
	n, rerr := refParse([]byte(orig))
	el, err := xmltree.Parse(doc)
	vnd.Observe("doc", orig)
	vnd.Assert(string(doc) == orig, "Parse modified its input")
	if rerr != nil {
		vnd.Cover("rejected")
		vnd.Assert(err != nil, "accepted a document the tokenizer rejects")
		return
	}
	vnd.Cover("accepted")
	vnd.Assert(err == nil, "rejected a document the tokenizer accepts")
	checkTree(el, n)
	if len(n.kids) > 0 {
		vnd.Cover("children")
	}
}

// H_parse_any: every byte string.
func H_parse_any() {
	n := 5 + vnd.Tier()
	k := vnd.Choose(n + 1)
	checkParse(vnd.Bytes(k))
}

// H_parse_body: every string of markup characters inside a root element.
func H_parse_body() {
	k := vnd.Choose(8 + vnd.Tier())
	body := vnd.StringOf("<>/a= \"!-", k)
	checkParse([]byte("<a b='c'>" + body + "</a>"))
}

// H_parse_tag: every string inside a start tag.
func H_parse_tag() {
	k := vnd.Choose(8 + vnd.Tier())
	body := vnd.StringOf("abx:=' />", k)
	checkParse([]byte("<p:r xmlns:p='u' " + body + "x='1' p:x=\"2\"><p:a/></p:r>"))
}

func name1() string { return vnd.StringOf("ab", 1) }

func prolog() string {
	switch vnd.Choose(5) {
	case 0:
		return ""
	case 1:
		return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
	case 2:
		return "<!-- <x> --><?pi <y?>"
	case 3:
		return " \n<!DOCTYPE r [<!ENTITY e \"<z>\">]>\n"
	}
	return "text"
}

func items(depth, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		k := 9
		if depth == 0 {
			k = 7
		}
		switch vnd.Choose(k) {
		case 0:
			return s
		case 1:
			s += vnd.StringOf("ab \n>", 2)
		case 2:
			s += "&lt;" + name1()
		case 3:
			s += "<!--</a>-->"
		case 4:
			s += "<![CDATA[</a>]]>"
		case 5:
			s += "<?pi </a>?>"
		case 6:
			s += "<" + name1() + " k='" + vnd.StringOf("ab<", 1) + "' />"
		case 7:
			m := name1()
			s += "<" + m + " xmlns='" + name1() + "' j=\"'\" >" + items(depth-1, n-1) + "</" + m + "\n>"
		case 8:
			s += "<b:" + name1() + " xmlns:b='v' b:c='d'>" + items(depth-1, n-1) + "</b:" + name1() + ">"
		}
	}
	return s
}

// H_parse_struct: documents made of every kind of markup, nested.
func H_parse_struct() {
	d := 1
	pro := prolog()
	n := 2 + vnd.Tier()
	tail := ""
	if vnd.Choose(2) == 1 {
		tail = "<trailing"
	}
	checkParse([]byte(pro + "<r q:w='&quot;'>" + items(d, n) + "</r>" + tail))
}

// H_parse_deep: nesting up to and over the limit.
func H_parse_deep() {
	n := 2999 + vnd.Choose(4)
	doc := make([]byte, 0, 8*n)
	for i := 0; i < n; i++ {
		doc = append(doc, "<a>"...)
	}
	for i := 0; i < n; i++ {
		doc = append(doc, "</a>"...)
	}
	el, err := xmltree.Parse(doc)
	if n <= 3000 {
		vnd.Assert(err == nil, "a document of 3000 levels is accepted")
		d := 0
		for e := el; ; e = &e.Children[0] {
			d++
			if len(e.Children) == 0 {
				break
			}
		}
		vnd.Assert(d == n, "depth")
	}
}

// H_parse_wide: more siblings than levels allowed, below any node, and more
// below one of them.
func H_parse_wide() {
	n := 3100
	doc := make([]byte, 0, 10*n)
	doc = append(doc, "<r><first>"...)
	at := 0
	if vnd.Bool() {
		at = n / 2
	}
	for i := 0; i < n; i++ {
		if i == at {
			doc = append(doc, "<b><c>"...)
			doc = append(doc, vnd.StringOf("xy", 1)...)
			doc = append(doc, "</c></b>"...)
			continue
		}
		doc = append(doc, "<a/>"...)
	}
	doc = append(doc, "</first><last/></r>"...)
	el, err := xmltree.Parse(doc)
	vnd.Assert(err == nil, "a document of three levels is accepted")
	vnd.Assert(len(el.Children) == 2 && len(el.Children[0].Children) == n && len(el.Children[1].Children) == 0, "all siblings")
	b := el.Children[0].Children[at]
	vnd.Assert(b.Name.Local == "b" && len(b.Children) == 1 && len(b.Children[0].Content) == 1, "the one with a child")
}

// H_parse_attrs: attributes and namespace declarations of every kind, with
// any values, on the root and on a child.
func H_parse_attrs() {
	names := []string{"a", "a:b", "b:a", "xmlns", "xmlns:a", "xmlns:b", "a:xmlns", "xml:lang", "xmlns:xmlns"}
	odd := vnd.Choose(4)
	k := 0
	attrs := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			c := vnd.Choose(len(names) + 1)
			if c == len(names) {
				break
			}
			v := vnd.StringOf("uv", 1)
			q := "'"
			if k == odd {
				v = vnd.StringOf("uv'\"&;< \n", 1+vnd.Tier())
				q = "\""
			}
			k++
			s += " " + names[c] + "=" + q + v + q
		}
		return s
	}
	checkParse([]byte("<r" + attrs(2) + "><a:c" + attrs(1+vnd.Tier()) + "/></r>"))
}
