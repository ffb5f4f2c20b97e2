package tree

import (
	"bytes"
	"io"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
	"golang.org/x/net/html/charset"
)

func transcode(label string, b []byte) []byte {
	r, err := charset.NewReaderLabel(label, bytes.NewReader(b))
	vnd.Assert(err == nil, "supported label")
	out, err := io.ReadAll(r)
	vnd.Assert(err == nil, "transcoding")
	return out
}

func exact(a, b *xmltree.Element) {
	vnd.Assert(sameName(a.Name, b.Name), "element name")
	vnd.Assert(len(a.StartElement.Attr) == len(b.StartElement.Attr), "number of attributes")
	for i, x := range a.StartElement.Attr {
		y := b.StartElement.Attr[i]
		vnd.Assert(vnd.And(sameName(x.Name, y.Name), x.Value == y.Value), "attribute")
	}
	vnd.Assert(string(a.Content) == string(b.Content), "content")
	vnd.Assert(len(a.Children) == len(b.Children), "number of children")
	for i := range a.Children {
		exact(&a.Children[i], &b.Children[i])
	}
}

func checkCharset(label, gap, body string) {
	head := `<?xml version="1.0" encoding="`
	doc := []byte(head + label + `"?>` + gap + body)
	orig := string(doc)
	u := head + "UTF-8" + `"?>` + string(transcode(label, []byte(gap+body)))
	vnd.Observe("label", label)
	if len(orig) < 400 {
		vnd.Observe("doc", orig)
	}
	want, werr := xmltree.Parse([]byte(u))
	got, err := xmltree.Parse(doc)
	vnd.Assert(string(doc) == orig, "Parse modified its input")
	if werr != nil {
		vnd.Cover("rejected")
		vnd.Assert(err != nil, "accepted a document whose transcoding is rejected")
		return
	}
	vnd.Cover("accepted")
	vnd.Assert(err == nil, "rejected a document whose transcoding is accepted")
	exact(got, want)
}

var labels = []string{"ISO-8859-1", "windows-1252", "iso-8859-15", "koi8-r", "US-ASCII"}

// H_charset_text: any bytes in content and in an attribute.
func H_charset_text() {
	l := labels[vnd.Choose(len(labels))]
	gap := []string{"", "\n", "\r\n ", "<!--x-->"}[vnd.Choose(4)]
	a, b := "\xe9", "x\xa4"
	if vnd.Choose(2) == 0 {
		a = vnd.String(1 + vnd.Tier())
	} else {
		b = vnd.String(1 + vnd.Tier())
	}
	checkCharset(l, gap, "<r a='"+a+"'><b>"+b+"</b>é<c/></r>")
}

// H_charset_body: markup next to bytes over 0x7f.
func H_charset_body() {
	l := labels[vnd.Choose(2)]
	k := vnd.Choose(5 + vnd.Tier())
	gap := []string{"", "\n"}[vnd.Choose(2)]
	checkCharset(l, gap, "<r>"+vnd.StringOf("<>/a \xe9\x80", k)+"</r>")
}

// H_charset_long: documents over the size of the buffers on the way.
func H_charset_long() {
	l := labels[vnd.Choose(3)]
	n := []int{0, 1, 500, 2047, 4090, 4096, 5000, 9000}[vnd.Choose(8)]
	fill := []string{"a", "\xe9", "<x/>\xa4"}[vnd.Choose(3)]
	gap := []string{"", "\n"}[vnd.Choose(2)]
	body := "<r><a>" + strings.Repeat(fill, n/len(fill)) + "</a><b k='" + vnd.StringOf("x\xe9", 1) + "'>" + vnd.StringOf("y\xe8&", 1) + "</b></r>"
	checkCharset(l, gap, body)
}

// H_charset_huge: documents of many buffers.
func H_charset_huge() {
	l := labels[vnd.Choose(3)]
	n := []int{65000, 65536, 70000, 140000}[vnd.Choose(3+vnd.Tier())]
	body := "<r><a>" + strings.Repeat("\xe9", n) + "</a><b k='" + vnd.StringOf("x\xe9", 1) + "'>" + vnd.StringOf("y\xe8&", 1) + "</b></r>"
	checkCharset(l, "", body)
}

// H_charset_gap: anything between the declaration and the root element.
func H_charset_gap() {
	k := vnd.Choose(4 + vnd.Tier())
	checkCharset("iso-8859-1", vnd.StringOf("\n <!-?>\xe9", k), "<r>\xe9</r>")
}

// H_charset_none: a label that is not supported is an error.
func H_charset_none() {
	l := vnd.StringOf("abq-8", 3)
	doc := []byte(`<?xml version="1.0" encoding="` + l + `"?><r>x</r>`)
	_, lerr := charset.NewReaderLabel(l, bytes.NewReader(nil))
	el, err := xmltree.Parse(doc)
	vnd.Assert((err == nil) == (lerr == nil), "unsupported encodings are errors")
	if err == nil {
		vnd.Assert(string(el.Content) == "x", "content")
	}
}

// H_charset_twice: an encoding declared where it should not be, which the
// tokenizer obeys, and which must not make Parse panic or lose its place.
func H_charset_twice() {
	l := []string{"latin1", "koi8-r", "utf-8"}[vnd.Choose(3)]
	pi := `<?xml version="1.0" encoding="` + l + `"?>`
	n := 1 + vnd.Choose(3)
	t := vnd.StringOf("\xc3\xa9<", n) // e acute, in pieces
	doc := ""
	switch vnd.Choose(4) {
	case 0:
		doc = "<r>" + pi + "<a>" + t + "</a></r>"
	case 1:
		doc = pi + pi + "<r>" + t + "</r>"
	case 2:
		doc = "<r><b>xy</b><a k='1'>" + t + pi + t + "</a></r>"
	case 3:
		doc = pi + "<r>\xe9<a>" + pi + "</a>" + t + "</r>"
	}
	vnd.Observe("doc", doc)
	orig := doc
	b := []byte(doc)
	el, err := xmltree.Parse(b)
	vnd.Assert(string(b) == orig, "Parse modified its input")
	if err == nil {
		vnd.Cover("accepted")
		for _, e := range append(el.Flatten(), el) {
			vnd.Observe("content", string(e.Content))
		}
		for _, e := range el.Flatten() {
			if e.Name.Local == "b" {
				vnd.Assert(string(e.Content) == "xy", "content before the declaration")
			}
		}
	}
}
