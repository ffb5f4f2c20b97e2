package tree

import (
	"bytes"
	"encoding/xml"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

// anything takes whatever an element holds.
type anything struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	Kids    []anything `xml:",any"`
}

// particular takes some things by name, the way generated types do.
type particular struct {
	K     string       `xml:"k,attr"`
	VK    string       `xml:"v l,attr"`
	N     []int        `xml:"n"`
	UN    *uint8       `xml:"u i"`
	Deep  []string     `xml:"m>n"`
	VM    []particular `xml:"v p"`
	Flag  bool         `xml:"f,attr"`
	Other []anything   `xml:",any"`
}

// at decodes the ith element of doc, in document order, with the standard
// decoder.
func at(doc string, i int, v interface{}) error {
	d := xml.NewDecoder(bytes.NewReader([]byte(doc)))
	for {
		tok, err := d.Token()
		vnd.Assert(err == nil, "the reference cannot read the document")
		if t, ok := tok.(xml.StartElement); ok {
			if i == 0 {
				return d.DecodeElement(v, &t)
			}
			i--
		}
	}
}

func sameAnything(a, b *anything) {
	vnd.Assert(sameName(a.XMLName, b.XMLName), "name decoded")
	var as, bs []xml.Attr
	for _, x := range a.Attrs {
		if _, ok := isDecl(x); !ok {
			as = append(as, x)
		}
	}
	for _, x := range b.Attrs {
		if _, ok := isDecl(x); !ok {
			bs = append(bs, x)
		}
	}
	vnd.Assert(len(as) == len(bs), "number of attributes decoded")
	for i := range as {
		vnd.Assert(vnd.And(sameName(as[i].Name, bs[i].Name), as[i].Value == bs[i].Value), "attribute decoded")
	}
	vnd.Assert(len(a.Kids) == len(b.Kids), "number of children decoded")
	if len(a.Kids) == 0 {
		vnd.Assert(a.Text == b.Text, "text decoded")
	}
	for i := range a.Kids {
		sameAnything(&a.Kids[i], &b.Kids[i])
	}
}

func sameParticular(a, b *particular) {
	vnd.Assert(a.K == b.K && a.VK == b.VK && a.Flag == b.Flag, "attributes decoded into fields")
	vnd.Assert(len(a.N) == len(b.N), "numbers decoded")
	for i := range a.N {
		vnd.Assert(a.N[i] == b.N[i], "number decoded")
	}
	vnd.Assert((a.UN == nil) == (b.UN == nil), "pointer decoded")
	if a.UN != nil && b.UN != nil {
		vnd.Assert(*a.UN == *b.UN, "value behind a pointer decoded")
	}
	vnd.Assert(len(a.Deep) == len(b.Deep), "inner elements decoded")
	for i := range a.Deep {
		vnd.Assert(a.Deep[i] == b.Deep[i], "inner element decoded")
	}
	vnd.Assert(len(a.VM) == len(b.VM), "structs decoded")
	for i := range a.VM {
		sameParticular(&a.VM[i], &b.VM[i])
	}
	vnd.Assert(len(a.Other) == len(b.Other), "other elements decoded")
	for i := range a.Other {
		sameAnything(&a.Other[i], &b.Other[i])
	}
}

func checkUnmarshal(doc string) {
	root, ref := parseBoth(doc)
	vnd.Assume(ref.declared("uvw"))
	all := append([]*xmltree.Element{root}, root.Flatten()...)
	for i, el := range all {
		var a, b anything
		err, want := xmltree.Unmarshal(el, &a), at(doc, i, &b)
		vnd.Assert(err == nil && want == nil, "Unmarshal fails on a document")
		sameAnything(&a, &b)
		var p, q particular
		err, want = xmltree.Unmarshal(el, &p), at(doc, i, &q)
		vnd.Assert((err == nil) == (want == nil), "Unmarshal fails exactly when the value does not fit")
		if err == nil {
			sameParticular(&p, &q)
			vnd.Cover("decoded")
		} else {
			vnd.Cover("does not fit")
		}
	}
	checkTree(root, ref)
}

// H_unmarshal_name: names that mean something in HTML or to Go mean nothing
// in XML.
func H_unmarshal_name() {
	var name string
	switch vnd.Choose(3) {
	case 0:
		name = vnd.StringOf("bhrcol", 2+vnd.Choose(2))
	case 1:
		name = vnd.StringOf("xXmMlLnNs", 3)
	case 2:
		name = []string{"link", "META", "input", "base", "param", "area", "img", "frame", "script", "style", "html", "XMLName"}[vnd.Choose(12)]
	}
	checkUnmarshal("<r><" + name + " xml:space='preserve'> <n>1</n>t</" + name + "><n>2</n><" + name + "/></r>")
}

// H_unmarshal_ns: what is decoded at an element depends on declarations
// anywhere above it.
func H_unmarshal_ns() {
	d := func() string {
		s := ""
		k := vnd.Choose(4)
		if k&1 != 0 {
			s += " xmlns='" + vnd.StringOf("uv", vnd.Choose(2)) + "'"
		}
		if k&2 != 0 {
			s += " xmlns:p='" + vnd.StringOf("uv", 1) + "'"
		}
		return s
	}
	pf := func() string {
		if vnd.Choose(2) == 1 {
			return "p:"
		}
		return ""
	}
	b, c := pf(), pf()
	a := ""
	if vnd.Choose(2) == 1 {
		a = " " + pf() + string("kl"[vnd.Choose(2)]) + "='1'"
	}
	doc := "<r" + d() + "><" + b + "m" + d() + a + "><" + c + "n"
	if vnd.Tier() == 1 {
		doc += d()
	}
	checkUnmarshal(doc + ">7</" + c + "n></" + b + "m><" + b + "i>5</" + b + "i><" + c + "p k='2'/></r>")
}

// H_unmarshal_value: any text where numbers, booleans and text are expected.
func H_unmarshal_value() {
	n := 1 + vnd.Choose(2+vnd.Tier())
	v := vnd.StringOf("17-+ xt\nf", n)
	switch vnd.Choose(4) {
	case 0:
		checkUnmarshal("<r><n>" + v + "</n></r>")
	case 1:
		checkUnmarshal("<r xmlns='u'><n>2" + v + "</n><i>" + v + "</i></r>")
	case 2:
		checkUnmarshal("<r xmlns:v='v'><v:p f='" + v + "' v:l='" + v + "'/></r>")
	case 3:
		checkUnmarshal("<r><m><n>" + v + "</n><o/><n>&lt;<![CDATA[" + v + "]]></n></m><n>3</n></r>")
	}
}

// H_unmarshal_shapes: nesting, siblings, leaves with and without content.
func H_unmarshal_shapes() {
	var gen func(d int) string
	gen = func(d int) string {
		n := 5
		if d == 0 {
			n = 3
		}
		switch vnd.Choose(n) {
		case 0:
			return ""
		case 1:
			return "<n>" + vnd.StringOf("5 a", 1) + "</n>"
		case 2:
			return "<n>1<!--x--></n>"
		case 3:
			return "<m>" + gen(d-1) + "</m> \n<n xmlns='u'>9</n>"
		}
		return "<n>4</n><q:p xmlns:q='v' q:l='&#34;'>" + gen(d-1) + "</q:p><q:x xmlns:q='w' q:q='1'/>"
	}
	checkUnmarshal("<r xmlns:w='w'>" + gen(2+vnd.Tier()) + "</r>")
}

// H_unmarshal_modified: what is decoded is the element as it is now.
func H_unmarshal_modified() {
	root, _ := parseBoth("<r xmlns='u' xmlns:v='v'><v:p k='a' v:l='b'><v:p v:l='c'><i>3</i></v:p><v:p v:l='d'/></v:p><o/></r>")
	el := &root.Children[0]
	k, l, num := vnd.StringOf("xy<\"", 1), vnd.StringOf("xy<\"", 2), vnd.StringOf("0123", 1)
	el.SetAttr("", "k", k)
	el.Children[0].SetAttr("v", "l", l)
	el.Children[0].Children[0].Content = []byte("1" + num + "<!-- -->")
	drop := vnd.Choose(2) == 1
	if drop {
		el.Children = el.Children[:1]
	} else {
		el.Children = append(el.Children, el.Children[0])
	}
	var p particular
	vnd.Assert(xmltree.Unmarshal(el, &p) == nil, "a modified element is decoded")
	vnd.Assert(p.K == k && p.VK == "b", "attributes as they are now")
	if drop {
		vnd.Assert(len(p.VM) == 1, "children as they are now")
	} else {
		vnd.Assert(len(p.VM) == 3 && p.VM[1].VK == "d" && p.VM[2].VK == l && p.VM[2].UN != nil, "children as they are now")
	}
	vnd.Assert(p.VM[0].VK == l && p.VM[0].UN != nil && *p.VM[0].UN == 10+num[0]-'0', "content as it is now")
}
