package tree

import (
	"encoding/xml"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

func anyAttr() xml.Attr {
	return xml.Attr{Name: xml.Name{Space: vnd.StringOf("uv", vnd.Choose(2)), Local: vnd.StringOf("ab", 1)}, Value: vnd.StringOf("12", vnd.Choose(2))}
}

func attrMatch(a xml.Attr, space, local string) bool {
	return vnd.And(a.Name.Local == local, space == "" || a.Name.Space == space)
}

// H_attr_setget: any attribute list, any name, any value.
func H_attr_setget() {
	n := vnd.Choose(4 + vnd.Tier())
	var el xmltree.Element
	el.Name.Local = "r"
	if vnd.Choose(2) == 1 {
		el.StartElement.Attr = make([]xml.Attr, 0, 8)
	}
	for i := 0; i < n; i++ {
		el.StartElement.Attr = append(el.StartElement.Attr, anyAttr())
	}
	space := vnd.StringOf("uv", vnd.Choose(2))
	local := vnd.StringOf("ab", 1)
	value := vnd.String(2)
	before := append([]xml.Attr(nil), el.StartElement.Attr...)

	first := -1
	for i := range before {
		if attrMatch(before[i], space, local) {
			first = i
			break
		}
	}
	want := ""
	if first >= 0 {
		want = before[first].Value
	}
	vnd.Assert(el.Attr(space, local) == want, "Attr before")
	vnd.Assert(len(el.StartElement.Attr) == n, "Attr changed the list")

	el.SetAttr(space, local, value)
	after := el.StartElement.Attr
	vnd.Assert(el.Attr(space, local) == value, "Attr after SetAttr")
	if first >= 0 {
		vnd.Cover("replaced")
		vnd.Assert(len(after) == n, "replaced in place")
	} else {
		vnd.Cover("appended")
		vnd.Assert(len(after) == n+1, "one attribute appended")
		vnd.Assert(vnd.And(sameName(after[n].Name, xml.Name{Space: space, Local: local}), after[n].Value == value), "appended attribute")
	}
	for i := range before {
		vnd.Assert(sameName(after[i].Name, before[i].Name), "other names kept")
		if i != first {
			vnd.Assert(after[i].Value == before[i].Value, "other values kept")
		} else {
			vnd.Assert(after[i].Value == value, "new value")
		}
	}
}

// H_attr_doc: on parsed documents, with siblings that must not change.
func H_attr_doc() {
	pre := func() string { return []string{"", "p:", "q:"}[vnd.Choose(3)] }
	p1 := pre()
	doc := "<r xmlns:p='u' xmlns:q='v'><m " + p1 + "a='1' b='2' " + "/><m a='3'/></r>"
	el, err := xmltree.Parse([]byte(doc))
	vnd.Assert(err == nil, "parse")
	space := []string{"", "u", "v"}[vnd.Choose(3)]
	m := &el.Children[0]
	v := vnd.String(1)
	m.SetAttr(space, "a", v)
	vnd.Observe("doc", doc)
	vnd.Assert(m.Attr(space, "a") == v, "Attr after SetAttr")
	vnd.Assert(m.Attr("", "b") == "2", "other attribute")
	vnd.Assert(el.Children[1].Attr("", "a") == "3", "other element")
	vnd.Assert(len(el.Children[1].StartElement.Attr) == 1, "other element")
	m.SetAttr(space, "c", v)
	m.SetAttr(space, "d", "x")
	vnd.Assert(m.Attr(space, "c") == v, "Attr after SetAttr")
	vnd.Assert(m.Attr(space, "a") == v, "earlier attribute")
	vnd.Assert(el.Attr("", "c") == "", "parent")
	vnd.Assert(el.Children[1].Attr("", "c") == "", "sibling")
}
