package tree

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

// preorder lists the descendants of el in document order.
func preorder(el *xmltree.Element, out []*xmltree.Element) []*xmltree.Element {
	for i := range el.Children {
		c := &el.Children[i]
		out = append(out, c)
		out = preorder(c, out)
	}
	return out
}

// genTree makes a tree with symbolic names and namespaces.
func genTree(depth, width int) xmltree.Element {
	var el xmltree.Element
	el.Name.Local = vnd.StringOf("ab", 1)
	el.Name.Space = vnd.StringOf("uv", vnd.Choose(2))
	if depth > 0 {
		n := vnd.Choose(width + 1)
		for i := 0; i < n; i++ {
			el.Children = append(el.Children, genTree(depth-1, width))
		}
	}
	return el
}

// shapeTree makes a tree of any shape, with up to n elements, by depths.
func shapeTree(n int) *xmltree.Element {
	root := new(xmltree.Element)
	root.Name.Local = "r"
	path := []*xmltree.Element{root}
	for i := 0; i < n; i++ {
		d := vnd.Choose(len(path) + 1)
		if d == len(path) {
			break
		}
		path = path[:d+1]
		p := path[d]
		p.Children = append(p.Children, xmltree.Element{})
		c := &p.Children[len(p.Children)-1]
		c.Name.Local = string(rune('a' + i))
		path = append(path, c)
		// earlier pointers below p may have moved; none is used again
	}
	return root
}

func sameList(got, want []*xmltree.Element, what string) {
	vnd.Assert(len(got) == len(want), what+": number of results")
	for i := range want {
		vnd.Assert(got[i] == want[i], what+": which element")
	}
}

// H_search_shape: every tree shape, any predicate.
func H_search_shape() {
	root := shapeTree(6 + vnd.Tier())
	all := preorder(root, nil)
	vnd.Observe("tree", root.String())
	sameList(root.Flatten(), all, "Flatten")
	// an arbitrary set of wanted elements
	var calls []*xmltree.Element
	var want []*xmltree.Element
	for i := range all {
		if i < 3 && vnd.Bool() {
			want = append(want, all[i])
		} else if i >= 3 && i%2 == 1 {
			want = append(want, all[i])
		}
	}
	k := 0
	got := root.SearchFunc(func(el *xmltree.Element) bool {
		calls = append(calls, el)
		if k < len(want) && want[k] == el {
			k++
			return true
		}
		return false
	})
	sameList(calls, all, "calls")
	sameList(got, want, "SearchFunc")
}

// H_search_name: any names, namespaces and search terms.
func H_search_name() {
	root := genTree(2, 2)
	space := vnd.StringOf("uv", vnd.Choose(2))
	local := vnd.StringOf("ab", vnd.Choose(2))
	var want []*xmltree.Element
	for _, el := range preorder(&root, nil) {
		if el.Name.Local == local && (space == "" || el.Name.Space == space) {
			want = append(want, el)
		}
	}
	got := root.Search(space, local)
	sameList(got, want, "Search")
	if len(got) > 1 {
		vnd.Cover("several")
	}
}

// H_search_doc: on a parsed document; results point into the tree.
func H_search_doc() {
	c := func() string {
		n := vnd.StringOf("ab", 1)
		return "<" + n + ">" + "<a/>" + "</" + n + ">"
	}
	el, err := xmltree.Parse([]byte("<a xmlns='u'>" + c() + "<b xmlns='v'>" + c() + "</b>" + c() + "</a>"))
	vnd.Assert(err == nil, "parse")
	space := []string{"", "u", "v", "w"}[vnd.Choose(4)]
	var want []*xmltree.Element
	for _, e := range preorder(el, nil) {
		if e.Name.Local == "a" && (space == "" || e.Name.Space == space) {
			want = append(want, e)
		}
	}
	got := el.Search(space, "a")
	sameList(got, want, "Search")
	for _, e := range got {
		e.SetAttr("", "seen", "1")
	}
	n := 0
	for _, e := range preorder(el, nil) {
		if e.Attr("", "seen") == "1" {
			n++
		}
	}
	vnd.Assert(n == len(got), "results point into the tree")
}

// H_search_big: long and deep trees.
func H_search_big() {
	n := []int{1, 2, 17, 64, 65, 300, 2500}[vnd.Choose(7)]
	root := new(xmltree.Element)
	switch vnd.Choose(3) {
	case 0: // wide
		root.Children = make([]xmltree.Element, n)
	case 1: // deep
		e := root
		for i := 0; i < n; i++ {
			e.Children = make([]xmltree.Element, 1)
			e = &e.Children[0]
		}
	case 2: // both
		e := root
		for i := 0; i < n; i++ {
			e.Children = make([]xmltree.Element, 3)
			e = &e.Children[1]
		}
	}
	all := preorder(root, nil)
	for i, e := range all {
		e.Name.Local = []string{"a", "b", "c"}[i%3]
	}
	sameList(root.Flatten(), all, "Flatten")
	var want []*xmltree.Element
	for i, e := range all {
		if i%3 == 1 {
			want = append(want, e)
		}
	}
	sameList(root.Search("", "b"), want, "Search")
}
