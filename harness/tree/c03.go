package tree

import (
	"encoding/xml"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

// usable tells whether some prefix (or the default) in scope at n stands for
// the namespace, and whether the namespace is declared there at all.
func (n *node) usable(space string) (usable, declared bool) {
	if space == xmlNS || space == xmlnsNS {
		return true, true
	}
	seenDefault := false
	for e := n; e != nil; e = e.parent {
		for _, d := range e.decls {
			if d.Local == "" {
				seenDefault = true
			}
			if d.Space == space {
				declared = true
				if u, ok := n.resolve(d.Local); ok && u == space {
					usable = true
				}
			}
		}
	}
	if space == "" && !seenDefault {
		usable = true // an unprefixed name is in no namespace
	}
	return
}

func checkPrefix(el *xmltree.Element, n *node, name xml.Name) {
	usable, declared := n.usable(name.Space)
	q := el.Prefix(name)
	if usable {
		vnd.Cover("usable")
		got, _ := el.ResolveNS(q)
		vnd.Assert(sameName(got, name), "Resolve(Prefix(name)) == name")
	} else if !declared {
		vnd.Cover("undeclared")
		vnd.Assert(q == name.Local, "unknown namespace: unqualified name")
	}
}

// H_prefix_doc: every element of a document, every declared namespace.
func H_prefix_doc() {
	el, ref := parseBoth(scopeDoc(1+vnd.Tier(), 1, 1, vnd.Tier()))
	ref.walk(el, func(el *xmltree.Element, n *node) {
		for _, s := range []string{"u", "v", "p", "w", "z", "", xmlNS, xmlnsNS} {
			checkPrefix(el, n, xml.Name{Space: s, Local: "x"})
		}
	})
}

// H_prefix_name: any namespace and local name.
func H_prefix_name() {
	space := vnd.StringOf("uvpq", vnd.Choose(3))
	local := vnd.StringOf("pqx-", vnd.Choose(3))
	el, ref := parseBoth("<r" + decls(2) + "><m" + decls(2) + "/></r>")
	vnd.Observe("space", space)
	vnd.Observe("local", local)
	checkPrefix(&el.Children[0], ref.kids[0], xml.Name{Space: space, Local: local})
}

// H_prefix_many: several levels redeclaring the same few prefixes.
func H_prefix_many() {
	space := vnd.StringOf("uv", 1)
	lvl := func() string {
		s := ""
		k := vnd.Choose(4)
		if k&1 != 0 {
			s += " xmlns='" + vnd.StringOf("uv", vnd.Choose(2)) + "'"
		}
		if k&2 != 0 {
			s += " xmlns:p='" + vnd.StringOf("uv", 1) + "'"
		}
		return s
	}
	el, ref := parseBoth("<r" + lvl() + "><m" + lvl() + "><n" + lvl() + "/></m></r>")
	vnd.Observe("space", space)
	checkPrefix(&el.Children[0].Children[0], ref.kids[0].kids[0], xml.Name{Space: space, Local: "x"})
	checkPrefix(&el.Children[0], ref.kids[0], xml.Name{Space: space, Local: "x"})
}
