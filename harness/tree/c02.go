package tree

import (
	"encoding/xml"
	"strings"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
)

var prefixes = []string{"", "p", "q", "pq"}

// decls writes up to n distinct namespace declarations. A URI is one symbolic
// character, or empty for the default namespace.
func decls(n int) string {
	s := ""
	used := 0
	for i := 0; i < n; i++ {
		k := vnd.Choose(len(prefixes)-used+1) + used
		if k == len(prefixes) {
			break
		}
		used = k + 1
		u := vnd.StringOf("uvp", 1)
		if prefixes[k] == "" {
			if vnd.Choose(2) == 1 {
				u = ""
			}
			s += " xmlns='" + u + "'"
		} else {
			s += " xmlns:" + prefixes[k] + "='" + u + "'"
		}
	}
	return s
}

// scopeDoc makes three levels with an elder sibling subtree, each with its own
// declarations.
func scopeDoc(a, b, c, d int) string {
	return "<r" + decls(a) + " k='1'><e" + decls(d) + "><f xmlns:q='w' xmlns='w' xmlns:z='w'/></e><m" + decls(b) + "><l" + decls(c) + "/><n/></m><o/></r>"
}

func checkResolve(el *xmltree.Element, n *node, q string) {
	pre, loc := "", q
	if i := strings.Index(q, ":"); i >= 0 {
		pre, loc = q[:i], q[i+1:]
	}
	uri, ok := n.resolve(pre)
	got, gok := el.ResolveNS(q)
	vnd.Assert(vnd.And(ok == gok, sameName(got, xml.Name{Space: uri, Local: loc})), "ResolveNS")
	got = el.Resolve(q)
	vnd.Assert(sameName(got, xml.Name{Space: uri, Local: loc}), "Resolve")
	if !ok {
		vnd.Cover("unresolved")
	}
}

func parseBoth(doc string) (*xmltree.Element, *node) {
	vnd.Observe("doc", doc)
	n, err := refParse([]byte(doc))
	vnd.Assume(err == nil)
	el, err := xmltree.Parse([]byte(doc))
	vnd.Assert(err == nil, "rejected a document the tokenizer accepts")
	return el, n
}

// H_resolve_doc: every element of a document, every prefix.
func H_resolve_doc() {
	n := 1 + vnd.Tier()
	el, ref := parseBoth(scopeDoc(2, n, 1, n))
	ref.walk(el, func(el *xmltree.Element, n *node) {
		for _, q := range []string{"x", "p:x", "q:x", "pq:x", "z:x", "xml:lang", "xmlns:x", ":x", "p:", "p:x:y", "pq", ""} {
			checkResolve(el, n, q)
		}
	})
}

// H_resolve_name: any short name, at the innermost element.
func H_resolve_name() {
	k := vnd.Choose(5 + vnd.Tier())
	q := vnd.StringOf("pqxml:", k)
	el, ref := parseBoth("<r" + decls(2) + "><m" + decls(2) + "/></r>")
	vnd.Observe("q", q)
	checkResolve(&el.Children[0], ref.kids[0], q)
}

// H_resolve_reserved: names around the reserved prefixes.
func H_resolve_reserved() {
	k := 3 + vnd.Choose(4)
	q := vnd.StringOf("xmlns:", k)
	el, ref := parseBoth("<r xmlns:xml='" + xmlNS + "' xmlns='u' xmlns:x='v' xmlns:xm='w' xmlns:mlns='s' xmlns:xmln='t'/>")
	vnd.Observe("q", q)
	checkResolve(el, ref, q)
}

// H_resolve_any: any bytes as a name, no declarations but a default one.
func H_resolve_any() {
	k := vnd.Choose(4 + vnd.Tier())
	q := vnd.String(k)
	doc := "<r><a/></r>"
	if vnd.Choose(2) == 1 {
		doc = "<r xmlns='u'><a xmlns:p='v'/></r>"
	}
	el, ref := parseBoth(doc)
	vnd.Observe("q", q)
	checkResolve(&el.Children[0], ref.kids[0], q)
}

// H_resolve_default: an overriding default namespace.
func H_resolve_default() {
	k := vnd.Choose(4 + vnd.Tier())
	q := vnd.StringOf("pqx:", k)
	def := vnd.StringOf("up", vnd.Choose(2))
	el, ref := parseBoth("<r" + decls(2) + "><m" + decls(1) + "/></r>")
	vnd.Observe("q", q)
	vnd.Observe("default", def)
	c, n := &el.Children[0], ref.kids[0]
	got := c.ResolveDefault(q, def)
	pre, loc := "", q
	colon := strings.Index(q, ":")
	if colon >= 0 {
		pre, loc = q[:colon], q[colon+1:]
	}
	uri, _ := n.resolve(pre)
	if colon < 0 && def != "" {
		uri = def
		vnd.Cover("overridden")
	}
	vnd.Assert(sameName(got, xml.Name{Space: uri, Local: loc}), "ResolveDefault")
}

// H_resolve_join: JoinScope searches the argument before the receiver.
func H_resolve_join() {
	a, ra := parseBoth("<r" + decls(2) + "/>")
	b, rb := parseBoth("<r" + decls(2) + "/>")
	rb.parent = ra
	c, rc := parseBoth("<r" + decls(1) + "/>")
	rc.parent = rb
	j := a.Scope.JoinScope(&b.Scope)
	jc := j.JoinScope(&c.Scope)
	d, _ := parseBoth("<r xmlns:p='z'/>")
	j.JoinScope(&d.Scope)
	check := func(s *xmltree.Scope, n *node) {
		for _, q := range []string{"x", "p:x", "q:x", "pq:x", "xml:x"} {
			pre, loc := "", q
			if i := strings.Index(q, ":"); i >= 0 {
				pre, loc = q[:i], q[i+1:]
			}
			uri, ok := n.resolve(pre)
			got, gok := s.ResolveNS(q)
			vnd.Assert(vnd.And(ok == gok, sameName(got, xml.Name{Space: uri, Local: loc})), "ResolveNS in a joined scope")
		}
	}
	check(j, rb)
	check(jc, rc)
	check(&a.Scope, ra)
}

// H_resolve_siblings: siblings and cousins declaring prefixes under a chain of
// elements that declare any number of prefixes, alone or several at a time.
func H_resolve_siblings() {
	letters := "abcdefghijkl"
	used := 0
	decl := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += " xmlns:" + letters[used:used+1] + "='" + vnd.StringOf("uv", 1) + "'"
			used++
		}
		return s
	}
	depth := vnd.Choose(5 + vnd.Tier())
	doc, closing := "<r>", "</r>"
	for i := 0; i < depth; i++ {
		k := 1
		if i < 2 {
			k = 1 + vnd.Choose(2+vnd.Tier())
		}
		doc += "<m" + decl(k) + ">"
		closing = "</m>" + closing
	}
	k := vnd.Choose(3)
	z := []string{"", " xmlns:z='y'", " xmlns:z='y' xmlns:k='x'"}
	doc += "<e" + decl(1) + z[k] + "><g/></e><f xmlns:z='" + vnd.StringOf("wu", 1) + "'><g xmlns:z='t'/><h xmlns:y='s'/></f><g/>" + closing
	el, ref := parseBoth(doc)
	ref.walk(el, func(el *xmltree.Element, n *node) {
		for i := 0; i <= used; i++ {
			checkResolve(el, n, letters[i:i+1]+":x")
		}
		checkResolve(el, n, "z:x")
		checkResolve(el, n, "y:x")
	})
}
