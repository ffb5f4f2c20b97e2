// Package misc holds the properties of the small helper packages.
package misc

import (
	"aqwari.net/xml/internal/dependency"
	"aqwari.net/xml/internal/zzverif/vnd"
)

type edge struct{ from, to int }

func has(list []int, x int) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}

// order runs Flatten on a graph of the given edges.
func order(edges []edge) []int {
	var g dependency.Graph
	for _, e := range edges {
		g.Add(e.from, e.to)
	}
	var out []int
	g.Flatten(func(n int) {
		vnd.Assert(len(out) <= 2*len(edges), "terminates")
		out = append(out, n)
	})
	return out
}

// reaches tells whether there is a path of at least one edge.
func reaches(edges []edge, from, to int) bool {
	seen := []int{from}
	for i := 0; i < len(seen); i++ {
		for _, e := range edges {
			if e.from == seen[i] {
				if e.to == to {
					return true
				}
				if !has(seen, e.to) {
					seen = append(seen, e.to)
				}
			}
		}
	}
	return false
}

func checkOrder(edges []edge, out []int) {
	var nodes []int
	for _, e := range edges {
		if !has(nodes, e.from) {
			nodes = append(nodes, e.from)
		}
		if !has(nodes, e.to) {
			nodes = append(nodes, e.to)
		}
	}
	vnd.Assert(len(out) == len(nodes), "as many visits as nodes")
	for _, n := range nodes {
		vnd.Assert(has(out, n), "every node is visited")
	}
	for i, n := range out {
		vnd.Assert(!has(out[:i], n), "no node is visited twice")
	}
	for _, n := range nodes {
		if reaches(edges, n, n) {
			vnd.Cover("cyclic")
			return
		}
	}
	vnd.Cover("acyclic")
	for _, e := range edges {
		pf, pt := -1, -1
		for i, n := range out {
			if n == e.from {
				pf = i
			}
			if n == e.to {
				pt = i
			}
		}
		vnd.Assert(pt < pf, "dependencies come first")
	}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func anyEdges(n int) []edge {
	edges := make([]edge, n)
	for i := range edges {
		edges[i] = edge{int(vnd.Uint64()), int(vnd.Uint64())}
	}
	return edges
}

// fewEdges: edges between n+1 integers.
func fewEdges(n int) []edge {
	edges := make([]edge, n)
	for i := range edges {
		edges[i] = edge{vnd.Int(0, n), vnd.Int(0, n)}
	}
	return edges
}

// H_graph_any: any few edges between any integers.
func H_graph_any() {
	edges := anyEdges(vnd.Choose(4 + vnd.Tier()))
	checkOrder(edges, order(edges))
}

// H_graph_dense: chains and diamonds of more edges: every edge leads to a
// higher number, numbers being in any order.
func H_graph_dense() {
	n := 4
	var perm []int
	for i := 0; i < n; i++ {
		x := vnd.Int(0, n-1)
		vnd.Assume(!has(perm, x))
		perm = append(perm, x)
	}
	var edges []edge
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if vnd.Bool() {
				edges = append(edges, edge{perm[i], perm[j]})
			}
		}
	}
	// possibly close a cycle
	if vnd.Bool() {
		edges = append(edges, edge{perm[vnd.Choose(n)], perm[vnd.Choose(n)]})
	}
	checkOrder(edges, order(edges))
}

// H_graph_same: the order of additions and repetitions do not matter, nor
// does flattening twice.
func H_graph_same() {
	n := 3 + vnd.Tier()
	edges := fewEdges(n)
	// one of three rearrangements, with or without a repetition; repeated
	// exchanges give every order, one exchange being enough to break a tie
	other := append([]edge{}, edges...)
	switch vnd.Choose(3) {
	case 0:
		other[0], other[1] = other[1], other[0]
	case 1:
		other[n-1], other[0] = other[0], other[n-1]
	case 2:
		other = append(other, edges[0])
	}
	a := order(edges)
	vnd.Assert(sameInts(a, order(other)), "the order of additions does not matter")

	var g dependency.Graph
	for _, e := range edges {
		g.Add(e.from, e.to)
	}
	for i := 0; i < 2; i++ {
		var out []int
		g.Flatten(func(n int) { out = append(out, n) })
		vnd.Assert(sameInts(a, out), "flattening again gives the same order")
	}
}

// H_graph_grow: edges added after a traversal count in the next one.
func H_graph_grow() {
	var g dependency.Graph
	edges := fewEdges(3 + vnd.Tier())
	for i, e := range edges {
		g.Add(e.from, e.to)
		if i == 0 || vnd.Bool() {
			var out []int
			g.Flatten(func(n int) { out = append(out, n) })
			checkOrder(edges[:i+1], out)
		}
	}
}

// H_graph_long: long chains, rings and one target with many dependencies.
func H_graph_long() {
	n := 2 + vnd.Choose(30)
	var edges []edge
	shape := vnd.Choose(3)
	for i := 0; i < n; i++ {
		switch shape {
		case 0: // chain
			edges = append(edges, edge{i + 1, i})
		case 1: // ring
			edges = append(edges, edge{i, (i + 1) % n})
		case 2: // fan
			edges = append(edges, edge{n / 2, (i * 7) % (n + 1)})
		}
	}
	checkOrder(edges, order(edges))
}
