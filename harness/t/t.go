package t

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xmltree"
	"fmt"
	"strings"
	"sort"
)

func H_basic() {
	b := vnd.Byte()
	n := 0
	if b == 'a' || b == 'b' || b >= '0' && b <= '9' {
		n = 1
	}
	vnd.Assert(n == 0 || b < 'c', "x")
	s := vnd.String(3)
	vnd.Assert(strings.Index(s, "bug") < 0, "nobug")
}

func H_fmt() {
	s := vnd.StringOf("ab\"", 2)
	vnd.Observe("q", fmt.Sprintf("%q %s %d %v %T", s, s, 42, []string{s, "x"}, s))
	xs := []int{3, 1, 2}
	sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
	vnd.Observe("sorted", fmt.Sprint(xs))
	vnd.Observe("err", fmt.Errorf("x %w", fmt.Errorf("in %v %+v", s, struct{ A, B int }{1, 2})).Error())
}

func H_xml() {
	s := vnd.StringOf("ab<>/ ", 3)
	doc := "<r><a x='1'>" + s + "</a></r>"
	el, err := xmltree.Parse([]byte(doc))
	if err != nil {
		vnd.Observe("err", err.Error())
		vnd.Cover("err")
		return
	}
	vnd.Cover("ok")
	vnd.Observe("out", el.String())
	vnd.Observe("content", string(el.Content))
}
