package misc

import (
	"regexp"
	"strings"

	"aqwari.net/xml/internal/commandline"
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

func isBlank(c byte) bool { return c == ' ' || c == '\t' || c == '\n' }

func trim(s string) string {
	for s != "" && isBlank(s[0]) {
		s = s[1:]
	}
	for s != "" && isBlank(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

// split is the rule syntax: the text before and after the first arrow.
func split(s string) (from, to string, ok bool) {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '-' && s[i+1] == '>' {
			return trim(s[:i]), trim(s[i+2:]), true
		}
	}
	return "", "", false
}

type rule struct{ from, to string }

func checkRules(l commandline.ReplaceRuleList, want []rule) {
	vnd.Assert(len(l) == len(want), "number of rules")
	for i, r := range want {
		vnd.Assert(l[i].From.String() == r.from, "pattern")
		vnd.Assert(l[i].To == r.to, "replacement")
	}
}

func set(l *commandline.ReplaceRuleList, want []rule, s string) []rule {
	from, to, ok := split(s)
	if ok {
		if _, err := regexp.Compile(from); err != nil {
			ok = false
			vnd.Cover("bad pattern")
		}
	}
	err := l.Set(s)
	vnd.Assert((err == nil) == ok, "error exactly when malformed")
	if ok {
		want = append(want, rule{from, to})
		vnd.Cover("ok")
	}
	checkRules(*l, want)
	return want
}

// H_rules_one: any short rule.
func H_rules_one() {
	var l commandline.ReplaceRuleList
	s := vnd.StringOf("->a \t(.", vnd.Choose(6+vnd.Tier()))
	vnd.Observe("s", s)
	set(&l, nil, s)
}

// H_rules_arrow: text around an arrow.
func H_rules_arrow() {
	var l commandline.ReplaceRuleList
	s := vnd.StringOf("a [", vnd.Choose(4)) + "->" + vnd.StringOf("a ->$", vnd.Choose(5))
	vnd.Observe("s", s)
	set(&l, nil, s)
}

// H_rules_many: several rules in order, malformed ones in between.
func H_rules_many() {
	var l commandline.ReplaceRuleList
	var want []rule
	n := 3 + vnd.Tier()
	for i := 0; i < n; i++ {
		switch vnd.Choose(3) {
		case 0:
			want = set(&l, want, vnd.StringOf("ab.", 1)+" -> "+vnd.StringOf("x$1", vnd.Choose(3)))
		case 1:
			want = set(&l, want, vnd.StringOf("ab(", 1)+" > x")
		case 2:
			want = set(&l, want, "("+vnd.StringOf("ab)", 1)+"->x")
		}
	}
}

// H_rules_strings: the plain list keeps everything in order.
func H_rules_strings() {
	var l commandline.Strings
	var want []string
	for i := 0; i < 3; i++ {
		s := vnd.StringOf("a, ", vnd.Choose(3))
		vnd.Assert(l.Set(s) == nil, "accepted")
		want = append(want, s)
	}
	vnd.Assert(len(l) == len(want), "number of values")
	for i := range want {
		vnd.Assert(l[i] == want[i], "value")
	}
	vnd.Assert(l.String() == strings.Join(want, ","), "listing")
}

type ref struct{ ns, loc string }

func attr(name, val string) string {
	if val == "\x00" {
		return ""
	}
	return " " + name + "='" + val + "'"
}

// optional attribute value: absent, empty or one symbolic letter.
func val() string {
	switch vnd.Choose(3) {
	case 0:
		return "\x00"
	case 1:
		return ""
	}
	return vnd.StringOf("ab", 1)
}

func clean(s string) string { return strings.TrimPrefix(s, "\x00") }

// H_imports: schemas alone or inside another document, with imports and
// includes in any order among other declarations.
func H_imports_doc() {
	doc := ""
	var imports, includes []ref
	schema := func(max int) {
		tns := val()
		doc += "<s:schema xmlns:s='http://www.w3.org/2001/XMLSchema'" + attr("targetNamespace", tns) + ">"
		n := vnd.Choose(max + 1)
		for i := 0; i < n; i++ {
			a, b := "\x00", "\x00"
			k := vnd.Choose(4)
			if k == 0 {
				a = val()
			}
			if k <= 1 {
				b = val()
			}
			switch k {
			case 0:
				doc += "<s:import" + attr("namespace", a) + attr("schemaLocation", b) + "/>"
				imports = append(imports, ref{clean(a), clean(b)})
			case 1:
				doc += "<s:include" + attr("schemaLocation", b) + "/>"
				includes = append(includes, ref{clean(tns), clean(b)})
			case 2:
				doc += "<import namespace='c'/><include xmlns='d' schemaLocation='c'/>"
			case 3:
				doc += "<s:element name='import'/>"
			}
		}
		doc += "</s:schema>"
	}
	if vnd.Bool() {
		schema(2 + vnd.Tier())
	} else {
		doc += "<types>"
		schema(1 + vnd.Tier())
		schema(1)
		doc += "</types>"
	}
	vnd.Observe("doc", doc)
	got, err := xsd.Imports([]byte(doc))
	vnd.Assert(err == nil, "no error")
	want := append(imports, includes...)
	vnd.Assert(len(got) == len(want), "number of references")
	for i, r := range want {
		vnd.Assert(got[i].Namespace == r.ns, "namespace, in order")
		vnd.Assert(got[i].Location == r.loc, "location, in order")
	}
}

// H_imports_bad: a document that does not parse is an error.
func H_imports_bad() {
	doc := "<s:schema xmlns:s='http://www.w3.org/2001/XMLSchema'><s:import/>" + vnd.StringOf("<>/&;", 3)
	_, err := xsd.Imports([]byte(doc))
	vnd.Assert(err != nil, "not well formed")
}
