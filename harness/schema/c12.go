package schema

import (
	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

// number reads an occurrence count: ok is false if it is malformed, and
// unbounded counts as a large number.
func number(s string) (v int, ok bool) {
	if s == "-" || s == "" {
		return 1, true
	}
	if s == "unbounded" {
		return 1 << 20, true
	}
	neg := false
	if len(s) > 1 && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	if neg && v > 0 {
		vnd.Assume(false) // negative counts are not valid schema
	}
	return v, true
}

// occurs is the text of a minOccurs or maxOccurs attribute, "-" for none.
func occurs() string {
	switch vnd.Choose(6) {
	case 0:
		return "-"
	case 5:
		// Nearly unbounded.
		return []string{"nbounded" + vnd.StringOf("du", 1), vnd.StringOf("Uu", 1) + "nbounde" + vnd.StringOf("dDx", 1), "unbounded1"}[vnd.Choose(3)]
	case 1:
		return "unbounded"
	case 2:
		return vnd.StringOf("012x", 1)
	case 3:
		return vnd.StringOf("0123456789+-u", 2)
	}
	return "00" + vnd.StringOf("012", 1)
}

// flag is the text of a boolean attribute.
func flag() (text string, val, ok bool) {
	switch vnd.Choose(5) {
	case 0:
		return "-", false, true
	case 1:
		return "true", true, true
	case 2:
		return "false", false, true
	case 3:
		s := vnd.String(1)
		vnd.Assume(vnd.And(s[0] >= '0', vnd.And(s[0] < 0x7f, s[0] != '<')))
		vnd.Assume(vnd.And(s[0] != '\'', s[0] != '&'))
		return s, s == "1", s == "0" || s == "1"
	}
	return []string{"True", "yes", "tru", "falsee", "11"}[vnd.Choose(5)], false, false
}

func typeT(body string) string {
	return open("u") + "<s:complexType name='T'>" + body + "</s:complexType>" + end
}

// check1 parses a type T holding a single element e and compares its flags.
func check1(doc string, ok, plural, optional bool) *xsd.Element {
	s, err := parse(doc)
	vnd.Assert((err == nil) == ok, "accepted exactly when well formed")
	if !ok {
		vnd.Cover("rejected")
		return nil
	}
	t := complexOf(s["u"], "T")
	vnd.Assert(len(t.Elements) == 1, "one element")
	e := &t.Elements[0]
	vnd.Assert(e.Name == n("u", "e"), "its name")
	vnd.Assert(e.Type == xsd.Int, "its type")
	vnd.Assert(e.Plural == plural, "Plural as the occurrence counts say")
	vnd.Assert(e.Optional == optional, "Optional as the occurrence counts and the default say")
	return e
}

// H_elt_occurs: any minOccurs and maxOccurs.
func H_elt_occurs() {
	min, max := occurs(), occurs()
	vmin, ok1 := number(min)
	vmax, ok2 := number(max)
	if min == "-" {
		vmin = 1
	}
	doc := typeT("<s:sequence><s:element name='e' type='s:int'" + attr("minOccurs", min) + attr("maxOccurs", max) + "/></s:sequence>")
	// a malformed maximum is not reached when the minimum settles it
	if ok1 && vmin > 1 && !ok2 {
		return
	}
	vnd.Assume(min != "unbounded")
	check1(doc, ok1 && ok2, vmin > 1 || vmax > 1, vmin == 0)
}

// H_elt_flags: default, nillable and abstract.
func H_elt_flags() {
	nil_, vnil, ok1 := flag()
	abs, vabs, ok2 := "-", false, true
	if ok1 {
		abs, vabs, ok2 = flag()
	}
	def := "-"
	if vnd.Bool() {
		def = vnd.StringOf("0a ", vnd.Choose(3))
	}
	min := []string{"-", "0", "1"}[vnd.Choose(3)]
	doc := typeT("<s:sequence><s:element name='e' type='s:int'" + attr("nillable", nil_) + attr("abstract", abs) +
		attr("default", def) + attr("minOccurs", min) + "/></s:sequence>")
	want := def
	if def == "-" {
		want = ""
	}
	e := check1(doc, ok1 && ok2, false, min == "0" || want != "")
	if e != nil {
		vnd.Assert(e.Nillable == vnil, "Nillable as written")
		vnd.Assert(e.Abstract == vabs, "Abstract as written")
		vnd.Assert(e.Default == want, "Default as written")
	}
}

// H_elt_nest: the element under up to three levels of particles that may
// themselves be optional or repeated, with or without siblings before it.
func H_elt_nest() {
	depth := 1 + vnd.Choose(3+vnd.Tier())
	plural, optional := false, false
	pre, post := "", ""
	for i := 0; i < depth; i++ {
		k := vnd.Choose(3)
		name := []string{"sequence", "choice", "all"}[k]
		occ := ""
		switch c := vnd.Choose(3); {
		case c == 1 && depth == 1:
			min, max := vnd.StringOf("01", 1), vnd.StringOf("12", 1)
			occ = " minOccurs='" + min + "' maxOccurs='" + max + "'"
			optional = vnd.Or(optional, min == "0")
			plural = vnd.Or(plural, max == "2")
		case c == 1:
			occ = " minOccurs='0'"
			optional = true
		case c == 2:
			occ = " maxOccurs='unbounded'"
			plural = true
		}
		optional = vnd.Or(optional, k == 1)
		pre += "<s:" + name + occ + ">"
		if i == 0 && vnd.Bool() {
			pre += "<s:annotation/>"
		}
		post = "</s:" + name + ">" + post
	}
	min := []string{"-", "0", "1"}[vnd.Choose(3)]
	max := []string{"-", "2"}[vnd.Choose(2)]
	optional = vnd.Or(optional, min == "0")
	plural = vnd.Or(plural, max == "2")
	check1(typeT(pre+"<s:element name='e' type='s:int'"+attr("minOccurs", min)+attr("maxOccurs", max)+"/>"+post), true, plural, optional)
}

// H_elt_group: the same for the particles of a referenced group, with what
// the reference and the groups around it say about it as a whole.
func H_elt_group() {
	min, max := vnd.StringOf("01", 1), vnd.StringOf("12", 1)
	optional, plural := min == "0", max == "2"
	ref := "<s:group ref='t:G' minOccurs='" + min + "' maxOccurs='" + max + "'/>"
	if vnd.Bool() {
		ref = "<s:group ref='t:G'/>"
		optional, plural = false, false
	}
	wrap := vnd.Choose(4)
	switch wrap {
	case 1:
		ref = "<s:sequence>" + ref + "</s:sequence>"
	case 2:
		ref = "<s:choice>" + ref + "</s:choice>"
		optional = true
	case 3:
		ref = "<s:sequence maxOccurs='unbounded'><s:annotation/>" + ref + "</s:sequence>"
		plural = true
	}
	inner := []string{"sequence", "choice", "all"}[vnd.Choose(3)]
	optional = vnd.Or(optional, inner == "choice")
	imin := vnd.StringOf("01", 1)
	optional = vnd.Or(optional, imin == "0")
	g := "<s:group name='G'><s:" + inner + "><s:element name='e' type='s:int' minOccurs='" + imin + "'/></s:" + inner + "></s:group>"
	t := "<s:complexType name='T'>" + ref + "</s:complexType>"
	if vnd.Bool() {
		g, t = t, g
	}
	check1(open("u")+g+t+end, true, plural, optional)
}

// H_elt_derived: the same under extension, restriction and simple shorthand.
func H_elt_derived() {
	max := vnd.StringOf("123", 1)
	outer := vnd.StringOf("12", 1)
	body := "<s:sequence maxOccurs='" + outer + "'><s:choice><s:element name='e' type='s:int' maxOccurs='" + max + "'/></s:choice></s:sequence>"
	k := vnd.Choose(3)
	doc := body
	switch k {
	case 1:
		doc = "<s:complexContent><s:extension base='t:B'>" + body + "</s:extension></s:complexContent>"
	case 2:
		doc = "<s:complexContent><s:restriction base='t:B'>" + body + "</s:restriction></s:complexContent>"
	}
	doc = open("u") + "<s:complexType name='T'>" + doc + "</s:complexType><s:complexType name='B'/>" + end
	s := mustParse(doc)
	t := complexOf(s["u"], "T")
	vnd.Assert(t.Extends == (k == 1), "Extends for an extension")
	vnd.Assert(len(t.Elements) == 1 && t.Elements[0].Optional, "an optional element")
	vnd.Assert(t.Elements[0].Plural == (max != "1" || outer != "1"), "plural")
}

// H_elt_repeat: several declarations of few names become one element each,
// plural if any of them is or if one may occur after another.
func H_elt_repeat() {
	type flags struct {
		plural, optional, nillable bool
	}
	var order []string
	want := make(map[string]*flags)
	body := ""
	choice := vnd.Bool()
	count := 2 + vnd.Choose(2+vnd.Tier())
	for i := 0; i < count; i++ {
		name := vnd.StringOf("ab", 1)
		min := vnd.StringOf("01", 1)
		max := vnd.StringOf("12", 1)
		nillable := "false"
		if i < 2 && vnd.Bool() {
			nillable = "true"
		}
		f := flags{max == "2", min == "0" || choice, nillable == "true"}
		e := "<s:element name='" + name + "' type='s:int' minOccurs='" + min + "' maxOccurs='" + max + "' nillable='" + nillable + "'/>"
		if i == 1 && vnd.Bool() {
			e = "<s:choice>" + e + "</s:choice>"
			f.optional = true
		}
		body += e
		if w := want[name]; w == nil {
			order = append(order, name)
			want[name] = &f
		} else {
			w.plural = w.plural || f.plural || !choice
			w.optional = w.optional || f.optional
			w.nillable = w.nillable || f.nillable
		}
	}
	if choice {
		body = "<s:choice>" + body + "</s:choice>"
	}
	s := mustParse(typeT("<s:sequence>" + body + "</s:sequence>"))
	t := complexOf(s["u"], "T")
	vnd.Assert(len(t.Elements) == len(order), "one element per name")
	for i, e := range t.Elements {
		vnd.Assert(e.Name == n("u", order[i]), "in the order first declared")
		w := want[order[i]]
		vnd.Assert(e.Plural == w.plural, "plural if any is, or if there may be more than one")
		vnd.Assert(e.Optional == w.optional, "optional if any is")
		vnd.Assert(e.Nillable == w.nillable, "nillable if any is")
	}
}

// H_elt_paths: one name declared at several places of a content model of
// nested sequences and choices: plural exactly if two can occur together.
func H_elt_paths() {
	depth := 2
	doc, max := model(depth)
	vnd.Assume(max >= 1)
	s := mustParse(typeT(doc))
	t := complexOf(s["u"], "T")
	for _, e := range t.Elements {
		if e.Name.Local == "e" {
			vnd.Assert(e.Plural == (max > 1), "plural if two can occur together")
			return
		}
	}
	vnd.Assert(false, "the element is found")
}

// model is a content model, and how many elements e it allows.
func model(depth int) (string, int) {
	if depth == 0 {
		if vnd.Bool() {
			return "<s:element name='e' type='s:int'/>", 1
		}
		return "<s:element name='f' type='s:int' maxOccurs='2'/>", 0
	}
	a, n := model(depth - 1)
	b, m := model(depth - 1)
	switch vnd.Choose(3) {
	case 0:
		return "<s:sequence>" + a + b + "</s:sequence>", n + m
	case 1:
		if m > n {
			n = m
		}
		return "<s:choice>" + a + b + "</s:choice>", n
	}
	return "<s:sequence minOccurs='0' maxOccurs='3'>" + a + b + "</s:sequence>", 3 * (n + m)
}

// H_elt_any: wildcards are plural like elements.
func H_elt_any() {
	min, max := vnd.StringOf("012", 1), vnd.StringOf("012", 1)
	outer := vnd.StringOf("12", 1)
	more, two := "", false
	vnd.Assume(vnd.Or(max != "0", outer == "1"))
	switch vnd.Choose(3) {
	case 1:
		more, two = "<s:any/>", true
		vnd.Assume(max != "0")
	case 2:
		more = "<s:choice><s:element name='e' type='s:int'/></s:choice>"
	}
	s := mustParse(typeT("<s:sequence><s:sequence maxOccurs='" + outer + "'><s:any minOccurs='" + min + "' maxOccurs='" + max + "'/></s:sequence>" + more + "<s:element name='e' type='s:int'/></s:sequence>"))
	t := complexOf(s["u"], "T")
	count := 0
	for _, e := range t.Elements {
		if e.Wildcard {
			count++
			vnd.Assert(e.Plural == (two || min == "2" || max == "2" || outer == "2"), "plural")
		} else {
			vnd.Assert(e.Name == n("u", "e"), "the other is the element")
			vnd.Assert(more != "" || !e.Plural && !e.Optional, "the element is not affected")
		}
	}
	vnd.Assert(count == 1 && len(t.Elements) == 2, "one wildcard and one element")
}

// H_att_flags: attributes with any use, default and spelling of it.
func H_att_flags() {
	use := []string{"-", "required", "optional", "prohibited", ""}[vnd.Choose(5)]
	if vnd.Bool() {
		use = "require" + vnd.StringOf("dsD ", 1)
	}
	def := "-"
	if vnd.Bool() {
		def = vnd.StringOf("0a ", vnd.Choose(3))
	}
	a := "<s:attribute name='a' type='s:int'" + attr("use", use) + attr("default", def) + "/><s:attribute name='b' type='s:string'/>"
	switch vnd.Choose(3) {
	case 1:
		a = "<s:simpleContent><s:extension base='s:string'>" + a + "</s:extension></s:simpleContent>"
	case 2:
		a = "<s:complexContent><s:restriction base='s:anyType'>" + a + "</s:restriction></s:complexContent>"
	}
	s := mustParse(typeT(a))
	t := complexOf(s["u"], "T")
	vnd.Assert(len(t.Attributes) == 2, "two attributes")
	x, y := t.Attributes[0], t.Attributes[1]
	vnd.Assert(x.Name.Local == "a" && x.Type == xsd.Int, "the first attribute")
	vnd.Assert(y.Name.Local == "b" && y.Type == xsd.String && y.Optional && y.Default == "", "the second attribute")
	vnd.Assert(x.Optional == (use != "required"), "optional unless required")
	if def == "-" {
		def = ""
	}
	vnd.Assert(x.Default == def, "default as written")
}

// H_elt_top: top-level elements have the same flags.
func H_elt_top() {
	nil_ := []string{"-", "true", "false"}[vnd.Choose(3)]
	abs := []string{"-", "true", "0"}[vnd.Choose(3)]
	def := []string{"-", "x"}[vnd.Choose(2)]
	typ := []string{"-", "s:int"}[vnd.Choose(2)]
	s := mustParse(open("u") + "<s:element name='e'" + attr("nillable", nil_) + attr("abstract", abs) + attr("default", def) + attr("type", typ) +
		"/><s:element name='f' type='s:date'/>" + end)
	t := complexOf(s["u"], "_self")
	vnd.Assert(len(t.Elements) == 2, "two elements")
	e, f := t.Elements[0], t.Elements[1]
	vnd.Assert(e.Name == n("u", "e") && f.Name == n("u", "f"), "names, in order")
	vnd.Assert(f.Type == xsd.Date, "type")
	if typ == "-" {
		vnd.Assert(e.Type == xsd.AnyType, "elements without a type may be anything")
	} else {
		vnd.Assert(e.Type == xsd.Int, "type")
	}
	vnd.Assert(e.Nillable == (nil_ == "true"), "nillable")
	vnd.Assert(e.Abstract == (abs == "true"), "abstract")
	vnd.Assert(e.Optional == (def == "x"), "optional")
	vnd.Assert(!e.Plural && !f.Plural && !f.Optional, "no more")
}
