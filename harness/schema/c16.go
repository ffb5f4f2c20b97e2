package schema

import (
	"bytes"
	"encoding/xml"
	"regexp"
	"time"

	"aqwari.net/xml/internal/zzverif/vnd"
	"aqwari.net/xml/xsd"
)

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func facet(name, val string) string { return "<s:" + name + " value='" + val + "'/>" }

// restricted parses a simple type T restricting base, in one of three places.
func restricted(base, facets string) (*xsd.SimpleType, error) {
	typ := "<s:restriction base='" + base + "'>" + facets + "</s:restriction></s:simpleType>"
	decl := "<s:simpleType name='D'><s:restriction base='s:date'/></s:simpleType><s:simpleType name='N'><s:restriction base='s:int'/></s:simpleType>"
	doc := "<s:simpleType name='T'>" + typ
	anon := vnd.Choose(2) == 1
	if anon {
		doc = "<s:element name='T'><s:simpleType>" + typ + "</s:element>"
	}
	s, err := parse(open("u") + decl + doc + end)
	if err != nil {
		return nil, err
	}
	return simpleOf(s["u"], "T"), nil
}

// H_facet_enum: enumerations of any text, in order, among other facets.
func H_facet_enum() {
	count := vnd.Choose(4 + vnd.Tier())
	var want []string
	facets := ""
	at := vnd.Choose(count + 1)
	for i := 0; i <= count; i++ {
		if i == at {
			facets += facet("maxLength", "4") + "<s:annotation><s:documentation>x</s:documentation></s:annotation>"
		}
		if i < count {
			v := vnd.StringOf("a<", vnd.Choose(2))
			if i == 0 {
				v = vnd.StringOf("ab >&\"\n", vnd.Choose(3))
			}
			want = append(want, v)
			facets += facet("enumeration", esc(v))
		}
	}
	t, err := restricted([]string{"s:string", "s:date"}[vnd.Choose(2)], facets)
	vnd.Assert(err == nil, "accepted")
	vnd.Assert(len(t.Restriction.Enum) == len(want), "every enumeration is recorded")
	for i, v := range want {
		vnd.Assert(t.Restriction.Enum[i] == v, "in order, as written")
	}
	vnd.Assert(t.Restriction.MaxLength == 4, "the other facet")
}

// H_facet_count: the five facets that are counts.
func H_facet_count() {
	names := []string{"length", "minLength", "maxLength", "totalDigits", "fractionDigits"}
	k := vnd.Choose(5)
	var v string
	switch vnd.Choose(4) {
	case 0:
		v = vnd.StringOf("0123456789", 1+vnd.Choose(3))
	case 1:
		v = []string{" 7 ", "\n12\t", "unbounded", "-1", "-0", "1.0", "1e3", "0x1", "99999999999999999999"}[vnd.Choose(9)]
	case 2:
		v = vnd.StringOf("19a+- ", 2)
	case 3:
		v = "1" + vnd.StringOf("019x", 1+vnd.Tier()) + "0"
	}
	want, ok := 0, true
	trim := v
	for len(trim) > 0 && (trim[0] == ' ' || trim[0] == '\n') {
		trim = trim[1:]
	}
	for len(trim) > 0 && (trim[len(trim)-1] == ' ' || trim[len(trim)-1] == '\t') {
		trim = trim[:len(trim)-1]
	}
	neg := false
	if len(trim) > 1 && (trim[0] == '+' || trim[0] == '-') {
		neg = trim[0] == '-'
		trim = trim[1:]
	}
	for i := 0; i < len(trim); i++ {
		if trim[i] < '0' || trim[i] > '9' {
			ok = false
			break
		}
		want = want*10 + int(trim[i]-'0')
	}
	if len(trim) > 18 || neg && want != 0 {
		ok = false
	}
	if len(trim) == 0 {
		return // not valid, but read as none
	}
	other := (k + 1) % 5
	t, err := restricted("s:string", facet(names[k], v)+facet(names[other], "3"))
	vnd.Assert((err == nil) == ok, "accepted exactly when well formed")
	if !ok {
		vnd.Cover("rejected")
		return
	}
	r := t.Restriction
	got := []int{r.Length, r.MinLength, r.MaxLength, r.TotalDigits, r.Precision}
	for i := range got {
		switch i {
		case k:
			vnd.Assert(got[i] == want, "the value as written")
		case other:
			vnd.Assert(got[i] == 3, "the other facet's value")
		default:
			vnd.Assert(got[i] == 0, "no other facet")
		}
	}
}

// H_facet_number: minimum and maximum of numeric types.
func H_facet_number() {
	kind := vnd.Choose(4)
	names := []string{"minInclusive", "minExclusive", "maxInclusive", "maxExclusive"}
	sign := []string{"", "-", "+", " "}[vnd.Choose(4)]
	v := ""
	n := 1 + vnd.Choose(2+vnd.Tier())
	want := 0.0
	for i := 0; i < n; i++ {
		d := vnd.Choose(3)
		want = want*10 + float64([]int{0, 5, 9}[d])
		v += []string{"0", "5", "9"}[d]
	}
	switch vnd.Choose(4) {
	case 1:
		v += ".5"
		want += 0.5
	case 2:
		v += ".250"
		want += 0.25
	case 3:
		v = "1" + v + "00000"
		p := 1.0
		for i := 0; i < n; i++ {
			p *= 10
		}
		want = (want + p) * 100000
	}
	if sign == "-" {
		want = -want
	}
	v = sign + v
	if n == 1 {
		// More digits than any narrower number holds.
		switch vnd.Choose(5) {
		case 1:
			v, want = "16777217", 16777217
		case 2:
			v, want = "-9007199254740991", -9007199254740991
		case 3:
			v, want = "123456789.125", 123456789.125
		case 4:
			v, want = "4294967297", 4294967297
		}
	}
	base := []string{"s:int", "s:decimal", "t:N", "s:byte", "s:double"}[vnd.Choose(5)]
	facets := facet(names[kind], v)
	if vnd.Choose(2) == 1 {
		facets = facet(names[(kind+2)%4], "77") + facets
	} else {
		facets += facet(names[(kind+2)%4], "77")
	}
	t, err := restricted(base, facets)
	vnd.Assert(err == nil, "accepted")
	r := t.Restriction
	min, max := r.Min, r.Max
	if kind >= 2 {
		min, max = max, min
	}
	vnd.Assert(min == want, "the number written")
	vnd.Assert(max == 77, "the other limit")
	vnd.Assert(r.MinDate.IsZero() && r.MaxDate.IsZero(), "no dates")
}

// H_facet_badnumber: malformed limits are errors.
func H_facet_badnumber() {
	v := vnd.StringOf("1-.x: ", 1+vnd.Choose(2+vnd.Tier()))
	ok, digits := true, false
	s := v
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	if s == "" {
		return
	}
	dots := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '1':
			digits = true
		case '.':
			dots++
		case '-':
			ok = ok && i == 0
		default:
			ok = false
		}
	}
	ok = ok && digits && dots < 2
	_, err := restricted("s:int", facet("minInclusive", v))
	vnd.Assert((err == nil) == ok, "accepted exactly when a number")
}

// H_facet_date: minimum and maximum of dates.
func H_facet_date() {
	withTime := vnd.Choose(2) == 1
	m, d := 1+vnd.Choose(12), []int{1, 9, 15, 28, 30, 31}[vnd.Choose(6)]
	y := 2000 + vnd.Choose(2+3*vnd.Tier())
	two := func(i int) string { return string([]byte{byte('0' + i/10), byte('0' + i%10)}) }
	v := "200" + string([]byte{byte('0' + y%10)}) + "-" + two(m) + "-" + two(d)
	h, mi, s := 0, 0, 0
	if withTime {
		h, mi, s = []int{0, 12, 23}[vnd.Choose(3)], 34, 56
		v += "T" + two(h) + ":34:56"
	}
	zone := vnd.Choose(4)
	off := []int{0, 0, 5*3600 + 1800, -3600}[zone]
	v += []string{"", "Z", "+05:30", "-01:00"}[zone]
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && y%4 == 0 {
		days++
	}
	base := "s:date"
	if withTime {
		base = "s:dateTime"
	}
	name := []string{"minInclusive", "maxExclusive"}[vnd.Choose(2)]
	t, err := restricted(base, facet(name, v))
	vnd.Assert((err == nil) == (d <= days), "accepted exactly when there is such a day")
	if err != nil {
		return
	}
	want := time.Date(y, time.Month(m), d, h, mi, s, 0, time.UTC).Unix() - int64(off)
	got, other := t.Restriction.MinDate, t.Restriction.MaxDate
	if name != "minInclusive" {
		got, other = other, got
	}
	vnd.Assert(got.Unix() == want, "the date written")
	vnd.Assert(other.IsZero() && t.Restriction.Min == 0 && t.Restriction.Max == 0, "nothing else")
}

// H_facet_datelink: limits of types derived from a date type.
func H_facet_datelink() {
	v := "2024-0" + vnd.StringOf("0123456789", 1) + "-1" + vnd.StringOf("0159", 1)
	month := v[6] - '0'
	_, err := restricted("t:D", facet("minInclusive", v))
	vnd.Assert((err == nil) == (month > 0), "accepted exactly when there is such a day")
}

// H_facet_baddate: what is not a date is an error.
func H_facet_baddate() {
	k := vnd.Choose(10)
	v := []byte("2024-02-28")
	c := vnd.StringOf("0123456789-T:Zx", 1)
	v[k] = c[0]
	t, err := restricted("s:date", facet("maxInclusive", string(v)))
	dash := k == 4 || k == 7
	digit := c[0] >= '0' && c[0] <= '9'
	ok := dash && c[0] == '-' || !dash && digit
	if ok && !dash {
		if k == 5 {
			ok = c[0] <= '1' // month 02 or 12
		}
		if k == 6 {
			ok = c[0] >= '1'
		}
		if k == 8 {
			ok = c[0] <= '2' // 08, 18, 28
		}
		if k == 9 {
			ok = true
		}
	}
	vnd.Assert((err == nil) == ok, "accepted exactly when a date")
	_ = t
}

// H_facet_pattern: several patterns are alternatives.
func H_facet_pattern() {
	pats := []string{"a+", "ab|ba", "b", "[ab]c", "b{2}", "(a|c)b?", "^c$", "c|^a$|b"}
	if vnd.Tier() == 0 {
		pats = pats[:5]
	}
	count := 1 + vnd.Choose(3)
	var res []*regexp.Regexp
	facets := ""
	for i := 0; i < count; i++ {
		k := vnd.Choose(len(pats))
		res = append(res, regexp.MustCompile(pats[k]))
		facets += facet("pattern", pats[k])
		if i == 0 {
			facets += facet("length", "3")
		}
	}
	t, err := restricted("s:string", facets)
	vnd.Assert(err == nil, "accepted")
	vnd.Assert(t.Restriction.Pattern != nil, "a pattern is recorded")
	vnd.Assert(t.Restriction.Length == 3, "the other facet")
	text := vnd.StringOf("abc", vnd.Choose(3))
	want := false
	for _, r := range res {
		if r.MatchString(text) {
			want = true
		}
	}
	vnd.Observe("text", text)
	vnd.Assert(t.Restriction.Pattern.MatchString(text) == want, "matches exactly when one of the patterns does")
}

// H_facet_none: no facets, or facets of other kinds, leave nothing.
func H_facet_none() {
	facets := ""
	for i := vnd.Choose(3); i > 0; i-- {
		facets += []string{"<s:whiteSpace value='collapse'/>", "<s:annotation/>", "<s:assertion value='x'/>"}[vnd.Choose(3)]
	}
	t, err := restricted("s:string", facets)
	vnd.Assert(err == nil, "accepted")
	r := t.Restriction
	vnd.Assert(len(r.Enum) == 0 && r.Pattern == nil && r.Length == 0 && r.MinLength == 0 && r.MaxLength == 0, "nothing recorded")
	vnd.Assert(r.Min == 0 && r.Max == 0 && r.MinDate.IsZero() && r.MaxDate.IsZero() && r.TotalDigits == 0 && r.Precision == 0, "nothing recorded")
	vnd.Assert(!t.List && len(t.Union) == 0 && t.Base == xsd.Type(xsd.String), "a restriction of its base")
}

// H_facet_bases: facets of a built-in that is neither a number nor a date do
// not make the schema invalid.
func H_facet_bases() {
	base := xsd.Builtin(vnd.Choose(48))
	name := base.Name().Local
	val := []string{"12", "--05-12", "P1D", "10:00:00", "1999", "1999-05"}[vnd.Choose(6)]
	f := []string{"minInclusive", "maxInclusive", "length", "pattern", "enumeration"}[vnd.Choose(5)]
	doc := open("u") + "<s:simpleType name='T'><s:restriction base='s:" + name + "'>" + facet(f, val) + "</s:restriction></s:simpleType>" + end
	s, err := parse(doc)
	if err == nil {
		closed(s)
	}
}

// H_member_order: the members of a union and the item of a list.
func H_member_order() {
	names := []string{"s:int", "t:A", "t:B", "s:date"}
	count := 1 + vnd.Choose(4+vnd.Tier())
	text := []string{"", " ", "\n\t"}[vnd.Choose(3)]
	var want []int
	for i := 0; i < count; i++ {
		k := vnd.Choose(4)
		want = append(want, k)
		text += names[k] + []string{" ", "  \n"}[i%2]
	}
	item := vnd.Choose(4)
	doc := open("u") + "<s:simpleType name='U'><s:union memberTypes='" + text + "'/></s:simpleType><s:simpleType name='L'><s:list itemType='" + names[item] + "'/></s:simpleType>" +
		"<s:simpleType name='A'><s:restriction base='s:int'/></s:simpleType><s:simpleType name='B'><s:list itemType='s:int'/></s:simpleType>" + end
	s := mustParse(doc)
	u := s["u"]
	types := []xsd.Type{xsd.Int, u.Types[n("u", "A")], u.Types[n("u", "B")], xsd.Date}
	got := simpleOf(u, "U")
	vnd.Assert(!got.List && len(got.Union) == count, "as many members")
	for i, k := range want {
		vnd.Assert(got.Union[i] == types[k], "the members in order")
	}
	l := simpleOf(u, "L")
	vnd.Assert(l.List && len(l.Union) == 0 && l.Base == types[item], "the item type")
}

// H_facet_time: limits of times, durations, and parts of dates, of types that
// derive from the built-in in one or more steps.
func H_facet_time() {
	kinds := []struct{ base, value string }{
		{"time", "1d:34:56"}, {"time", "08:d0:00.5"}, {"duration", "P1Y2M3DT1dH"}, {"duration", "-P3D"},
		{"gDay", "---1d"}, {"gMonth", "--0m"}, {"gMonthDay", "--1z-11"}, {"gYearMonth", "201d-07"}, {"gYear", "201d"},
	}
	k := kinds[vnd.Choose(len(kinds))]
	value := ""
	for i := 0; i < len(k.value); i++ {
		switch c := k.value[i]; {
		case c == 'd' && k.value[0] != 'P':
			value += vnd.StringOf("01245", 1)
		case c == 'm':
			value += vnd.StringOf("123456789", 1)
		case c == 'z':
			value += vnd.StringOf("012", 1)
		case c == 'd':
			value += "4"
		default:
			value += string([]byte{c})
		}
	}
	year := k.base == "gYear"
	number := 0.0
	if year {
		number = 2010 + float64(value[3]-'0')
	}
	if k.base != "duration" {
		value += []string{"", "Z", "+05:30", "-01:00"}[vnd.Choose(4)]
	}
	zoned := year && len(value) > 4
	steps := vnd.Choose(3)
	name := []string{"minInclusive", "maxExclusive", "minExclusive", "maxInclusive"}[vnd.Choose(2+2*vnd.Tier())]
	if steps == 1 {
		value = " " + value + "\n"
	}
	decl, base := "", "s:"+k.base
	for i := 0; i < steps; i++ {
		next := []string{"P", "Q"}[i]
		decl += "<s:simpleType name='" + next + "'><s:restriction base='" + base + "'/></s:simpleType>"
		base = "t:" + next
	}
	typ := "<s:simpleType name='T'><s:restriction base='" + base + "'>" + facet(name, value) + facet("pattern", ".*") + "</s:restriction></s:simpleType>"
	doc := open("u") + decl + typ + end
	if vnd.Choose(2) == 1 {
		doc = open("u") + typ + decl + end
	}
	s, err := parse(doc)
	vnd.Assert(err == nil, "accepted")
	r := simpleOf(s["u"], "T").Restriction
	vnd.Assert(r.Pattern != nil, "the other facet")
	vnd.Assert(r.MinDate.IsZero() && r.MaxDate.IsZero(), "not a point in time")
	got, other := r.Min, r.Max
	if name[1] == 'a' {
		got, other = other, got
	}
	vnd.Assert(other == 0, "nothing else")
	vnd.Assert(got == number || zoned && steps > 0 && got == 0, "years are numbers")
}
