//go:build go1.21

package codec

import (
	"strings"
	"time"

	ws "aqwari.net/xml/internal/zzverif/codecws"
	"aqwari.net/xml/internal/zzverif/vnd"
)

// A kind is a date or time type: the parts it has, and its codecs.
type kind struct {
	name   string
	parts  string // of ymdt: year, month, day, time
	put    func(time.Time) ([]byte, error)
	get    func(string) (time.Time, error)
	putAll func([]time.Time) ([]byte, error)
	getAll func(string) ([]time.Time, error)
}

var kinds = []kind{
	{"date", "ymd",
		func(t time.Time) ([]byte, error) { return ws.Sdate(t).MarshalText() },
		func(s string) (time.Time, error) { var x ws.Sdate; err := x.UnmarshalText([]byte(s)); return time.Time(x), err },
		func(t []time.Time) ([]byte, error) { x := ws.Ldate(t); return x.MarshalText() },
		func(s string) ([]time.Time, error) { var x ws.Ldate; err := x.UnmarshalText([]byte(s)); return x, err }},
	{"dateTime", "ymdt",
		func(t time.Time) ([]byte, error) { return ws.SdateTime(t).MarshalText() },
		func(s string) (time.Time, error) { var x ws.SdateTime; err := x.UnmarshalText([]byte(s)); return time.Time(x), err },
		func(t []time.Time) ([]byte, error) { x := ws.LdateTime(t); return x.MarshalText() },
		func(s string) ([]time.Time, error) { var x ws.LdateTime; err := x.UnmarshalText([]byte(s)); return x, err }},
	{"gDay", "d",
		func(t time.Time) ([]byte, error) { return ws.SgDay(t).MarshalText() },
		func(s string) (time.Time, error) { var x ws.SgDay; err := x.UnmarshalText([]byte(s)); return time.Time(x), err },
		func(t []time.Time) ([]byte, error) { x := ws.LgDay(t); return x.MarshalText() },
		func(s string) ([]time.Time, error) { var x ws.LgDay; err := x.UnmarshalText([]byte(s)); return x, err }},
	{"gMonth", "m",
		func(t time.Time) ([]byte, error) { return ws.SgMonth(t).MarshalText() },
		func(s string) (time.Time, error) { var x ws.SgMonth; err := x.UnmarshalText([]byte(s)); return time.Time(x), err },
		func(t []time.Time) ([]byte, error) { x := ws.LgMonth(t); return x.MarshalText() },
		func(s string) ([]time.Time, error) { var x ws.LgMonth; err := x.UnmarshalText([]byte(s)); return x, err }},
	{"gMonthDay", "md",
		func(t time.Time) ([]byte, error) { return ws.SgMonthDay(t).MarshalText() },
		func(s string) (time.Time, error) { var x ws.SgMonthDay; err := x.UnmarshalText([]byte(s)); return time.Time(x), err },
		func(t []time.Time) ([]byte, error) { x := ws.LgMonthDay(t); return x.MarshalText() },
		func(s string) ([]time.Time, error) { var x ws.LgMonthDay; err := x.UnmarshalText([]byte(s)); return x, err }},
	{"gYear", "y",
		func(t time.Time) ([]byte, error) { return ws.SgYear(t).MarshalText() },
		func(s string) (time.Time, error) { var x ws.SgYear; err := x.UnmarshalText([]byte(s)); return time.Time(x), err },
		func(t []time.Time) ([]byte, error) { x := ws.LgYear(t); return x.MarshalText() },
		func(s string) ([]time.Time, error) { var x ws.LgYear; err := x.UnmarshalText([]byte(s)); return x, err }},
	{"gYearMonth", "ym",
		func(t time.Time) ([]byte, error) { return ws.SgYearMonth(t).MarshalText() },
		func(s string) (time.Time, error) { var x ws.SgYearMonth; err := x.UnmarshalText([]byte(s)); return time.Time(x), err },
		func(t []time.Time) ([]byte, error) { x := ws.LgYearMonth(t); return x.MarshalText() },
		func(s string) ([]time.Time, error) { var x ws.LgYearMonth; err := x.UnmarshalText([]byte(s)); return x, err }},
	{"time", "t",
		func(t time.Time) ([]byte, error) { return ws.Stime(t).MarshalText() },
		func(s string) (time.Time, error) { var x ws.Stime; err := x.UnmarshalText([]byte(s)); return time.Time(x), err },
		func(t []time.Time) ([]byte, error) { x := ws.Ltime(t); return x.MarshalText() },
		func(s string) ([]time.Time, error) { var x ws.Ltime; err := x.UnmarshalText([]byte(s)); return x, err }},
}

func (k kind) has(part string) bool { return strings.Contains(k.parts, part) }

// same asserts that the parts that k has agree.
func (k kind) same(a, b time.Time) {
	if k.has("y") {
		vnd.Assert(a.Year() == b.Year(), "the same year")
	}
	if k.has("m") {
		vnd.Assert(a.Month() == b.Month(), "the same month")
	}
	if k.has("d") {
		vnd.Assert(a.Day() == b.Day(), "the same day")
	}
	if k.has("t") {
		vnd.Assert(a.Hour() == b.Hour() && a.Minute() == b.Minute() && a.Second() == b.Second(), "the same time of day")
		vnd.Assert(a.Nanosecond() == b.Nanosecond(), "the same fraction of a second")
	}
	_, x := a.Zone()
	_, y := b.Zone()
	vnd.Assert(x == y, "the same offset")
}

func (k kind) roundTrip(t time.Time) {
	b, err := k.put(t)
	vnd.Assert(err == nil, "a time can be marshalled")
	vnd.Observe("text", string(b))
	u, err := k.get(string(b))
	vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
	k.same(t, u)
}

func zone() *time.Location {
	return []*time.Location{time.UTC, time.FixedZone("", 0), time.FixedZone("x", 3600), time.FixedZone("", -34200), time.FixedZone("", 50400), time.FixedZone("", -50400), time.FixedZone("", 60)}[vnd.Choose(4+3*vnd.Tier())]
}

// H_time_day: any day of some years, in several zones.
func H_time_day() {
	k := kinds[vnd.Choose(len(kinds))]
	if !k.has("d") && !k.has("m") && !k.has("y") {
		vnd.Assume(false)
	}
	year := []int{1970, 2004, 1, 9999, 900, 2023}[vnd.Choose(4+2*vnd.Tier())]
	month := 1 + vnd.Choose(12)
	last := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[month-1]
	if month == 2 && year == 2004 {
		last = 29
	}
	day := []int{1, 9, 10, 28, last}[vnd.Choose(5)]
	k.roundTrip(time.Date(year, time.Month(month), day, 0, 0, 0, 0, zone()))
}

// H_time_clock: any time of day.
func H_time_clock() {
	k := kinds[[]int{1, 7}[vnd.Choose(2)]]
	h, m, s := 12, 34, 56
	switch vnd.Choose(3) {
	case 0:
		h = vnd.Choose(24)
	case 1:
		m = vnd.Choose(60)
	case 2:
		s = vnd.Choose(60)
	}
	ns := []int{0, 1, 500000000, 120, 999999999, 1000, 123456789}[vnd.Choose(7)]
	k.roundTrip(time.Date(2004, 2, 29, h, m, s, ns, zone()))
}

// digits reads s[i:j] as a number.
func digits(s string, i, j int) (int, bool) {
	v := 0
	for ; i < j; i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	return v, true
}

func days(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// layouts of the types, with a digit of each part.
var layouts = map[string]string{"date": "yyyy-mm-dd", "dateTime": "yyyy-mm-ddThh:ii:ss", "gDay": "---dd", "gMonth": "--mm", "gMonthDay": "--mm-dd", "gYear": "yyyy", "gYearMonth": "yyyy-mm", "time": "hh:ii:ss"}

// read is what XML Schema says about the text of a type; sure is false for
// texts that time.Parse takes although they are not quite of the form.
func read(layout, s string) (t time.Time, ok bool) {
	if len(s) < len(layout) {
		return t, false
	}
	part := map[byte]int{'y': 0, 'm': 1, 'd': 1}
	for i := 0; i < len(layout); {
		c := layout[i]
		if c < 'a' || c > 'z' {
			if s[i] != c {
				return t, false
			}
			i++
			continue
		}
		j := i
		for j < len(layout) && layout[j] == c {
			j++
		}
		v, good := digits(s, i, j)
		if !good {
			return t, false
		}
		part[c] = v
		i = j
	}
	rest := s[len(layout):]
	ns := 0
	if strings.HasSuffix(layout, "ss") && rest != "" && rest[0] == '.' {
		j := 1
		scale := 100000000
		for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
			ns += int(rest[j]-'0') * scale
			scale /= 10
			j++
		}
		if j == 1 {
			return t, false
		}
		rest = rest[j:]
	}
	loc := time.UTC
	switch {
	case rest == "" || rest == "Z":
	case len(rest) == 6 && (rest[0] == '+' || rest[0] == '-') && rest[3] == ':':
		h, a := digits(rest, 1, 3)
		m, b := digits(rest, 4, 6)
		if !a || !b || h > 14 || m > 59 {
			return t, false
		}
		off := (h*60 + m) * 60
		if rest[0] == '-' {
			off = -off
		}
		loc = time.FixedZone("", off)
	default:
		return t, false
	}
	if part['m'] < 1 || part['m'] > 12 || part['d'] < 1 || part['d'] > days(part['y'], part['m']) || part['h'] > 23 || part['i'] > 59 || part['s'] > 59 {
		return t, false
	}
	return time.Date(part['y'], time.Month(part['m']), part['d'], part['h'], part['i'], part['s'], ns, loc), true
}

func (k kind) parse(s string) {
	vnd.Observe("text", s)
	want, ok := read(layouts[k.name], s)
	got, err := k.get(s)
	if !ok {
		vnd.Assert(err != nil, "malformed text is an error")
		return
	}
	vnd.Assert(err == nil, "well-formed text is accepted")
	vnd.Assert(got.Equal(want), "the instant written")
}

// H_time_digits: any two digits in the middle of a text.
func H_time_digits() {
	k := kinds[vnd.Choose(len(kinds))]
	s := []byte(map[string]string{"date": "2004-02-29", "dateTime": "1999-12-31T23:59:58", "gDay": "---31", "gMonth": "--12", "gMonthDay": "--02-29", "gYear": "2100", "gYearMonth": "1000-10", "time": "00:00:00"}[k.name])
	i := vnd.Choose(len(s))
	if s[i] < '0' || s[i] > '9' {
		vnd.Assume(false)
	}
	s[i] = vnd.ByteOf("0123456789")
	if i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
		s[i+1] = vnd.ByteOf("0123456789")
	}
	k.parse(string(s) + choose("", "Z", "+02:00"))
}

// H_time_zones: any zone.
func H_time_zones() {
	k := kinds[[]int{2, 5, 7, 4, 0, 1, 3, 6}[vnd.Choose(4+4*vnd.Tier())]]
	s := map[string]string{"date": "2004-02-29", "dateTime": "1999-12-31T23:59:58", "gDay": "---31", "gMonth": "--12", "gMonthDay": "--02-29", "gYear": "2100", "gYearMonth": "1000-10", "time": "00:00:00"}[k.name]
	z := choose("+0", "-1", "-0") + vnd.StringOf("01234", 1) + ":" + choose("00", "30", "59")
	if flip() {
		z = choose("+02:", "-14:", "-00:") + vnd.StringOf("012345", 1) + choose("0", "9")
	}
	k.parse(s + z)
}

// H_time_fraction: any fraction of a second.
func H_time_fraction() {
	k := kinds[[]int{1, 7}[vnd.Choose(2)]]
	s := map[string]string{"dateTime": "1999-12-31T23:59:58", "time": "00:00:00"}[k.name]
	k.parse(s + "." + vnd.StringOf("0123456789", vnd.Choose(4+vnd.Tier())) + choose("", "Z", "-01:00", "000007"))
}

// H_time_bad: a text with any one character replaced or inserted, or cut short.
func H_time_bad() {
	k := kinds[vnd.Choose(len(kinds))]
	s := map[string]string{"date": "2004-02-28", "dateTime": "1999-12-31T13:19:18Z", "gDay": "---11", "gMonth": "--12", "gMonthDay": "--02-28", "gYear": "2100", "gYearMonth": "1000-10", "time": "12:11:10"}[k.name]
	i := vnd.Choose(len(s) + 1)
	c := vnd.String(1)
	switch vnd.Choose(3) {
	case 0:
		if i == len(s) {
			vnd.Assume(false)
		}
		vnd.Assume(c[0] != ',')
		s = s[:i] + c + s[i+1:]
	case 1:
		vnd.Assume(c[0] != ',')
		s = s[:i] + c + s[i:]
	case 2:
		s = s[:i]
	}
	// white space around the text does not count
	vnd.Assume(!space(s0(s)) && !space(s0(rev(s))) && s0(s) != '\v' && s0(s) != '\f' && s0(rev(s)) != '\v' && s0(rev(s)) != '\f')
	k.parse(s)
}

func s0(s string) byte {
	if s == "" {
		return 'x'
	}
	return s[0]
}

func rev(s string) string {
	if s == "" {
		return s
	}
	return s[len(s)-1:]
}

// H_time_lists: lists of times.
func H_time_lists() {
	k := kinds[vnd.Choose(len(kinds))]
	var ts []time.Time
	n := vnd.Choose(4)
	for i := 0; i < n; i++ {
		ts = append(ts, time.Date(1000+i*777, time.Month(1+i*5), 1+i*14, 1+i, i*20, i*29, i*1000000, []*time.Location{time.UTC, time.FixedZone("", 5400)}[vnd.Choose(2)]))
	}
	b, err := k.putAll(ts)
	vnd.Assert(err == nil, "a list can be marshalled")
	vnd.Observe("text", string(b))
	us, err := k.getAll(choose("", " ", "\n\t") + strings.Replace(string(b), " ", choose(" ", " \n", "\r\t "), -1) + choose("", " "))
	vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
	vnd.Assert(len(us) == len(ts), "as many items")
	for i := range ts {
		k.same(ts[i], us[i])
	}
	if n > 0 {
		bad := choose("x", "--", "2004-13-01", "Z", "24:00:60")
		_, err = k.getAll(string(b) + " " + bad)
		vnd.Assert(err != nil, "a malformed item is an error")
	}
}
