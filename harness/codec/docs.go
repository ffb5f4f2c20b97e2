//go:build go1.21

package codec

import (
	"encoding/xml"
	"time"

	ws "aqwari.net/xml/internal/zzverif/codecws"
	"aqwari.net/xml/internal/zzverif/vnd"
)

// rec is a struct with a time in every place.
type rec struct {
	one   time.Time
	many  []time.Time
	named time.Time
	att   time.Time
}

type val struct {
	value time.Time
	n     int
}

// records marshal and unmarshal the structs generated for each kind.
var records = []struct {
	put    func(rec) ([]byte, error)
	get    func([]byte) (rec, error)
	putVal func(val) ([]byte, error)
	getVal func([]byte) (val, error)
}{
	{
		func(r rec) ([]byte, error) { return xml.Marshal(&ws.Edate{One: r.one, Many: r.many, Named: ws.Sdate(r.named), Att: r.att}) },
		func(b []byte) (rec, error) {
			var x ws.Edate
			err := xml.Unmarshal(b, &x)
			return rec{x.One, x.Many, time.Time(x.Named), x.Att}, err
		},
		func(v val) ([]byte, error) { return xml.Marshal(&ws.Cdate{Value: v.value, N: v.n}) },
		func(b []byte) (val, error) { var x ws.Cdate; err := xml.Unmarshal(b, &x); return val{x.Value, x.N}, err },
	},
	{
		func(r rec) ([]byte, error) { return xml.Marshal(&ws.EdateTime{One: r.one, Many: r.many, Named: ws.SdateTime(r.named), Att: r.att}) },
		func(b []byte) (rec, error) {
			var x ws.EdateTime
			err := xml.Unmarshal(b, &x)
			return rec{x.One, x.Many, time.Time(x.Named), x.Att}, err
		},
		func(v val) ([]byte, error) { return xml.Marshal(&ws.CdateTime{Value: v.value, N: v.n}) },
		func(b []byte) (val, error) { var x ws.CdateTime; err := xml.Unmarshal(b, &x); return val{x.Value, x.N}, err },
	},
	{
		func(r rec) ([]byte, error) { return xml.Marshal(&ws.EgDay{One: r.one, Many: r.many, Named: ws.SgDay(r.named), Att: r.att}) },
		func(b []byte) (rec, error) {
			var x ws.EgDay
			err := xml.Unmarshal(b, &x)
			return rec{x.One, x.Many, time.Time(x.Named), x.Att}, err
		},
		func(v val) ([]byte, error) { return xml.Marshal(&ws.CgDay{Value: v.value, N: v.n}) },
		func(b []byte) (val, error) { var x ws.CgDay; err := xml.Unmarshal(b, &x); return val{x.Value, x.N}, err },
	},
	{
		func(r rec) ([]byte, error) { return xml.Marshal(&ws.EgMonth{One: r.one, Many: r.many, Named: ws.SgMonth(r.named), Att: r.att}) },
		func(b []byte) (rec, error) {
			var x ws.EgMonth
			err := xml.Unmarshal(b, &x)
			return rec{x.One, x.Many, time.Time(x.Named), x.Att}, err
		},
		func(v val) ([]byte, error) { return xml.Marshal(&ws.CgMonth{Value: v.value, N: v.n}) },
		func(b []byte) (val, error) { var x ws.CgMonth; err := xml.Unmarshal(b, &x); return val{x.Value, x.N}, err },
	},
	{
		func(r rec) ([]byte, error) { return xml.Marshal(&ws.EgMonthDay{One: r.one, Many: r.many, Named: ws.SgMonthDay(r.named), Att: r.att}) },
		func(b []byte) (rec, error) {
			var x ws.EgMonthDay
			err := xml.Unmarshal(b, &x)
			return rec{x.One, x.Many, time.Time(x.Named), x.Att}, err
		},
		func(v val) ([]byte, error) { return xml.Marshal(&ws.CgMonthDay{Value: v.value, N: v.n}) },
		func(b []byte) (val, error) { var x ws.CgMonthDay; err := xml.Unmarshal(b, &x); return val{x.Value, x.N}, err },
	},
	{
		func(r rec) ([]byte, error) { return xml.Marshal(&ws.EgYear{One: r.one, Many: r.many, Named: ws.SgYear(r.named), Att: r.att}) },
		func(b []byte) (rec, error) {
			var x ws.EgYear
			err := xml.Unmarshal(b, &x)
			return rec{x.One, x.Many, time.Time(x.Named), x.Att}, err
		},
		func(v val) ([]byte, error) { return xml.Marshal(&ws.CgYear{Value: v.value, N: v.n}) },
		func(b []byte) (val, error) { var x ws.CgYear; err := xml.Unmarshal(b, &x); return val{x.Value, x.N}, err },
	},
	{
		func(r rec) ([]byte, error) { return xml.Marshal(&ws.EgYearMonth{One: r.one, Many: r.many, Named: ws.SgYearMonth(r.named), Att: r.att}) },
		func(b []byte) (rec, error) {
			var x ws.EgYearMonth
			err := xml.Unmarshal(b, &x)
			return rec{x.One, x.Many, time.Time(x.Named), x.Att}, err
		},
		func(v val) ([]byte, error) { return xml.Marshal(&ws.CgYearMonth{Value: v.value, N: v.n}) },
		func(b []byte) (val, error) { var x ws.CgYearMonth; err := xml.Unmarshal(b, &x); return val{x.Value, x.N}, err },
	},
	{
		func(r rec) ([]byte, error) { return xml.Marshal(&ws.Etime{One: r.one, Many: r.many, Named: ws.Stime(r.named), Att: r.att}) },
		func(b []byte) (rec, error) {
			var x ws.Etime
			err := xml.Unmarshal(b, &x)
			return rec{x.One, x.Many, time.Time(x.Named), x.Att}, err
		},
		func(v val) ([]byte, error) { return xml.Marshal(&ws.Ctime{Value: v.value, N: v.n}) },
		func(b []byte) (val, error) { var x ws.Ctime; err := xml.Unmarshal(b, &x); return val{x.Value, x.N}, err },
	},
}

// H_doc_times: documents with times in elements, attributes and content.
func H_doc_times() {
	i := vnd.Choose(len(kinds))
	k := kinds[i]
	z := []*time.Location{time.UTC, time.FixedZone("", -5400)}[vnd.Choose(2)]
	at := func(n int) time.Time {
		return time.Date(2000+n, time.Month(1+n%12), 1+n%28, n%24, n%60, n%59, n*1000000, z)
	}
	r := rec{one: at(1), named: at(40), att: at(59)}
	for n := vnd.Choose(3); len(r.many) < n; {
		r.many = append(r.many, at(70+13*len(r.many)))
	}
	b, err := records[i].put(r)
	vnd.Assert(err == nil, "a document can be marshalled")
	vnd.Observe("doc", string(b))
	g, err := records[i].get(b)
	vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
	k.same(r.one, g.one)
	k.same(r.named, g.named)
	k.same(r.att, g.att)
	vnd.Assert(len(g.many) == len(r.many), "as many repeated elements")
	for j := range r.many {
		k.same(r.many[j], g.many[j])
	}
	v := val{at(3), 7}
	b, err = records[i].putVal(v)
	vnd.Assert(err == nil, "content can be marshalled")
	vnd.Observe("doc", string(b))
	w, err := records[i].getVal(b)
	vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
	k.same(v.value, w.value)
	vnd.Assert(v.n == w.n, "the attribute beside the content")
}

// H_doc_bad: malformed text in a document is an error.
func H_doc_bad() {
	i := vnd.Choose(len(kinds))
	good := map[string]string{"date": "2004-02-28", "dateTime": "1999-12-31T13:19:18Z", "gDay": "---11", "gMonth": "--12", "gMonthDay": "--02-28", "gYear": "2100", "gYearMonth": "1000-10", "time": "12:11:10"}[kinds[i].name]
	bad := good[:len(good)-1] + vnd.StringOf("ax-:", 1)
	txt := []string{good, good, good, good}
	where := vnd.Choose(5)
	if where < 4 {
		txt[where] = bad
	}
	doc := "<e xmlns='u' att='" + txt[0] + "'><one>" + txt[1] + "</one><many>" + good + "</many><many> " + txt[2] + "\n</many><named>" + txt[3] + "</named></e>"
	vnd.Observe("doc", doc)
	g, err := records[i].get([]byte(doc))
	if where < 4 {
		vnd.Assert(err != nil, "malformed text is an error")
		return
	}
	vnd.Assert(err == nil, "well-formed text is accepted")
	want, _ := read(layouts[kinds[i].name], good)
	vnd.Assert(len(g.many) == 2 && g.one.Equal(want) && g.many[0].Equal(want) && g.many[1].Equal(want) && g.named.Equal(want) && g.att.Equal(want), "the instants written")
}

// H_doc_bytes: documents with bytes in elements, attributes and content.
func H_doc_bytes() {
	n := vnd.Choose(3 + vnd.Tier())
	a, b, c, d := vnd.Bytes(n), vnd.Bytes(1), vnd.Bytes(2), vnd.Bytes(1)
	var many [][]byte
	for k := vnd.Choose(3); len(many) < k; {
		many = append(many, []byte{byte(len(many)), d[0]})
	}
	var gota, gotb, gotc []byte
	var gotm [][]byte
	if flip() {
		x := ws.EhexBinary{One: a, Many: many, Named: b, Att: c}
		doc, err := xml.Marshal(&x)
		vnd.Assert(err == nil, "a document can be marshalled")
		vnd.Observe("doc", string(doc))
		var y ws.EhexBinary
		err = xml.Unmarshal(doc, &y)
		vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
		gota, gotb, gotc, gotm = y.One, y.Named, y.Att, y.Many
		u := ws.ChexBinary{Value: c, N: 3}
		doc, err = xml.Marshal(&u)
		vnd.Assert(err == nil, "content can be marshalled")
		var w ws.ChexBinary
		err = xml.Unmarshal(doc, &w)
		vnd.Assert(err == nil && string(w.Value) == string(c) && w.N == 3, "content is unmarshalled")
	} else {
		x := ws.Ebase64Binary{One: a, Many: many, Named: b, Att: c}
		doc, err := xml.Marshal(&x)
		vnd.Assert(err == nil, "a document can be marshalled")
		vnd.Observe("doc", string(doc))
		var y ws.Ebase64Binary
		err = xml.Unmarshal(doc, &y)
		vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
		gota, gotb, gotc, gotm = y.One, y.Named, y.Att, y.Many
		u := ws.Cbase64Binary{Value: c, N: 3}
		doc, err = xml.Marshal(&u)
		vnd.Assert(err == nil, "content can be marshalled")
		var w ws.Cbase64Binary
		err = xml.Unmarshal(doc, &w)
		vnd.Assert(err == nil && string(w.Value) == string(c) && w.N == 3, "content is unmarshalled")
	}
	vnd.Assert(string(gota) == string(a), "the bytes of an element")
	vnd.Assert(string(gotb) == string(b), "the bytes of an element of a named type")
	vnd.Assert(string(gotc) == string(c), "the bytes of an attribute")
	vnd.Assert(len(gotm) == len(many), "as many repeated elements")
	for i := range many {
		vnd.Assert(string(gotm[i]) == string(many[i]), "the bytes of repeated elements")
	}
}

// H_doc_lists: documents with lists in elements and attributes.
func H_doc_lists() {
	x := ws.H{Ints: ws.Lint{-3, 1000000}, Strs: ws.Lstring{"a" + vnd.StringOf("<&'\"z>", 1), "b"}, Flags: ws.Lboolean{vnd.Bool(), true}}
	for k := vnd.Choose(3); len(x.Days) < k; {
		x.Days = append(x.Days, time.Date(2004, 2, 28+len(x.Days), 0, 0, 0, 0, time.UTC))
	}
	doc, err := xml.Marshal(&x)
	vnd.Assert(err == nil, "a document can be marshalled")
	vnd.Observe("doc", string(doc))
	var y ws.H
	err = xml.Unmarshal(doc, &y)
	vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
	vnd.Assert(len(y.Ints) == 2 && y.Ints[0] == -3 && y.Ints[1] == 1000000, "the numbers")
	vnd.Assert(len(y.Strs) == 2 && y.Strs[0] == x.Strs[0] && y.Strs[1] == "b", "the strings")
	vnd.Assert(len(y.Flags) == 2 && y.Flags[0] == x.Flags[0] && y.Flags[1], "the booleans")
	vnd.Assert(len(y.Days) == len(x.Days), "as many days")
	for i := range x.Days {
		vnd.Assert(y.Days[i].Equal(x.Days[i]), "the days")
	}
}
