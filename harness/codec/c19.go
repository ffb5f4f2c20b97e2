//go:build go1.21

// Package codec holds the properties of generated marshalling methods. The
// package codecws is generated from the schema in codecgen on every run.
package codec

import (
	"math"
	"strings"

	ws "aqwari.net/xml/internal/zzverif/codecws"
	"aqwari.net/xml/internal/zzverif/vnd"
)

type text interface {
	MarshalText() ([]byte, error)
	UnmarshalText([]byte) error
}

type ptr[T any] interface {
	*T
	text
}

// list marshals and unmarshals a list.
func list[T ~[]E, E comparable, P ptr[T]](items []E) {
	x := T(append([]E(nil), items...))
	b, err := P(&x).MarshalText()
	vnd.Assert(err == nil, "a list can be marshalled")
	vnd.Observe("text", string(b))
	var y T
	err = P(&y).UnmarshalText(b)
	vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
	vnd.Assert(len(y) == len(items), "as many items")
	for i := range items {
		vnd.Assert(y[i] == items[i], "the same items in the same order")
		vnd.Assert(x[i] == items[i], "marshalling does not change the list")
	}
}

// parse unmarshals text and compares with the items it has, if it is well
// formed.
func parse[T ~[]E, E comparable, P ptr[T]](src string, want []E, ok bool) {
	vnd.Observe("text", src)
	var y T
	b := []byte(src)
	err := P(&y).UnmarshalText(b)
	vnd.Assert(string(b) == src, "the text is not changed")
	if !ok {
		vnd.Assert(err != nil, "malformed text is an error")
		return
	}
	vnd.Assert(err == nil, "well-formed text is accepted")
	vnd.Assert(len(y) == len(want), "as many items as in the text")
	for i := range want {
		vnd.Assert(y[i] == want[i], "the items of the text in order")
	}
}

var stringLists = []struct {
	list  func([]string)
	parse func(string, []string, bool)
}{
	{list[ws.Lstring], parse[ws.Lstring]}, {list[ws.LID], parse[ws.LID]}, {list[ws.LNCName], parse[ws.LNCName]}, {list[ws.LNMTOKEN], parse[ws.LNMTOKEN]},
	{list[ws.LName], parse[ws.LName]}, {list[ws.LENTITY], parse[ws.LENTITY]}, {list[ws.LanyURI], parse[ws.LanyURI]}, {list[ws.Llanguage], parse[ws.Llanguage]},
	{list[ws.Ltoken], parse[ws.Ltoken]}, {list[ws.Lduration], parse[ws.Lduration]}, {list[ws.LnormalizedString], parse[ws.LnormalizedString]}, {list[ws.LanySimpleType], parse[ws.LanySimpleType]},
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// split is what XML Schema says about lists.
func split(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		if space(s[i]) {
			i++
			continue
		}
		j := i
		for j < len(s) && !space(s[j]) {
			j++
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

// H_list_strings: lists of strings of any bytes but white space.
func H_list_strings() {
	k := vnd.Choose(len(stringLists))
	n := vnd.Choose(3 + vnd.Tier())
	var items []string
	for i := 0; i < n; i++ {
		s := vnd.StringOf("a\xc2\x85\v", 1+vnd.Choose(2))
		if i == 0 {
			s = vnd.String(1 + vnd.Choose(2+vnd.Tier()))
		}
		for j := 0; j < len(s); j++ {
			vnd.Assume(vnd.And(vnd.And(s[j] != ' ', s[j] != '\t'), vnd.And(s[j] != '\n', s[j] != '\r')))
		}
		items = append(items, s)
	}
	stringLists[k].list(items)
}

// H_list_text: any text is a list of strings.
func H_list_text() {
	k := vnd.Choose(len(stringLists))
	s := vnd.StringOf("ab \t\n\r\x0b\x0c\x00", vnd.Choose(5+vnd.Tier()))
	stringLists[k].parse(s, split(s), true)
}

// H_list_space: characters that are white space elsewhere.
func H_list_space() {
	s := choose("\u0085", "\u00a0", "\u2028", "\u3000", "\u1680", "\u200a", "\xc2", "\x85", "\v", "\f", "\ufeff")
	list[ws.Lstring]([]string{s, "a" + s, s + "b", "a" + s + "b"})
}

func choose(s ...string) string { return s[vnd.Choose(len(s))] }
func flip() bool                { return vnd.Choose(2) == 1 }

// number reads a decimal number between min and max.
func number(s string, signed bool, min, max int64) (int64, bool) {
	neg := false
	if signed && s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return 0, false
	}
	var v int64
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int64(s[i]-'0')
		if v > max+1 {
			return 0, false
		}
	}
	if neg {
		v = -v
	}
	return v, v >= min && v <= max
}

func numbers[E int | int8 | int64 | uint | uint8 | uint64](s string, signed bool, min, max int64) ([]E, bool) {
	var out []E
	for _, x := range split(s) {
		v, ok := number(x, signed, min, max)
		if !ok {
			return nil, false
		}
		out = append(out, E(v))
	}
	return out, true
}

func ints[T ~[]int, P ptr[T]](s string) {
	w, ok := numbers[int](s, true, math.MinInt64/16, math.MaxInt64/16)
	parse[T, int, P](s, w, ok)
}

// H_list_numbers: any text as a list of numbers.
func H_list_numbers() {
	k := vnd.Choose(16)
	var s string
	if flip() {
		s = vnd.StringOf("0123456789+- .x", vnd.Choose(4+vnd.Tier()))
	} else {
		s = choose("1 ", "12 ", "-", " 25", "2", "12") + vnd.StringOf("0123456789- ", 2)
	}
	switch k {
	case 0:
		ints[ws.Lint](s)
	case 1:
		ints[ws.Linteger](s)
	case 2:
		ints[ws.LnegativeInteger](s)
	case 3:
		ints[ws.LnonNegativeInteger](s)
	case 4:
		ints[ws.LnonPositiveInteger](s)
	case 5:
		ints[ws.Lshort](s)
	case 6:
		ints[ws.LderivedInt](s)
	case 7:
		ints[ws.Again](s)
	case 8:
		w, ok := numbers[int64](s, true, math.MinInt64/16, math.MaxInt64/16)
		parse[ws.Llong](s, w, ok)
	case 9, 10:
		w, ok := numbers[uint](s, false, 0, math.MaxUint32)
		if k == 9 {
			parse[ws.LunsignedInt](s, w, ok)
		} else {
			parse[ws.LunsignedShort](s, w, ok)
		}
	case 11:
		w, ok := numbers[uint64](s, false, 0, math.MaxInt64/16)
		parse[ws.LunsignedLong](s, w, ok)
	case 12, 13:
		w, ok := numbers[int8](s, true, -128, 127)
		parse[ws.Lbyte](s, w, ok)
	case 14, 15:
		w, ok := numbers[byte](s, false, 0, 255)
		parse[ws.LunsignedByte](s, w, ok)
	}
}

// big is a number at one of the limits of 64, 32, 16 or 8 bits, or any small
// number.
func big(lo, hi int64) int64 {
	at := []int64{0, 0, 105, 127, -128, 255, 32767, -32768, 65535, 1 << 31, 1<<32 - 1, math.MaxInt64 - 1, math.MinInt64 + 1, 1e9, -1e18}
	i := vnd.Choose(len(at))
	v := at[i]
	if i < 3 {
		v += int64(vnd.Choose(19+180*vnd.Tier()) - 9 - 90*vnd.Tier())
	} else {
		v += int64(vnd.Choose(3)) - 1
	}
	vnd.Assume(v >= lo && v <= hi)
	return v
}

func two[E int | int8 | int64 | uint | uint8 | uint64](lo, hi int64) []E {
	x := []E{E(big(lo, hi))}
	if flip() {
		x = append(x, E(7+vnd.Choose(1+5*vnd.Tier())))
	}
	return x
}

// H_list_values: lists of numbers near the limits of their types.
func H_list_values() {
	switch vnd.Choose(9) {
	case 0:
		v := two[int](math.MinInt64, math.MaxInt64)
		[]func([]int){list[ws.Lint], list[ws.Linteger], list[ws.LderivedInt], list[ws.Again]}[vnd.Choose(4)](v)
	case 1:
		v := two[int](-32768, 32767)
		[]func([]int){list[ws.LnegativeInteger], list[ws.LnonNegativeInteger], list[ws.LnonPositiveInteger], list[ws.Lshort]}[vnd.Choose(4)](v)
	case 2:
		list[ws.Llong](two[int64](math.MinInt64, math.MaxInt64))
	case 3:
		list[ws.LunsignedInt](two[uint](0, math.MaxUint32))
	case 4:
		list[ws.LunsignedShort](two[uint](0, 65535))
	case 5:
		v := two[uint64](0, math.MaxInt64)
		list[ws.LunsignedLong](v)
		v[0] += 1 << 63
		list[ws.LunsignedLong](v)
	case 6:
		list[ws.Lbyte](two[int8](-128, 127))
	case 7:
		list[ws.LunsignedByte](two[byte](0, 255))
	case 8:
		v := []byte{vnd.Byte(), []byte{0, 9, 128, 255}[vnd.Choose(1+3*vnd.Tier())]}
		list[ws.LunsignedByte](v)
		list[ws.Lbyte]([]int8{int8(v[0]), int8(v[1])})
	}
}

// H_list_bools: lists of booleans.
func H_list_bools() {
	var v []bool
	for n := vnd.Choose(4 + 2*vnd.Tier()); len(v) < n; {
		v = append(v, vnd.Bool())
	}
	list[ws.Lboolean](v)
	list[ws.Fewer](v)
}

// H_list_boolText: any text as a list of booleans.
func H_list_boolText() {
	s := choose("", "true ", "false", " 0 ", "1") + vnd.StringOf("01truefalsT \t", vnd.Choose(4+vnd.Tier())) + choose("", "e", "ue", " 1")
	var w []bool
	ok := true
	for _, x := range split(s) {
		switch x {
		case "1", "true":
			w = append(w, true)
		case "0", "false":
			w = append(w, false)
		default:
			ok = false
		}
	}
	parse[ws.Lboolean](s, w, ok)
	parse[ws.Fewer](s, w, ok)
}

// H_list_floats: lists of some floating-point numbers, and malformed ones.
func H_list_floats() {
	v := []float64{0, 1, -1, 0.1, 1e300, -2.5e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, 123456789.125, math.Inf(1), math.Inf(-1)}
	i, j := vnd.Choose(len(v)), vnd.Choose(len(v))
	list[ws.Ldouble]([]float64{v[i], v[j]})
	list[ws.Ldecimal]([]float64{v[i], v[j]})
	bad := choose("x", "1 x", "1..2", "1 2.", "--1", "0.5 1e", "")
	var y ws.Ldouble
	err := y.UnmarshalText([]byte(bad))
	vnd.Assert((err == nil) == (bad == "1 2." || bad == ""), "malformed text is an error")
}

var hexDigits = "0123456789abcdefABCDEF"

func nibble(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

// H_hex: any bytes.
func H_hex() {
	b := vnd.Bytes(vnd.Choose(5 + 2*vnd.Tier()))
	x := ws.ShexBinary(append([]byte(nil), b...))
	t, err := x.MarshalText()
	vnd.Assert(err == nil, "bytes can be marshalled")
	vnd.Assert(len(t) == 2*len(b), "two digits per byte")
	vnd.Assert(string(x) == string(b), "marshalling does not change the value")
	var y ws.ShexBinary
	err = y.UnmarshalText(t)
	vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
	vnd.Assert(string(y) == string(b), "the same bytes")
}

// H_hex_text: any text as bytes in hexadecimal.
func H_hex_text() {
	s := vnd.String(vnd.Choose(4 + vnd.Tier()))
	if flip() {
		s = vnd.StringOf(hexDigits+"gG x@`/:", vnd.Choose(6))
	}
	if flip() {
		s = []string{" ", "\n\t", "\r\n  "}[vnd.Choose(3)] + s + []string{"", " ", "\t\n"}[vnd.Choose(3)]
	}
	text := s
	vnd.Observe("text", s)
	// white space around the value is not part of it
	for len(s) > 0 && space(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	var want []byte
	ok := len(s)%2 == 0
	for i := 0; ok && i < len(s); i += 2 {
		h, a := nibble(s[i])
		l, b := nibble(s[i+1])
		ok = a && b
		want = append(want, h<<4|l)
	}
	y := ws.ShexBinary("before")
	err := y.UnmarshalText([]byte(text))
	if !ok {
		vnd.Assert(err != nil, "malformed text is an error")
		return
	}
	vnd.Assert(err == nil, "well-formed text is accepted")
	vnd.Assert(string(y) == string(want), "the bytes written")
}

// H_base64: any bytes.
func H_base64() {
	b := vnd.Bytes(vnd.Choose(6 + 3*vnd.Tier()))
	x := ws.Sbase64Binary(append([]byte(nil), b...))
	t, err := x.MarshalText()
	vnd.Assert(err == nil, "bytes can be marshalled")
	vnd.Assert(len(t) == (len(b)+2)/3*4, "four characters per three bytes")
	vnd.Assert(string(x) == string(b), "marshalling does not change the value")
	var y ws.Sbase64Binary
	err = y.UnmarshalText(t)
	vnd.Assert(err == nil, "what was marshalled can be unmarshalled")
	vnd.Assert(string(y) == string(b), "the same bytes")
}

func sextet(c byte) (uint32, bool) {
	switch {
	case c >= 'A' && c <= 'Z':
		return uint32(c - 'A'), true
	case c >= 'a' && c <= 'z':
		return uint32(c-'a') + 26, true
	case c >= '0' && c <= '9':
		return uint32(c-'0') + 52, true
	case c == '+':
		return 62, true
	case c == '/':
		return 63, true
	}
	return 0, false
}

// H_base64_text: any text as bytes in base 64.
func H_base64_text() {
	text := vnd.StringOf("Az09+/=-_ !\n", vnd.Choose(6))
	if flip() {
		text = "\r\n\tAAAA " + text + []string{"", "\t", " \n"}[vnd.Choose(3)]
	}
	vnd.Observe("text", text)
	// white space is not part of the value
	s := ""
	for i := 0; i < len(text); i++ {
		if !space(text[i]) {
			s += text[i : i+1]
		}
	}
	n := strings.IndexByte(s, '=')
	if n < 0 {
		n = len(s)
	}
	ok := len(s)%4 == 0 && len(s)-n <= 2
	var want []byte
	var acc uint32
	bits := 0
	for i := 0; ok && i < len(s); i++ {
		if i >= n {
			ok = s[i] == '='
			continue
		}
		v, a := sextet(s[i])
		ok = a
		acc = acc<<6 | v
		bits += 6
		if bits >= 8 {
			bits -= 8
			want = append(want, byte(acc>>bits))
		}
	}
	y := ws.Sbase64Binary("before")
	err := y.UnmarshalText([]byte(text))
	if !ok {
		vnd.Assert(err != nil, "malformed text is an error")
		return
	}
	vnd.Assert(err == nil, "well-formed text is accepted")
	vnd.Assert(string(y) == string(want), "the bytes written")
}
