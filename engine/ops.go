package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func fl(v Value) float64 { return math.Float64frombits(v.n) }
func fv(f float64) Value { return Value{n: math.Float64bits(f)} }

var cmpSwap = map[token.Token]bool{token.GTR: true, token.GEQ: true}

func (c *compiler) binop(in *ssa.BinOp, dst int) func(*Frame) {
	x, y := c.op(in.X), c.op(in.Y)
	t := rtypeOf(in.X.Type())
	op := in.Op
	if t.isInt() || (t.kind == KUnsafePointer && false) {
		return c.intBin(op, t, rtypeOf(in.Y.Type()), x, y, dst)
	}
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		// constant nil comparisons and same-type comparisons
		yt := rtypeOf(in.Y.Type())
		return func(fr *Frame) {
			r := fr.w.equal(t, fr.get(&x), yt, fr.get(&y))
			if neg {
				r = fr.w.notv(r)
			}
			fr.regs[dst] = r
		}
	}
	if t.isFloat() {
		return func(fr *Frame) {
			a, b := fl(fr.get(&x)), fl(fr.get(&y))
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				fr.regs[dst] = bval(a < b)
				return
			case token.LEQ:
				fr.regs[dst] = bval(a <= b)
				return
			case token.GTR:
				fr.regs[dst] = bval(a > b)
				return
			case token.GEQ:
				fr.regs[dst] = bval(a >= b)
				return
			}
			if t.kind == KFloat32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = fv(r)
		}
	}
	if t.kind == KString {
		return func(fr *Frame) {
			a, b := fr.get(&x), fr.get(&y)
			switch op {
			case token.ADD:
				fr.regs[dst] = strConcat(a, b)
			case token.LSS:
				fr.regs[dst] = fr.w.strLess(a, b)
			case token.GTR:
				fr.regs[dst] = fr.w.strLess(b, a)
			case token.LEQ:
				fr.regs[dst] = fr.w.notv(fr.w.strLess(b, a))
			case token.GEQ:
				fr.regs[dst] = fr.w.notv(fr.w.strLess(a, b))
			}
		}
	}
	if t.kind == KBool {
		return func(fr *Frame) {
			a, b := fr.get(&x), fr.get(&y)
			ta, tb := fr.w.term(a, 0), fr.w.term(b, 0)
			switch op {
			case token.AND:
				fr.regs[dst] = tv(fr.w.ts.and(ta, tb))
			case token.OR:
				fr.regs[dst] = tv(fr.w.ts.or(ta, tb))
			default:
				fr.w.unsupported("bool op")
			}
		}
	}
	if t.kind == KComplex128 || t.kind == KComplex64 {
		return func(fr *Frame) {
			a, b := cplx(fr.get(&x)), cplx(fr.get(&y))
			switch op {
			case token.ADD:
				fr.regs[dst] = Value{p: a + b}
			case token.SUB:
				fr.regs[dst] = Value{p: a - b}
			case token.MUL:
				fr.regs[dst] = Value{p: a * b}
			case token.QUO:
				fr.regs[dst] = Value{p: a / b}
			}
		}
	}
	s := fmt.Sprintf("binop %s on %s", op, t)
	return func(fr *Frame) { fr.w.unsupported(s) }
}

func cplx(v Value) complex128 {
	if v.p == nil {
		return 0
	}
	return v.p.(complex128)
}

func (w *Worker) notv(v Value) Value {
	if v.p == nil {
		return Value{n: v.n ^ 1}
	}
	return tv(w.ts.not(v.p.(*Term)))
}

func (c *compiler) intBin(op token.Token, t, yt *RType, x, y opnd, dst int) func(*Frame) {
	wd, sg := t.w, t.signed
	m := mask(wd)
	// concrete fast path, symbolic slow path
	slow := func(fr *Frame, a, b Value) {
		fr.regs[dst] = fr.w.symInt(op, wd, sg, a, b, yt)
	}
	fast := func(f func(a, b uint64) uint64) func(*Frame) {
		return func(fr *Frame) {
			a, b := fr.get(&x), fr.get(&y)
			if a.p == nil && b.p == nil {
				fr.regs[dst] = Value{n: f(a.n, b.n)}
				return
			}
			slow(fr, a, b)
		}
	}
	switch op {
	case token.ADD:
		return fast(func(a, b uint64) uint64 { return (a + b) & m })
	case token.SUB:
		return fast(func(a, b uint64) uint64 { return (a - b) & m })
	case token.MUL:
		return fast(func(a, b uint64) uint64 { return (a * b) & m })
	case token.AND:
		return fast(func(a, b uint64) uint64 { return a & b })
	case token.OR:
		return fast(func(a, b uint64) uint64 { return a | b })
	case token.XOR:
		return fast(func(a, b uint64) uint64 { return a ^ b })
	case token.AND_NOT:
		return fast(func(a, b uint64) uint64 { return a &^ b })
	case token.EQL:
		return fast(func(a, b uint64) uint64 { return b2u(a == b) })
	case token.NEQ:
		return fast(func(a, b uint64) uint64 { return b2u(a != b) })
	}
	if sg {
		switch op {
		case token.LSS:
			return fast(func(a, b uint64) uint64 { return b2u(sext(a, wd) < sext(b, wd)) })
		case token.LEQ:
			return fast(func(a, b uint64) uint64 { return b2u(sext(a, wd) <= sext(b, wd)) })
		case token.GTR:
			return fast(func(a, b uint64) uint64 { return b2u(sext(a, wd) > sext(b, wd)) })
		case token.GEQ:
			return fast(func(a, b uint64) uint64 { return b2u(sext(a, wd) >= sext(b, wd)) })
		}
	} else {
		switch op {
		case token.LSS:
			return fast(func(a, b uint64) uint64 { return b2u(a < b) })
		case token.LEQ:
			return fast(func(a, b uint64) uint64 { return b2u(a <= b) })
		case token.GTR:
			return fast(func(a, b uint64) uint64 { return b2u(a > b) })
		case token.GEQ:
			return fast(func(a, b uint64) uint64 { return b2u(a >= b) })
		}
	}
	return func(fr *Frame) {
		fr.regs[dst] = fr.w.symInt(op, wd, sg, fr.get(&x), fr.get(&y), yt)
	}
}

// symInt evaluates an integer operation on possibly symbolic operands.
func (w *Worker) symInt(op token.Token, wd uint8, sg bool, a, b Value, yt *RType) Value {
	ts := w.ts
	switch op {
	case token.SHL, token.SHR:
		if yt.signed {
			neg := w.branchIfSym(ts.cmp(OpSlt, w.term(b, yt.w), ts.bv(0, yt.w)))
			if neg {
				w.rtPanic("negative shift amount")
			}
		}
		if a.p == nil && b.p == nil {
			k := b.n
			switch {
			case op == token.SHL:
				if k >= uint64(wd) {
					return Value{}
				}
				return Value{n: a.n << k & mask(wd)}
			case sg:
				if k >= uint64(wd) {
					k = uint64(wd) - 1
				}
				return Value{n: uint64(sext(a.n, wd)>>k) & mask(wd)}
			default:
				if k >= uint64(wd) {
					return Value{}
				}
				return Value{n: a.n >> k}
			}
		}
		ta := w.term(a, wd)
		tb := w.term(b, yt.w)
		// bring the count to the width of a, saturating
		var cnt *Term
		if yt.w <= wd {
			cnt = ts.zext(tb, wd)
		} else {
			big := ts.cmp(OpUle, ts.bv(uint64(wd), yt.w), tb)
			cnt = ts.ite(big, ts.bv(uint64(wd), wd), ts.trunc(tb, wd))
		}
		o := OpShl
		if op == token.SHR {
			o = OpLShr
			if sg {
				o = OpAShr
			}
		}
		return tv(ts.bin(o, ta, cnt))
	case token.QUO, token.REM:
		zero := w.branchIfSym(ts.eq(w.term(b, wd), ts.bv(0, wd)))
		if zero {
			w.rtPanic("integer divide by zero")
		}
		o := OpUDiv
		switch {
		case op == token.QUO && sg:
			o = OpSDiv
		case op == token.REM && sg:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		if a.p == nil && b.p == nil {
			return Value{n: foldBin(o, wd, a.n, b.n)}
		}
		ta, tb := w.term(a, wd), w.term(b, wd)
		if sg && ta.ub <= mask(wd-1) && tb.ub <= mask(wd-1) {
			if o == OpSDiv {
				o = OpUDiv
			} else {
				o = OpURem
			}
		}
		return tv(ts.bin(o, ta, tb))
	}
	ta, tb := w.term(a, wd), w.term(b, wd)
	switch op {
	case token.ADD:
		return tv(ts.bin(OpAdd, ta, tb))
	case token.SUB:
		return tv(ts.bin(OpSub, ta, tb))
	case token.MUL:
		return tv(ts.bin(OpMul, ta, tb))
	case token.AND:
		return tv(ts.bin(OpBAnd, ta, tb))
	case token.OR:
		return tv(ts.bin(OpBOr, ta, tb))
	case token.XOR:
		return tv(ts.bin(OpBXor, ta, tb))
	case token.AND_NOT:
		return tv(ts.bin(OpBAnd, ta, ts.bnot(tb)))
	case token.EQL:
		return tv(ts.eq(ta, tb))
	case token.NEQ:
		return tv(ts.not(ts.eq(ta, tb)))
	case token.LSS, token.GTR:
		if op == token.GTR {
			ta, tb = tb, ta
		}
		if sg {
			return tv(ts.cmp(OpSlt, ta, tb))
		}
		return tv(ts.cmp(OpUlt, ta, tb))
	case token.LEQ, token.GEQ:
		if op == token.GEQ {
			ta, tb = tb, ta
		}
		if sg {
			return tv(ts.cmp(OpSle, ta, tb))
		}
		return tv(ts.cmp(OpUle, ta, tb))
	}
	panic("symInt " + op.String())
}

func (w *Worker) branchIfSym(t *Term) bool { return w.branch(tv(t)) }

// equal gives the condition x == y.
func (w *Worker) equal(t *RType, x Value, yt *RType, y Value) Value {
	switch t.kind {
	case KString:
		if yt.kind == KString {
			return w.strEq(x, y)
		}
	case KInterface:
		if yt.kind == KInterface || yt.kind == KInvalid {
			return w.ifaceEq(x, y)
		}
		if x.p == nil {
			return bval(false)
		}
		i := x.p.(*Iface)
		if i.t != yt {
			return bval(false)
		}
		return w.equal(yt, i.v, yt, y)
	case KStruct:
		if yt.kind == KInterface {
			return w.equal(yt, y, t, x)
		}
		a, b := x.p.(Agg), y.p.(Agg)
		return w.aggEq(t, a, b)
	case KArray:
		a, b := x.p.(Agg), y.p.(Agg)
		return w.aggEq(t, a, b)
	case KFloat32, KFloat64:
		return bval(fl(x) == fl(y))
	case KComplex64, KComplex128:
		return bval(cplx(x) == cplx(y))
	}
	if yt.kind == KInterface && t.kind != KInterface {
		return w.equal(yt, y, t, x)
	}
	if t.kind == KBool {
		return tv(w.ts.eq(w.term(x, 0), w.term(y, 0)))
	}
	if t.isInt() {
		return tv(w.ts.eq(w.term(x, t.w), w.term(y, t.w)))
	}
	// pointers, funcs, maps, chans, slices (against nil)
	if x.p == nil || y.p == nil {
		if t.kind == KUnsafePointer || t.kind == KPointer {
			return bval(x.p == nil && y.p == nil && x.n == y.n)
		}
		return bval(x.p == nil && y.p == nil)
	}
	switch a := x.p.(type) {
	case *Object:
		b, ok := y.p.(*Object)
		return bval(ok && a == b && x.n == y.n)
	case *RType:
		b, ok := y.p.(*RType)
		return bval(ok && a == b)
	case *Map:
		b, ok := y.p.(*Map)
		return bval(ok && a == b)
	case *Closure:
		return bval(false)
	}
	return bval(x.p == y.p && x.n == y.n)
}

func (w *Worker) aggEq(t *RType, a, b []Value) Value {
	r := w.ts.tru
	if t.kind == KArray {
		et := t.elem
		for i := 0; i < t.n; i++ {
			e := w.equal(et, unflat2(et, a, i*et.cells), et, unflat2(et, b, i*et.cells))
			r = w.ts.and(r, w.term(e, 0))
			if r == w.ts.fals {
				return bval(false)
			}
		}
		return tv(r)
	}
	for _, f := range t.fields {
		if f.name == "_" {
			continue
		}
		e := w.equal(f.t, unflat2(f.t, a, f.off), f.t, unflat2(f.t, b, f.off))
		r = w.ts.and(r, w.term(e, 0))
		if r == w.ts.fals {
			return bval(false)
		}
	}
	return tv(r)
}

func (w *Worker) ifaceEq(x, y Value) Value {
	if x.p == nil || y.p == nil {
		return bval(x.p == nil && y.p == nil)
	}
	a, b := x.p.(*Iface), y.p.(*Iface)
	if a.t != b.t {
		return bval(false)
	}
	if !types.Comparable(a.t.t) {
		w.rtPanic("comparing uncomparable type " + a.t.String())
	}
	return w.equal(a.t, a.v, b.t, b.v)
}

// ---- conversions

func (c *compiler) convert(from, to *RType, x opnd, dst int) func(*Frame) {
	switch {
	case from.isInt() && to.isInt():
		fw, fs, tw := from.w, from.signed, to.w
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				if fs {
					fr.regs[dst] = Value{n: uint64(sext(v.n, fw)) & mask(tw)}
				} else {
					fr.regs[dst] = Value{n: v.n & mask(tw)}
				}
				return
			}
			fr.regs[dst] = fr.w.convInt(v, fw, fs, tw)
		}
	case from.isInt() && to.isFloat():
		return func(fr *Frame) {
			n := fr.w.concrete(fr.get(&x), from.w, "int to float")
			var f float64
			if from.signed {
				f = float64(sext(n, from.w))
			} else {
				f = float64(n)
			}
			if to.kind == KFloat32 {
				if from.signed {
					f = float64(float32(sext(n, from.w)))
				} else {
					f = float64(float32(n))
				}
			}
			fr.regs[dst] = fv(f)
		}
	case from.isFloat() && to.isInt():
		return func(fr *Frame) {
			f := fl(fr.get(&x))
			if to.signed {
				fr.regs[dst] = Value{n: uint64(int64(f)) & mask(to.w)}
			} else {
				fr.regs[dst] = Value{n: uint64(f) & mask(to.w)}
			}
		}
	case from.isFloat() && to.isFloat():
		return func(fr *Frame) {
			f := fl(fr.get(&x))
			if to.kind == KFloat32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = fv(f)
		}
	case to.kind == KString && from.isInt():
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				r := rune(sext(v.n, from.w))
				if from.w > 32 && sext(v.n, from.w) != int64(r) {
					r = utf8.RuneError
				}
				fr.regs[dst] = mkstr(string(r))
				return
			}
			t := fr.w.convInt(v, from.w, from.signed, 32)
			fr.regs[dst] = symstr(fr.w.encodeRune(t), true)
		}
	case to.kind == KString && from.kind == KString:
		return func(fr *Frame) { fr.regs[dst] = fr.get(&x) }
	case to.kind == KString && from.kind == KSlice:
		if from.elemT().w == 8 {
			return func(fr *Frame) {
				fr.regs[dst] = symstr(sliceCells(fr.get(&x), 1), false)
			}
		}
		return func(fr *Frame) {
			var out []Value
			for _, r := range sliceCells(fr.get(&x), 1) {
				out = append(out, fr.w.encodeRune(r)...)
			}
			fr.regs[dst] = symstr(out, true)
		}
	case to.kind == KSlice && from.kind == KString:
		et := to.elemT()
		if et.w == 8 {
			return func(fr *Frame) {
				b := strBytes(fr.get(&x))
				n := len(b)
				cells := make([]Value, roundupsize(n))
				copy(cells, b)
				o := &Object{cells: cells, epoch: fr.w.epoch, elem: et}
				fr.regs[dst] = Value{p: &Slice{o, 0, n, len(cells)}}
			}
		}
		return func(fr *Frame) {
			s := fr.get(&x)
			var out []Value
			for i := 0; i < strLen(s); {
				r, n := fr.w.decodeRune(s, i)
				out = append(out, r)
				i += n
			}
			o := &Object{cells: out, epoch: fr.w.epoch, elem: et}
			fr.regs[dst] = Value{p: &Slice{o, 0, len(out), len(out)}}
		}
	case to.kind == KUnsafePointer && from.kind == KUintptr, to.kind == KUintptr && from.kind == KUnsafePointer:
		return func(fr *Frame) { fr.regs[dst] = fr.get(&x) }
	case to.kind == KUnsafePointer || from.kind == KUnsafePointer:
		return func(fr *Frame) { fr.regs[dst] = fr.get(&x) }
	case to.kind == from.kind:
		return func(fr *Frame) { fr.regs[dst] = fr.get(&x) }
	case to.kind == KComplex128 || to.kind == KComplex64:
		return func(fr *Frame) { fr.regs[dst] = fr.get(&x) }
	case to.kind == KArray && from.kind == KSlice:
		n := to.n
		return func(fr *Frame) {
			v := fr.get(&x)
			c := sliceCells(v, to.elem.cells)
			if len(c) < n*to.elem.cells {
				fr.w.rtPanic("cannot convert slice to array")
			}
			fr.regs[dst] = Value{p: Agg(append([]Value(nil), c[:to.cells]...))}
		}
	}
	s := fmt.Sprintf("conversion %s to %s", from, to)
	return func(fr *Frame) { fr.w.unsupported(s) }
}

func (w *Worker) convInt(v Value, fw uint8, fs bool, tw uint8) Value {
	if v.p == nil {
		if fs {
			return Value{n: uint64(sext(v.n, fw)) & mask(tw)}
		}
		return Value{n: v.n & mask(tw)}
	}
	t, ok := v.p.(*Term)
	if !ok {
		return v
	}
	switch {
	case tw == fw:
		return v
	case tw < fw:
		return tv(w.ts.trunc(t, tw))
	case fs:
		return tv(w.ts.sext(t, tw))
	default:
		return tv(w.ts.zext(t, tw))
	}
}

// decodeRune decodes one rune of a string or *SymStr at byte i; it forks as
// needed so that the width is concrete.
func (w *Worker) decodeRune(s Value, i int) (Value, int) {
	if c, ok := s.p.(string); ok {
		r, n := utf8.DecodeRuneInString(c[i:])
		return Value{n: uint64(uint32(r))}, n
	}
	return w.decodeRuneCells(s.p.(*SymStr).b[i:])
}

func (w *Worker) inRange8(v Value, lo, hi uint64) bool {
	if v.p == nil {
		return v.n >= lo && v.n <= hi
	}
	t := v.p.(*Term)
	return w.branch(tv(w.ts.and(w.ts.cmp(OpUle, w.ts.bv(lo, 8), t), w.ts.cmp(OpUle, t, w.ts.bv(hi, 8)))))
}

func (w *Worker) decodeRuneCells(b []Value) (Value, int) {
	if len(b) == 0 {
		return Value{n: utf8.RuneError}, 0
	}
	n := len(b)
	if n > 4 {
		n = 4
	}
	conc := true
	for k := 0; k < n; k++ {
		if b[k].p != nil {
			conc = false
			break
		}
		if k == 0 && b[0].n < 0x80 {
			return Value{n: b[0].n}, 1
		}
	}
	if conc {
		var buf [4]byte
		for k := 0; k < n; k++ {
			buf[k] = byte(b[k].n)
		}
		r, sz := utf8.DecodeRune(buf[:n])
		return Value{n: uint64(uint32(r))}, sz
	}
	ts := w.ts
	bad := Value{n: utf8.RuneError}
	t0 := w.term(b[0], 8)
	if w.inRange8(b[0], 0, 0x7F) {
		return tv(ts.zext(t0, 32)), 1
	}
	type cls struct {
		lo, hi   uint64
		n        int
		lo1, hi1 uint64
		m        uint64
	}
	for _, c := range []cls{
		{0xC2, 0xDF, 2, 0x80, 0xBF, 0x1F},
		{0xE0, 0xE0, 3, 0xA0, 0xBF, 0x0F},
		{0xE1, 0xEC, 3, 0x80, 0xBF, 0x0F},
		{0xED, 0xED, 3, 0x80, 0x9F, 0x0F},
		{0xEE, 0xEF, 3, 0x80, 0xBF, 0x0F},
		{0xF0, 0xF0, 4, 0x90, 0xBF, 0x07},
		{0xF1, 0xF3, 4, 0x80, 0xBF, 0x07},
		{0xF4, 0xF4, 4, 0x80, 0x8F, 0x07},
	} {
		if b[0].p == nil && (b[0].n < c.lo || b[0].n > c.hi) {
			continue
		}
		if !w.inRange8(b[0], c.lo, c.hi) {
			continue
		}
		if len(b) < c.n {
			return bad, 1
		}
		r := ts.bin(OpBAnd, ts.zext(t0, 32), ts.bv(c.m, 32))
		for k := 1; k < c.n; k++ {
			lo, hi := uint64(0x80), uint64(0xBF)
			if k == 1 {
				lo, hi = c.lo1, c.hi1
			}
			if !w.inRange8(b[k], lo, hi) {
				return bad, 1
			}
			tk := ts.zext(w.term(b[k], 8), 32)
			r = ts.bin(OpBOr, ts.bin(OpShl, r, ts.bv(6, 32)), ts.bin(OpBAnd, tk, ts.bv(0x3F, 32)))
		}
		return tv(r), c.n
	}
	return bad, 1
}

// encodeRune gives the UTF-8 bytes of a rune value (32 bits).
func (w *Worker) encodeRune(r Value) []Value {
	if r.p == nil {
		return concBytes([]byte(string(rune(int32(uint32(r.n))))))
	}
	ts := w.ts
	t := r.p.(*Term)
	lt := func(k uint64) bool { return w.branch(tv(ts.cmp(OpUlt, t, ts.bv(k, 32)))) }
	b := func(x *Term) Value { return tv(ts.trunc(x, 8)) }
	part := func(sh uint64, m, or uint64) Value {
		return b(ts.bin(OpBOr, ts.bin(OpBAnd, ts.bin(OpLShr, t, ts.bv(sh, 32)), ts.bv(m, 32)), ts.bv(or, 32)))
	}
	switch {
	case lt(0x80):
		return []Value{b(t)}
	case lt(0x800):
		return []Value{part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)}
	}
	sur := ts.and(ts.cmp(OpUle, ts.bv(0xD800, 32), t), ts.cmp(OpUle, t, ts.bv(0xDFFF, 32)))
	if w.branch(tv(ts.or(sur, ts.cmp(OpUlt, ts.bv(0x10FFFF, 32), t)))) {
		return concBytes([]byte("\uFFFD"))
	}
	if lt(0x10000) {
		return []Value{part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	return []Value{part(18, 0x07, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
}

// ---- indexing

type symPtr struct {
	obj   *Object
	cells []Value // when reading from an aggregate or snapshot
	off   int
	n     int
	idx   *Term // 64-bit, in range
}

// boundsCheck checks 0 <= idx < n for an index value of type t.
func (w *Worker) boundsCheck(idx Value, t *RType, n int) {
	if idx.p == nil {
		i := sext(idx.n, t.w)
		if !t.signed {
			i = int64(idx.n)
		}
		if i < 0 || i >= int64(n) || (!t.signed && idx.n >= uint64(n)) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return
	}
	tm := idx.p.(*Term)
	var ok *Term
	if uint64(n) > mask(t.w) {
		ok = w.ts.tru
		if t.signed {
			ok = w.ts.not(w.ts.cmp(OpSlt, tm, w.ts.bv(0, t.w)))
		}
	} else {
		ok = w.ts.cmp(OpUlt, tm, w.ts.bv(uint64(n), t.w))
	}
	if !w.branch(tv(ok)) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (w *Worker) idx64(idx Value, t *RType) *Term {
	return w.term(w.convInt(idx, t.w, t.signed, 64), 64)
}

func onlyLoads(in ssa.Value) bool {
	refs := in.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	for _, r := range *refs {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (c *compiler) indexAddr(in *ssa.IndexAddr, dst int) func(*Frame) {
	x, ix := c.op(in.X), c.op(in.Index)
	it := rtypeOf(in.Index.Type())
	xt := rtypeOf(in.X.Type())
	if xt.kind == KSlice {
		et := xt.elemT()
		st := et.cells
		sym := onlyLoads(in) && (et.isInt() || et.kind == KBool)
		return func(fr *Frame) {
			xv := fr.get(&x)
			iv := fr.get(&ix)
			n, off := 0, 0
			var o *Object
			if xv.p != nil {
				s := xv.p.(*Slice)
				n, off, o = s.len, s.off, s.obj
			}
			fr.w.boundsCheck(iv, it, n)
			if iv.p != nil {
				if sym {
					fr.regs[dst] = Value{p: &symPtr{obj: o, off: off, n: n, idx: fr.w.idx64(iv, it)}}
					return
				}
				iv.n = fr.w.concrete(iv, it.w, "index")
			}
			fr.regs[dst] = Value{p: o, n: uint64(off + int(iv.n)*st)}
		}
	}
	at := rtypeOf(in.X.Type().Underlying().(*types.Pointer).Elem())
	et := at.elem
	n := at.n
	sym := onlyLoads(in) && (et.isInt() || et.kind == KBool)
	return func(fr *Frame) {
		xv := fr.get(&x)
		iv := fr.get(&ix)
		if xv.p == nil {
			fr.w.rtPanic("invalid memory address or nil pointer dereference")
		}
		fr.w.boundsCheck(iv, it, n)
		if iv.p != nil {
			if sym {
				fr.regs[dst] = Value{p: &symPtr{obj: xv.p.(*Object), off: int(xv.n), n: n, idx: fr.w.idx64(iv, it)}}
				return
			}
			iv.n = fr.w.concrete(iv, it.w, "index")
		}
		fr.regs[dst] = Value{p: xv.p, n: xv.n + iv.n*uint64(et.cells)}
	}
}

func (w *Worker) loadSymPtr(sp *symPtr, t *RType) Value {
	return w.selectCells(sp.obj.cells[sp.off:sp.off+sp.n], sp.idx, t.w)
}

// selectCells reads cells[idx] (idx known in range) as an if-then-else chain
// over runs of equal values.
func (w *Worker) selectCells(cells []Value, idx *Term, wd uint8) Value {
	ts := w.ts
	n := len(cells)
	if idx.ub < uint64(n) {
		n = int(idx.ub) + 1
	}
	iw := idx
	if iw.op == OpZext {
		iw = iw.a
	}
	narrow := func(k int) *Term { return ts.bv(uint64(k), iw.w) }
	// last run first
	var r *Term
	i := n
	for i > 0 {
		j := i - 1
		for j > 0 && sameCell(cells[j-1], cells[i-1]) {
			j--
		}
		v := w.term(cells[j], wd)
		if r == nil {
			r = v
		} else {
			// idx < i  selects this run (later runs already cover idx >= i)
			r = ts.ite(ts.cmp(OpUlt, iw, narrow(i)), v, r)
		}
		i = j
	}
	return tv(r)
}

func sameCell(a, b Value) bool {
	if a.p == nil && b.p == nil {
		return a.n == b.n
	}
	ta, ok1 := a.p.(*Term)
	tb, ok2 := b.p.(*Term)
	return ok1 && ok2 && ta == tb
}

func (c *compiler) index(in *ssa.Index, dst int) func(*Frame) {
	x, ix := c.op(in.X), c.op(in.Index)
	it := rtypeOf(in.Index.Type())
	xt := rtypeOf(in.X.Type())
	if xt.kind == KString {
		return func(fr *Frame) {
			fr.regs[dst] = fr.w.strIndex(fr.get(&x), fr.get(&ix), it)
		}
	}
	et := xt.elem
	return func(fr *Frame) {
		a := fr.get(&x).p.(Agg)
		iv := fr.get(&ix)
		fr.w.boundsCheck(iv, it, xt.n)
		if iv.p != nil && (et.isInt() || et.kind == KBool) {
			fr.regs[dst] = fr.w.selectCells(a, fr.w.idx64(iv, it), et.w)
			return
		}
		i := fr.w.concrete(iv, it.w, "array index")
		fr.regs[dst] = unflat2(et, a, int(i)*et.cells)
	}
}

func (w *Worker) strIndex(s, iv Value, it *RType) Value {
	n := strLen(s)
	w.boundsCheck(iv, it, n)
	if iv.p != nil {
		return w.selectCells(strBytes(s), w.idx64(iv, it), 8)
	}
	return strAt(s, int(iv.n))
}

func (c *compiler) lookup(in *ssa.Lookup, dst int) func(*Frame) {
	x, ix := c.op(in.X), c.op(in.Index)
	xt := rtypeOf(in.X.Type())
	if xt.kind == KString {
		it := rtypeOf(in.Index.Type())
		return func(fr *Frame) {
			fr.regs[dst] = fr.w.strIndex(fr.get(&x), fr.get(&ix), it)
		}
	}
	et := xt.elemT()
	comma := in.CommaOk
	return func(fr *Frame) {
		mv := fr.get(&x)
		k := fr.get(&ix)
		var v Value
		ok := false
		if mv.p != nil {
			v, ok = fr.w.mapGet(mv.p.(*Map), k)
		} else {
			v, ok = Value{}, false
		}
		if !ok {
			v = et.zero()
		}
		if comma {
			fr.regs[dst] = Value{p: Tuple{v, bval(ok)}}
		} else {
			fr.regs[dst] = v
		}
	}
}

func (c *compiler) sliceOp(in *ssa.Slice, dst int) func(*Frame) {
	x := c.op(in.X)
	var lo, hi, mx opnd
	hasLo, hasHi, hasMax := in.Low != nil, in.High != nil, in.Max != nil
	var tl, th, tm *RType
	if hasLo {
		lo = c.op(in.Low)
		tl = rtypeOf(in.Low.Type())
	}
	if hasHi {
		hi = c.op(in.High)
		th = rtypeOf(in.High.Type())
	}
	if hasMax {
		mx = c.op(in.Max)
		tm = rtypeOf(in.Max.Type())
	}
	xt := rtypeOf(in.X.Type())
	num := func(fr *Frame, o *opnd, t *RType) int64 {
		v := fr.get(o)
		if v.p != nil {
			v = Value{n: fr.w.concrete(v, t.w, "slice bound")}
		}
		if t.signed {
			return sext(v.n, t.w)
		}
		return int64(v.n)
	}
	return func(fr *Frame) {
		w := fr.w
		v := fr.get(&x)
		var l, h, m int64
		if hasLo {
			l = num(fr, &lo, tl)
		}
		if xt.kind == KString {
			n := int64(strLen(v))
			h = n
			if hasHi {
				h = num(fr, &hi, th)
			}
			if h < 0 || h > n || l < 0 || l > h {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.regs[dst] = strSlice(v, int(l), int(h))
			return
		}
		var o *Object
		var off, ln, cp, st int
		isNil := false
		if xt.kind == KPointer {
			at := xt.elemT()
			if v.p == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			o, off, ln, cp, st = v.p.(*Object), int(v.n), at.n, at.n, at.elem.cells
		} else {
			st = xt.elemT().cells
			if v.p == nil {
				isNil = true
			} else {
				s := v.p.(*Slice)
				o, off, ln, cp = s.obj, s.off, s.len, s.cap
			}
		}
		h = int64(ln)
		if hasHi {
			h = num(fr, &hi, th)
		}
		m = int64(cp)
		if hasMax {
			m = num(fr, &mx, tm)
		}
		if m < 0 || m > int64(cp) || h < 0 || h > m || l < 0 || l > h {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cp))
		}
		if isNil {
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{p: &Slice{o, off + int(l)*st, int(h - l), int(m - l)}}
	}
}

// ---- builtins

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []opnd, dst int) func(*Frame) {
	var ts []*RType
	for _, a := range cc.Args {
		ts = append(ts, rtypeOf(a.Type()))
	}
	switch b.Name() {
	case "Sizeof":
		n := uint64(types.SizesFor("gc", "amd64").Sizeof(cc.Args[0].Type()))
		return func(fr *Frame) { fr.regs[dst] = Value{n: n} }
	case "len":
		x := args[0]
		t := ts[0]
		switch t.kind {
		case KString:
			return func(fr *Frame) { fr.regs[dst] = Value{n: uint64(strLen(fr.get(&x)))} }
		case KSlice:
			return func(fr *Frame) {
				v := fr.get(&x)
				if v.p == nil {
					fr.regs[dst] = Value{}
					return
				}
				fr.regs[dst] = Value{n: uint64(v.p.(*Slice).len)}
			}
		case KMap:
			return func(fr *Frame) {
				v := fr.get(&x)
				if v.p == nil {
					fr.regs[dst] = Value{}
					return
				}
				fr.regs[dst] = Value{n: uint64(v.p.(*Map).live)}
			}
		case KArray:
			return func(fr *Frame) { fr.regs[dst] = Value{n: uint64(t.n)} }
		case KPointer:
			n := uint64(t.elemT().n)
			return func(fr *Frame) { fr.regs[dst] = Value{n: n} }
		case KChan:
			return func(fr *Frame) { fr.regs[dst] = Value{} }
		}
	case "cap":
		x := args[0]
		t := ts[0]
		return func(fr *Frame) {
			v := fr.get(&x)
			switch t.kind {
			case KArray:
				fr.regs[dst] = Value{n: uint64(t.n)}
				return
			case KPointer:
				fr.regs[dst] = Value{n: uint64(t.elemT().n)}
				return
			}
			if v.p == nil {
				fr.regs[dst] = Value{}
				return
			}
			if s, ok := v.p.(*Slice); ok {
				fr.regs[dst] = Value{n: uint64(s.cap)}
				return
			}
			fr.regs[dst] = Value{}
		}
	case "append":
		if len(args) == 1 {
			return func(fr *Frame) { fr.regs[dst] = fr.get(&args[0]) }
		}
		x, y := args[0], args[1]
		et := ts[0].elemT()
		if ts[1].kind == KString {
			return func(fr *Frame) {
				fr.regs[dst] = fr.w.appendCells(fr.get(&x), strBytes(fr.get(&y)), et)
			}
		}
		return func(fr *Frame) {
			yv := fr.get(&y)
			if yv.p == nil {
				fr.regs[dst] = fr.get(&x)
				return
			}
			s := yv.p.(*Slice)
			if s.len == 0 {
				fr.regs[dst] = fr.get(&x)
				return
			}
			if et.cells == 0 {
				fr.regs[dst] = fr.w.appendZero(fr.get(&x), s.len, et)
				return
			}
			fr.regs[dst] = fr.w.appendCells(fr.get(&x), s.obj.cells[s.off:s.off+s.len*et.cells], et)
		}
	case "copy":
		x, y := args[0], args[1]
		et := ts[0].elemT()
		return func(fr *Frame) {
			d := fr.get(&x)
			s := fr.get(&y)
			var src []Value
			if ts[1].kind == KString {
				src = strBytes(s)
			} else {
				src = sliceCells(s, et.cells)
			}
			if d.p == nil || len(src) == 0 {
				fr.regs[dst] = Value{}
				return
			}
			ds := d.p.(*Slice)
			n := min(ds.len*et.cells, len(src))
			fr.w.copyCells(ds.obj, ds.off, src[:n])
			if et.cells > 0 {
				n /= et.cells
			}
			fr.regs[dst] = Value{n: uint64(n)}
		}
	case "delete":
		x, k := args[0], args[1]
		return func(fr *Frame) {
			m := fr.get(&x)
			if m.p != nil {
				fr.w.mapDelete(m.p.(*Map), fr.get(&k))
			}
		}
	case "clear":
		x := args[0]
		t := ts[0]
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				return
			}
			if t.kind == KMap {
				fr.w.mapClear(v.p.(*Map))
				return
			}
			s := v.p.(*Slice)
			for i := 0; i < s.len*t.elemT().cells; i++ {
				fr.w.setCell(s.obj, s.off+i, Value{})
			}
		}
	case "min", "max":
		t := ts[0]
		isMin := b.Name() == "min"
		return func(fr *Frame) {
			w := fr.w
			r := fr.get(&args[0])
			for i := 1; i < len(args); i++ {
				y := fr.get(&args[i])
				var lt Value // y < r
				switch {
				case t.isInt():
					lt = w.symInt(token.LSS, t.w, t.signed, y, r, t)
				case t.kind == KString:
					lt = w.strLess(y, r)
				default:
					lt = bval(fl(y) < fl(r))
				}
				if !isMin {
					lt = w.notv(lt)
				}
				if lt.p != nil && t.isInt() {
					r = tv(w.ts.ite(lt.p.(*Term), w.term(y, t.w), w.term(r, t.w)))
					continue
				}
				if w.branch(lt) {
					r = y
				}
			}
			fr.regs[dst] = r
		}
	case "print", "println":
		return func(fr *Frame) {}
	case "panic":
		x := args[0]
		return func(fr *Frame) { panic(targetPanic{v: fr.get(&x)}) }
	case "recover":
		return func(fr *Frame) {
			fr.regs[dst] = Value{}
			// fr is the deferred function's frame; its caller is the panicking one
			if c := fr.caller; c != nil && c.panicking {
				c.panicking = false
				if tp, ok := c.panicv.(targetPanic); ok {
					v := tp.v
					if v.p == nil {
						v = fr.w.eng.plainError("panic called with nil argument")
					}
					fr.regs[dst] = v
				}
			}
		}
	case "ssa:wrapnilchk":
		x := args[0]
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				fr.w.rtPanic("value method called using nil pointer")
			}
			fr.regs[dst] = v
		}
	case "ssa:deferstack":
		return func(fr *Frame) { fr.regs[dst] = Value{p: fr} }
	case "String": // unsafe.String
		x, n := args[0], args[1]
		return func(fr *Frame) {
			p := fr.get(&x)
			l := int(fr.w.concrete(fr.get(&n), 64, "unsafe.String"))
			if l == 0 {
				fr.regs[dst] = Value{}
				return
			}
			if sd, ok := p.p.(*strData); ok {
				fr.regs[dst] = strSlice(sd.s, 0, l)
				return
			}
			o := p.p.(*Object)
			fr.regs[dst] = symstr(o.cells[p.n:int(p.n)+l], false)
		}
	case "StringData":
		x := args[0]
		return func(fr *Frame) { fr.regs[dst] = Value{p: &strData{fr.get(&x)}} }
	case "SliceData":
		x := args[0]
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				fr.regs[dst] = Value{}
				return
			}
			s := v.p.(*Slice)
			fr.regs[dst] = Value{p: s.obj, n: uint64(s.off)}
		}
	case "Slice": // unsafe.Slice
		x, n := args[0], args[1]
		et := ts[0].elemT()
		return func(fr *Frame) {
			p := fr.get(&x)
			l := int(fr.w.concrete(fr.get(&n), 64, "unsafe.Slice"))
			switch o := p.p.(type) {
			case nil:
				fr.regs[dst] = Value{}
			case *Object:
				fr.regs[dst] = Value{p: &Slice{o, int(p.n), l, l}}
			case *strData:
				b := append([]Value(nil), strBytes(o.s)[:l]...)
				fr.regs[dst] = fr.w.mkByteSlice(b, et)
			default:
				fr.w.unsupported("unsafe.Slice")
			}
		}
	case "Add":
		return func(fr *Frame) { fr.w.unsupported("unsafe.Add") }
	case "close":
		return func(fr *Frame) {}
	case "real":
		x := args[0]
		return func(fr *Frame) { fr.regs[dst] = fv(real(cplx(fr.get(&x)))) }
	case "imag":
		x := args[0]
		return func(fr *Frame) { fr.regs[dst] = fv(imag(cplx(fr.get(&x)))) }
	case "complex":
		x, y := args[0], args[1]
		return func(fr *Frame) { fr.regs[dst] = Value{p: complex(fl(fr.get(&x)), fl(fr.get(&y)))} }
	}
	name := b.Name()
	return func(fr *Frame) { fr.w.unsupported("builtin " + name) }
}

type strData struct{ s Value }

func (w *Worker) copyCells(o *Object, off int, src []Value) {
	if o.epoch != w.epoch {
		for i := range src {
			w.journal = append(w.journal, jent{o, off + i, o.cells[off+i]})
		}
	}
	copy(o.cells[off:off+len(src)], src)
}

func (w *Worker) appendZero(x Value, n int, et *RType) Value {
	l := 0
	var o *Object
	if x.p != nil {
		s := x.p.(*Slice)
		l, o = s.len, s.obj
	} else {
		o = w.newObj(0, et)
	}
	return Value{p: &Slice{o, 0, l + n, l + n}}
}

func (w *Worker) appendCells(x Value, src []Value, et *RType) Value {
	if len(src) == 0 {
		return x
	}
	st := et.cells
	add := len(src) / st
	if x.p == nil {
		cp := growCap(0, add, int(sizeOf(et)))
		o := &Object{cells: make([]Value, cp*st), epoch: w.epoch, elem: et}
		copy(o.cells, src)
		return Value{p: &Slice{o, 0, add, cp}}
	}
	s := x.p.(*Slice)
	nl := s.len + add
	if nl <= s.cap {
		w.copyCells(s.obj, s.off+s.len*st, src)
		return Value{p: &Slice{s.obj, s.off, nl, s.cap}}
	}
	cp := growCap(s.cap, nl, int(sizeOf(et)))
	o := &Object{cells: make([]Value, cp*st), epoch: w.epoch, elem: et}
	copy(o.cells, s.obj.cells[s.off:s.off+s.len*st])
	copy(o.cells[s.len*st:], src)
	return Value{p: &Slice{o, 0, nl, cp}}
}

var sizes = types.SizesFor("gc", "amd64")

func sizeOf(t *RType) int64 {
	return sizes.Sizeof(t.t)
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(old, need, esz int) int {
	c := old
	if need > 2*old {
		c = need
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	if esz == 0 {
		return c
	}
	return roundupsize(c*esz) / esz
}

var _ = bits.Len

type strIter struct {
	s Value
	i int
}
