package main

// Hash-consed bit-vector and Boolean terms. One table per worker (no locking).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota // k is the value; w==0 means Bool (k 0/1)
	OpVar             // k is the variable number
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpZext
	OpSext
	OpExtract // low bits: k = lo, w = width
)

var opName = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
}

type Term struct {
	id      int32
	op      Op
	w       uint8 // 0 = Bool
	a, b, c *Term
	k       uint64
	vars    []int32 // sorted variable numbers
	ub      uint64  // unsigned upper bound (inclusive), a cheap over-approximation
	evGen   int64
	evVal   uint64
	text    string // cached SMT text (constraints only)
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type Terms struct {
	tab   map[termKey]*Term
	n     int32
	tru   *Term
	fals  *Term
	evGen int64
	// current model, indexed by variable number
	model []uint64
	varW  []uint8
}

func newTerms() *Terms {
	t := &Terms{tab: map[termKey]*Term{}, evGen: 1}
	t.tru = t.mk(OpConst, 0, nil, nil, nil, 1)
	t.fals = t.mk(OpConst, 0, nil, nil, nil, 0)
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// a superset of b, or vice versa, is common
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (ts *Terms) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{id: ts.n, op: op, w: w, a: a, b: b, c: c, k: k}
	ts.n++
	if op == OpVar {
		t.vars = []int32{int32(k)}
	} else {
		if a != nil {
			t.vars = a.vars
		}
		if b != nil {
			t.vars = mergeVars(t.vars, b.vars)
		}
		if c != nil {
			t.vars = mergeVars(t.vars, c.vars)
		}
	}
	t.ub = mask(w)
	if w == 0 {
		t.ub = 1
	}
	switch op {
	case OpConst:
		t.ub = k
	case OpZext:
		t.ub = a.ub
	case OpBAnd:
		t.ub = min(a.ub, b.ub)
	case OpIte:
		if w > 0 {
			t.ub = max(b.ub, c.ub)
		}
	case OpAdd:
		if s := a.ub + b.ub; s >= a.ub && s <= mask(w) {
			t.ub = s
		}
	case OpLShr:
		if b.op == OpConst {
			if b.k >= 64 {
				t.ub = 0
			} else {
				t.ub = a.ub >> b.k
			}
		} else {
			t.ub = a.ub
		}
	case OpURem:
		if b.op == OpConst && b.k > 0 {
			t.ub = min(a.ub, b.k-1)
		}
	case OpUDiv:
		if b.op == OpConst && b.k > 0 {
			t.ub = a.ub / b.k
		}
	case OpExtract:
		if k == 0 && a.ub <= mask(w) {
			t.ub = a.ub
		}
	case OpBOr:
		n := uint8(max(bits.Len64(a.ub), bits.Len64(b.ub)))
		t.ub = min(t.ub, mask(n))
	}
	ts.tab[key] = t
	return t
}

func (ts *Terms) boolc(b bool) *Term {
	if b {
		return ts.tru
	}
	return ts.fals
}
func (ts *Terms) bv(v uint64, w uint8) *Term { return ts.mk(OpConst, w, nil, nil, nil, v&mask(w)) }
func (ts *Terms) variable(n int, w uint8) *Term {
	return ts.mk(OpVar, w, nil, nil, nil, uint64(n))
}

func (ts *Terms) not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return ts.boolc(a.k == 0)
	case OpNot:
		return a.a
	}
	return ts.mk(OpNot, 0, a, nil, nil, 0)
}

func (ts *Terms) and(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return ts.fals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpAnd, 0, a, b, nil, 0)
}

func (ts *Terms) or(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return ts.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpOr, 0, a, b, nil, 0)
}

func (ts *Terms) eq(a, b *Term) *Term {
	if a == b {
		return ts.tru
	}
	if a.op == OpConst && b.op == OpConst {
		return ts.boolc(a.k == b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if a.w == 0 {
			if b.k == 1 {
				return a
			}
			return ts.not(a)
		}
		if b.k > a.ub {
			return ts.fals
		}
		switch a.op {
		case OpZext:
			if b.k > mask(a.a.w) {
				return ts.fals
			}
			return ts.eq(a.a, ts.bv(b.k, a.a.w))
		case OpSext:
			lo := ts.bv(b.k, a.a.w)
			if uint64(sext(lo.k, a.a.w))&mask(a.w) != b.k {
				return ts.fals
			}
			return ts.eq(a.a, lo)
		case OpAdd:
			if a.b.op == OpConst {
				return ts.eq(a.a, ts.bv(b.k-a.b.k, a.w))
			}
		case OpIte:
			if a.b.op == OpConst && a.c.op == OpConst {
				t1, t2 := a.b.k == b.k, a.c.k == b.k
				switch {
				case t1 && t2:
					return ts.tru
				case t1:
					return a.a
				case t2:
					return ts.not(a.a)
				default:
					return ts.fals
				}
			}
			if a.b.op == OpConst || a.c.op == OpConst {
				return ts.ite(a.a, ts.eq(a.b, b), ts.eq(a.c, b))
			}
		}
	} else {
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return ts.eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return ts.mk(OpEq, 0, a, b, nil, 0)
}

func (ts *Terms) ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return ts.ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OpConst {
			if a.k == 1 {
				return ts.or(c, b)
			}
			return ts.and(ts.not(c), b)
		}
		if b.op == OpConst {
			if b.k == 1 {
				return ts.or(ts.not(c), a)
			}
			return ts.and(c, a)
		}
	}
	return ts.mk(OpIte, a.w, c, a, b, 0)
}

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("foldBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func foldCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OpUlt:
		return x < y
	case OpUle:
		return x <= y
	case OpSlt:
		return sext(x, w) < sext(y, w)
	case OpSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("foldCmp")
}

func (ts *Terms) bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return ts.bv(foldBin(op, w, a.k, b.k), w)
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.op == OpConst {
			a, b = b, a
		}
	}
	if b.op == OpConst {
		k := b.k
		switch op {
		case OpAdd:
			if k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return ts.bin(OpAdd, a.a, ts.bv(a.b.k+k, w))
			}
		case OpSub:
			if k == 0 {
				return a
			}
			return ts.bin(OpAdd, a, ts.bv(-k, w))
		case OpBXor:
			if k == 0 {
				return a
			}
		case OpShl, OpLShr, OpAShr:
			if k == 0 {
				return a
			}
			if op != OpAShr && k >= uint64(w) {
				return ts.bv(0, w)
			}
			if op == OpAShr && a.ub <= mask(w-1) {
				return ts.bin(OpLShr, a, b)
			}
		case OpBOr:
			if k == 0 {
				return a
			}
			if k == mask(w) {
				return b
			}
		case OpBAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			// the mask covers everything the value can have
			if n := bits.Len64(a.ub); k&mask(uint8(n)) == mask(uint8(n)) {
				return a
			}
			if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
				return ts.ite(a.a, ts.bv(a.b.k&k, w), ts.bv(a.c.k&k, w))
			}
			if a.op == OpZext && k <= mask(a.a.w) {
				return ts.zext(ts.bin(OpBAnd, a.a, ts.bv(k, a.a.w)), w)
			}
		case OpMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
		case OpUDiv:
			if k == 1 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return ts.bv(0, w)
		case OpBAnd, OpBOr:
			return a
		}
	}
	return ts.mk(op, w, a, b, nil, 0)
}

func (ts *Terms) cmp(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return ts.boolc(foldCmp(op, a.w, a.k, b.k))
	}
	if a == b {
		return ts.boolc(op == OpUle || op == OpSle)
	}
	w := a.w
	// Signed comparison of values known non-negative is unsigned.
	half := mask(w - 1)
	if op == OpSlt || op == OpSle {
		if a.ub <= half && b.ub <= half {
			if op == OpSlt {
				op = OpUlt
			} else {
				op = OpUle
			}
		} else if a.ub <= half && b.op == OpConst && b.k > half {
			return ts.fals // non-negative < negative
		} else if b.ub <= half && a.op == OpConst && a.k > half {
			return ts.tru
		}
	}
	if op == OpUlt || op == OpUle {
		if b.op == OpConst {
			if op == OpUlt && b.k == 0 {
				return ts.fals
			}
			if a.ub < b.k || (op == OpUle && a.ub == b.k) {
				return ts.tru
			}
			if a.op == OpZext {
				if b.k > mask(a.a.w) {
					return ts.tru
				}
				return ts.cmp(op, a.a, ts.bv(b.k, a.a.w))
			}
			// canonical: x <= k is x < k+1
			if op == OpUle && b.k < mask(w) {
				return ts.cmp(OpUlt, a, ts.bv(b.k+1, w))
			}
			if op == OpUlt && b.k == 1 {
				return ts.eq(a, ts.bv(0, w))
			}
		}
		if a.op == OpConst {
			if a.k == 0 && op == OpUle {
				return ts.tru
			}
			if b.ub < a.k || (op == OpUlt && b.ub == a.k) {
				return ts.fals
			}
			// k < b  is  not (b < k+1);  k <= b is not (b < k)
			if op == OpUlt {
				return ts.not(ts.cmp(OpUle, b, a))
			}
			return ts.not(ts.cmp(OpUlt, b, a))
		}
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return ts.cmp(op, a.a, b.a)
		}
	}
	return ts.mk(op, 0, a, b, nil, 0)
}

func (ts *Terms) bnot(a *Term) *Term {
	if a.op == OpConst {
		return ts.bv(^a.k, a.w)
	}
	return ts.mk(OpBNot, a.w, a, nil, nil, 0)
}
func (ts *Terms) neg(a *Term) *Term {
	if a.op == OpConst {
		return ts.bv(-a.k, a.w)
	}
	return ts.mk(OpNeg, a.w, a, nil, nil, 0)
}
func (ts *Terms) zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return ts.bv(a.k, w)
	}
	if a.op == OpZext {
		return ts.zext(a.a, w)
	}
	if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
		return ts.ite(a.a, ts.bv(a.b.k, w), ts.bv(a.c.k, w))
	}
	return ts.mk(OpZext, w, a, nil, nil, 0)
}
func (ts *Terms) sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return ts.bv(uint64(sext(a.k, a.w)), w)
	}
	if a.ub <= mask(a.w-1) {
		return ts.zext(a, w)
	}
	return ts.mk(OpSext, w, a, nil, nil, 0)
}
func (ts *Terms) trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return ts.bv(a.k, w)
	}
	if a.op == OpZext || a.op == OpSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return ts.trunc(a.a, w)
		}
		if a.op == OpZext {
			return ts.zext(a.a, w)
		}
		return ts.sext(a.a, w)
	}
	if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
		return ts.ite(a.a, ts.bv(a.b.k, w), ts.bv(a.c.k, w))
	}
	if (a.op == OpAdd || a.op == OpBAnd || a.op == OpBOr || a.op == OpBXor) && a.b.op == OpConst {
		return ts.bin(a.op, ts.trunc(a.a, w), ts.bv(a.b.k, w))
	}
	return ts.mk(OpExtract, w, a, nil, nil, 0)
}

// eval under the current model.
func (ts *Terms) eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		if int(t.k) < len(ts.model) {
			return ts.model[t.k] & mask(t.w)
		}
		return 0
	}
	if t.evGen == ts.evGen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = 1 - ts.eval(t.a)
	case OpAnd:
		r = ts.eval(t.a) & ts.eval(t.b)
	case OpOr:
		r = ts.eval(t.a) | ts.eval(t.b)
	case OpEq:
		r = b2u(ts.eval(t.a) == ts.eval(t.b))
	case OpIte:
		if ts.eval(t.a) == 1 {
			r = ts.eval(t.b)
		} else {
			r = ts.eval(t.c)
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		r = b2u(foldCmp(t.op, t.a.w, ts.eval(t.a), ts.eval(t.b)))
	case OpBNot:
		r = ^ts.eval(t.a) & mask(t.w)
	case OpNeg:
		r = -ts.eval(t.a) & mask(t.w)
	case OpZext:
		r = ts.eval(t.a)
	case OpSext:
		r = uint64(sext(ts.eval(t.a), t.a.w)) & mask(t.w)
	case OpExtract:
		r = ts.eval(t.a) & mask(t.w)
	default:
		r = foldBin(t.op, t.w, ts.eval(t.a), ts.eval(t.b))
	}
	t.evGen = ts.evGen
	t.evVal = r
	return r
}

func (ts *Terms) setModel(m []uint64) { ts.model = m; ts.evGen++ }

func varName(n uint64, w uint8) string { return fmt.Sprintf("v%d_%d", n, w) }

// smt renders t as SMT-LIB text with let-bound shared subterms.
func (t *Term) smt() string {
	if t.text != "" {
		return t.text
	}
	uses := map[*Term]int{}
	var order []*Term
	var count func(*Term)
	count = func(x *Term) {
		if x == nil || x.op == OpConst || x.op == OpVar {
			return
		}
		uses[x]++
		if uses[x] > 1 {
			return
		}
		count(x.a)
		count(x.b)
		count(x.c)
		order = append(order, x)
	}
	count(t)
	names := map[*Term]string{}
	var sb strings.Builder
	var pr func(x *Term, top bool)
	pr = func(x *Term, top bool) {
		switch x.op {
		case OpConst:
			if x.w == 0 {
				if x.k == 1 {
					sb.WriteString("true")
				} else {
					sb.WriteString("false")
				}
			} else {
				fmt.Fprintf(&sb, "(_ bv%d %d)", x.k, x.w)
			}
			return
		case OpVar:
			sb.WriteString(varName(x.k, x.w))
			return
		}
		if n, ok := names[x]; ok && !top {
			sb.WriteString(n)
			return
		}
		switch x.op {
		case OpZext:
			fmt.Fprintf(&sb, "((_ zero_extend %d) ", x.w-x.a.w)
		case OpSext:
			fmt.Fprintf(&sb, "((_ sign_extend %d) ", x.w-x.a.w)
		case OpExtract:
			fmt.Fprintf(&sb, "((_ extract %d 0) ", x.w-1)
		default:
			sb.WriteString("(" + opName[x.op] + " ")
		}
		pr(x.a, false)
		if x.b != nil {
			sb.WriteByte(' ')
			pr(x.b, false)
		}
		if x.c != nil {
			sb.WriteByte(' ')
			pr(x.c, false)
		}
		sb.WriteByte(')')
	}
	nlet := 0
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	for _, x := range order {
		if uses[x] > 1 && x != t {
			name := fmt.Sprintf("?l%d", nlet)
			fmt.Fprintf(&sb, "(let ((%s ", name)
			pr(x, true)
			sb.WriteString(")) ")
			names[x] = name
			nlet++
		}
	}
	pr(t, true)
	sb.WriteString(strings.Repeat(")", nlet))
	t.text = sb.String()
	return t.text
}
