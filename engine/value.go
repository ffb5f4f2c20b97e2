package main

import (
	"fmt"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one machine cell or register.
//
//	integers, bools: n (masked to the width, zero-extended), p==nil; symbolic: p=*Term
//	floats:          n = math.Float64bits
//	pointers:        p=*Object, n=cell offset; nil: p==nil
//	strings:         p=string or *SymStr; "" may be p==nil
//	slices:          p=*Slice, nil: p==nil
//	structs, arrays: p=Agg (flattened cells, immutable)
//	interfaces:      p=*Iface, nil: p==nil
//	funcs:           p=*Closure
//	maps:            p=*Map
//	tuples:          p=Tuple
//	reflect *rtype:  p=*RType
type Value struct {
	n uint64
	p any
}

type Agg []Value
type Tuple []Value

type Object struct {
	cells []Value
	epoch uint8
	elem  *RType // element type (for reflection and diagnostics); may be nil
}

type SymStr struct{ b []Value }

type Slice struct {
	obj           *Object
	off, len, cap int // off in cells, len and cap in elements
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *Fn
	free []Value
	// native implements bound natives (reflect.MakeFunc, Swapper...)
	native func(w *Worker, args []Value) Value
}

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KInt8
	KInt16
	KInt32
	KInt64
	KUint
	KUint8
	KUint16
	KUint32
	KUint64
	KUintptr
	KFloat32
	KFloat64
	KComplex64
	KComplex128
	KArray
	KChan
	KFunc
	KInterface
	KMap
	KPointer
	KSlice
	KString
	KStruct
	KUnsafePointer
	KTuple
)

type RType struct {
	t      types.Type
	under  types.Type
	kind   Kind
	cells  int
	id     int
	w      uint8
	signed bool
	elem   *RType
	key    *RType
	n      int
	fields []Field
	msets  *types.MethodSet
	once   sync.Once
	meths  sync.Map // string -> *Fn
	xmeth  []*types.Selection
	xonce  sync.Once
	impl   sync.Map // *RType(interface) -> bool
	ptr    atomic.Pointer[RType]
	slice  atomic.Pointer[RType]
}

// ptrTo is the type of pointers to r.
func (r *RType) ptrTo() *RType {
	p := r.ptr.Load()
	if p == nil {
		p = rtypeOf(types.NewPointer(r.t))
		r.ptr.Store(p)
	}
	return p
}

// sliceOf is the type of slices of r.
func (r *RType) sliceOf() *RType {
	p := r.slice.Load()
	if p == nil {
		p = rtypeOf(types.NewSlice(r.t))
		r.slice.Store(p)
	}
	return p
}

type Field struct {
	name     string
	t        *RType
	off      int
	embedded bool
	exported bool
	tag      string
	pkg      *types.Package
}

var (
	rtMu    sync.Mutex
	rtTab   typeutil.Map
	rtFast  sync.Map // types.Type -> *RType
	rtCount int
)

func rtypeOf(t types.Type) *RType {
	if r, ok := rtFast.Load(t); ok {
		return r.(*RType)
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	return rtypeLocked(t)
}

func rtypeLocked(t types.Type) *RType {
	if r, ok := rtFast.Load(t); ok {
		return r.(*RType)
	}
	orig := t
	t = types.Unalias(t)
	if r := rtTab.At(t); r != nil {
		rtFast.Store(orig, r)
		return r.(*RType)
	}
	r := &RType{t: t, under: t.Underlying(), id: rtCount}
	rtCount++
	rtTab.Set(t, r)
	switch u := r.under.(type) {
	case *types.Basic:
		r.cells = 1
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.kind = KBool
		case types.Int, types.UntypedInt:
			r.kind, r.w, r.signed = KInt, 64, true
		case types.Int8:
			r.kind, r.w, r.signed = KInt8, 8, true
		case types.Int16:
			r.kind, r.w, r.signed = KInt16, 16, true
		case types.Int32, types.UntypedRune:
			r.kind, r.w, r.signed = KInt32, 32, true
		case types.Int64:
			r.kind, r.w, r.signed = KInt64, 64, true
		case types.Uint:
			r.kind, r.w = KUint, 64
		case types.Uint8:
			r.kind, r.w = KUint8, 8
		case types.Uint16:
			r.kind, r.w = KUint16, 16
		case types.Uint32:
			r.kind, r.w = KUint32, 32
		case types.Uint64:
			r.kind, r.w = KUint64, 64
		case types.Uintptr:
			r.kind, r.w = KUintptr, 64
		case types.Float32:
			r.kind = KFloat32
		case types.Float64, types.UntypedFloat:
			r.kind = KFloat64
		case types.Complex64:
			r.kind = KComplex64
		case types.Complex128, types.UntypedComplex:
			r.kind = KComplex128
		case types.String, types.UntypedString:
			r.kind = KString
		case types.UnsafePointer:
			r.kind = KUnsafePointer
		case types.UntypedNil:
			r.kind = KInvalid
		default:
			r.kind = KInvalid
		}
	case *types.Pointer:
		r.kind, r.cells = KPointer, 1
	case *types.Slice:
		r.kind, r.cells = KSlice, 1
	case *types.Array:
		r.kind = KArray
		r.elem = rtypeLocked(u.Elem())
		r.n = int(u.Len())
		r.cells = r.n * r.elem.cells
	case *types.Struct:
		r.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			ft := rtypeLocked(f.Type())
			r.fields = append(r.fields, Field{name: f.Name(), t: ft, off: off, embedded: f.Embedded(), exported: f.Exported(), tag: u.Tag(i), pkg: f.Pkg()})
			off += ft.cells
		}
		r.cells = off
	case *types.Interface:
		r.kind, r.cells = KInterface, 1
	case *types.Map:
		r.kind, r.cells = KMap, 1
	case *types.Signature:
		r.kind, r.cells = KFunc, 1
	case *types.Chan:
		r.kind, r.cells = KChan, 1
	case *types.Tuple:
		r.kind, r.cells = KTuple, 1
	default:
		r.kind, r.cells = KInvalid, 1
	}
	rtFast.Store(orig, r)
	rtFast.Store(t, r)
	return r
}

// elemT gives the element type of pointers, slices, arrays, maps, chans, lazily
// (lazily because pointer types can be recursive).
func (r *RType) elemT() *RType {
	if r.kind == KArray {
		return r.elem
	}
	r.once.Do(func() {
		switch u := r.under.(type) {
		case *types.Pointer:
			r.elem = rtypeOf(u.Elem())
		case *types.Slice:
			r.elem = rtypeOf(u.Elem())
		case *types.Map:
			r.elem = rtypeOf(u.Elem())
			r.key = rtypeOf(u.Key())
		case *types.Chan:
			r.elem = rtypeOf(u.Elem())
		}
	})
	return r.elem
}

func (r *RType) keyT() *RType { r.elemT(); return r.key }

func (r *RType) isAgg() bool   { return r.kind == KStruct || r.kind == KArray }
func (r *RType) isInt() bool   { return r.kind >= KInt && r.kind <= KUintptr }
func (r *RType) isFloat() bool { return r.kind == KFloat32 || r.kind == KFloat64 }

func (r *RType) String() string {
	return types.TypeString(r.t, func(p *types.Package) string { return p.Name() })
}

func (r *RType) zero() Value {
	if r.isAgg() {
		return Value{p: Agg(make([]Value, r.cells))}
	}
	return Value{}
}

func (r *RType) methodSet() *types.MethodSet {
	r.xonce.Do(func() {
		r.msets = types.NewMethodSet(r.t)
	})
	return r.msets
}

// implements reports whether dynamic type r implements interface it.
func (r *RType) implements(it *RType) bool {
	if v, ok := r.impl.Load(it); ok {
		return v.(bool)
	}
	ok := types.Implements(r.t, it.under.(*types.Interface))
	r.impl.Store(it, ok)
	return ok
}

func mstr(m *types.Func) string {
	if m.Exported() {
		return m.Name()
	}
	return m.Pkg().Path() + "." + m.Name()
}

// method finds the function implementing method m on dynamic type r.
func (e *Engine) method(r *RType, m *types.Func) *Fn {
	key := mstr(m)
	if f, ok := r.meths.Load(key); ok {
		return f.(*Fn)
	}
	sel := r.methodSet().Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(fmt.Sprintf("no method %s on %s", m.Name(), r))
	}
	f := e.prog.MethodValue(sel)
	if f == nil {
		panic(fmt.Sprintf("abstract method %s on %s", m.Name(), r))
	}
	fn := e.fn(f)
	r.meths.Store(key, fn)
	return fn
}

func (e *Engine) methodSel(r *RType, sel *types.Selection) *Fn {
	f := e.prog.MethodValue(sel)
	if f == nil {
		return nil
	}
	return e.fn(f)
}

var _ = ssa.NaiveForm

// ---- strings

func mkstr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func strAt(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

// symstr makes a string from bytes, concrete when all of them are.
// b is not retained unless owned is true.
func symstr(b []Value, owned bool) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].p != nil {
			if !owned {
				b = append([]Value(nil), b...)
			}
			return Value{p: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return Value{p: string(bs)}
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i].n = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.p.(type) {
	case nil:
		return Value{}
	case string:
		return mkstr(s[lo:hi])
	case *SymStr:
		return symstr(s.b[lo:hi:hi], true)
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return mkstr(x + y)
		}
	}
	la, lb := strLen(a), strLen(b)
	if la == 0 {
		return b
	}
	if lb == 0 {
		return a
	}
	out := make([]Value, 0, la+lb)
	out = append(out, strBytes(a)...)
	out = append(out, strBytes(b)...)
	return Value{p: &SymStr{out}}
}

// ---- terms from values

func (w *Worker) term(v Value, width uint8) *Term {
	if v.p == nil {
		if width == 0 {
			return w.ts.boolc(v.n != 0)
		}
		return w.ts.bv(v.n, width)
	}
	t := v.p.(*Term)
	if t.w != width {
		panic(fmt.Sprintf("term width %d, want %d", t.w, width))
	}
	return t
}

func tv(t *Term) Value {
	if t.op == OpConst {
		return Value{n: t.k}
	}
	return Value{p: t}
}

func bval(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

// strEq gives the condition that two strings are equal.
func (w *Worker) strEq(a, b Value) Value {
	la, lb := strLen(a), strLen(b)
	if la != lb {
		return bval(false)
	}
	if la == 0 {
		return bval(true)
	}
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return bval(x == y)
	}
	r := w.ts.tru
	for i := 0; i < la; i++ {
		ca, cb := strAt(a, i), strAt(b, i)
		if ca.p == nil && cb.p == nil {
			if ca.n != cb.n {
				return bval(false)
			}
			continue
		}
		r = w.ts.and(r, w.ts.eq(w.term(ca, 8), w.term(cb, 8)))
		if r == w.ts.fals {
			break
		}
	}
	return tv(r)
}

// strLess gives the condition a < b.
func (w *Worker) strLess(a, b Value) Value {
	la, lb := strLen(a), strLen(b)
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return bval(x < y)
		}
	}
	n := min(la, lb)
	r := w.ts.boolc(la < lb)
	for i := n - 1; i >= 0; i-- {
		ca, cb := w.term(strAt(a, i), 8), w.term(strAt(b, i), 8)
		r = w.ts.or(w.ts.cmp(OpUlt, ca, cb), w.ts.and(w.ts.eq(ca, cb), r))
	}
	return tv(r)
}

// goString forces a concrete Go string, concretizing symbolic bytes.
func (w *Worker) goString(v Value) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, c := range s.b {
			b[i] = byte(w.concrete(c, 8, "goString"))
		}
		return string(b)
	}
	panic(fmt.Sprintf("goString of %T", v.p))
}

// modelString evaluates a string under the path's current model (no forking).
func (w *Worker) modelString(v Value) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, c := range s.b {
			if c.p == nil {
				b[i] = byte(c.n)
			} else {
				b[i] = byte(w.ts.eval(c.p.(*Term)))
			}
		}
		return string(b)
	}
	return fmt.Sprintf("?%T", v.p)
}

// ---- memory

func (w *Worker) newObj(n int, elem *RType) *Object {
	return &Object{cells: make([]Value, n), epoch: w.epoch, elem: elem}
}

type jent struct {
	o *Object
	i int
	v Value
}

func (w *Worker) setCell(o *Object, i int, v Value) {
	if o.epoch != w.epoch {
		w.journal = append(w.journal, jent{o, i, o.cells[i]})
	}
	o.cells[i] = v
}

func (w *Worker) store(t *RType, o *Object, off int, v Value) {
	if !t.isAgg() {
		w.setCell(o, off, v)
		return
	}
	a := v.p.(Agg)
	if o.epoch != w.epoch {
		for i := range a {
			w.journal = append(w.journal, jent{o, off + i, o.cells[off+i]})
		}
	}
	copy(o.cells[off:off+len(a)], a)
}

func load(t *RType, o *Object, off int) Value {
	if !t.isAgg() {
		return o.cells[off]
	}
	a := make(Agg, t.cells)
	copy(a, o.cells[off:off+t.cells])
	return Value{p: a}
}

// flat returns the cells of a register value of type t.
func flat(t *RType, v Value) []Value {
	if t.isAgg() {
		return v.p.(Agg)
	}
	return []Value{v}
}

// unflat makes a register value of type t from cells (which must be immutable).
func unflat(t *RType, c []Value) Value {
	if t.isAgg() {
		return Value{p: Agg(c[:t.cells:t.cells])}
	}
	return c[0]
}

// bytesOf gives the cells of a byte slice value.
func sliceCells(v Value, stride int) []Value {
	if v.p == nil {
		return nil
	}
	s := v.p.(*Slice)
	return s.obj.cells[s.off : s.off+s.len*stride]
}

func (w *Worker) mkByteSlice(b []Value, elem *RType) Value {
	o := &Object{cells: b, epoch: w.epoch, elem: elem}
	return Value{p: &Slice{o, 0, len(b), len(b)}}
}

func concBytes(b []byte) []Value {
	out := make([]Value, len(b))
	for i, c := range b {
		out[i].n = uint64(c)
	}
	return out
}
