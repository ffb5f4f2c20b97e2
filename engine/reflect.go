package main

// A model of package reflect over the engine's own type descriptors.
// reflect.Value is {typ_, ptr, flag}: cell 0 holds *RType, cell 1 the address
// (addressable values) or a box, cell 2 the flags below.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
)

const (
	rfAddr = 1 << 8 // cell 1 is an address
	rfRO   = 1 << 9
	rfMeth = 1 << 10
)

type reflBox struct{ v Value }

type rv struct {
	t    *RType
	v    Value // value when not addressable
	o    *Object
	off  int
	addr bool
	ro   bool
}

func (w *Worker) rvOf(v Value) rv {
	a := v.p.(Agg)
	if a[0].p == nil {
		return rv{}
	}
	t := a[0].p.(*RType)
	r := rv{t: t, ro: a[2].n&rfRO != 0}
	if a[2].n&rfAddr != 0 {
		r.addr = true
		r.o = a[1].p.(*Object)
		r.off = int(a[1].n)
		return r
	}
	r.v = a[1].p.(*reflBox).v
	return r
}

func (r rv) val() Value {
	if r.addr {
		return load(r.t, r.o, r.off)
	}
	return r.v
}

func (r rv) pack() Value {
	if r.t == nil {
		return Value{p: Agg(make([]Value, 3))}
	}
	fl := uint64(r.t.kind)
	if r.ro {
		fl |= rfRO
	}
	if r.addr {
		return Value{p: Agg{{p: r.t}, {p: r.o, n: uint64(r.off)}, {n: fl | rfAddr}}}
	}
	return Value{p: Agg{{p: r.t}, {p: &reflBox{r.v}}, {n: fl}}}
}

func mkrv(t *RType, v Value) rv { return rv{t: t, v: v} }

// rtype interface values
func (w *Worker) typeVal(t *RType) Value {
	if t == nil {
		return Value{}
	}
	return Value{p: &Iface{w.eng.reflRtype(), Value{p: t}}}
}

func (e *Engine) reflRtype() *RType {
	p := e.byPath["reflect"]
	return rtypeOf(p.Pkg.Scope().Lookup("rtype").Type()).ptrTo()
}

func (w *Worker) reflPanic(msg string) {
	panic(targetPanic{v: Value{p: &Iface{rtypeOf(types.Typ[types.String]), mkstr(msg)}}})
}

func typeName(t *RType) string {
	switch x := t.t.(type) {
	case *types.Named:
		n := x.Obj().Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			var ss []string
			for i := 0; i < ta.Len(); i++ {
				ss = append(ss, types.TypeString(ta.At(i), nil))
			}
			n += "[" + strings.Join(ss, ",") + "]"
		}
		return n
	case *types.Basic:
		return basicName(x)
	}
	return ""
}

func basicName(b *types.Basic) string {
	switch b.Kind() {
	case types.Uint8:
		return "uint8"
	case types.Int32:
		return "int32"
	case types.UnsafePointer:
		return "Pointer"
	}
	return b.Name()
}

// reflString is reflect.Type.String: interface{} and int32/uint8 spelled the
// runtime's way.
func reflString(t *RType) string {
	s := types.TypeString(t.t, func(p *types.Package) string { return p.Name() })
	switch s {
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	case "any":
		return "interface {}"
	}
	s = strings.ReplaceAll(s, "[]byte", "[]uint8")
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "[]any" {
		return "[]interface {}"
	}
	return s
}

func pkgPath(t *RType) string {
	if n, ok := t.t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// exportedMethods in the order reflect uses (sorted by name).
func exportedMethods(t *RType) []*types.Selection {
	ms := t.methodSet()
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out // NewMethodSet sorts by Id; exported ids are their names
}

func (w *Worker) structField(st *RType, i int) Value {
	// StructField{Name, PkgPath string; Type Type; Tag StructTag; Offset uintptr; Index []int; Anonymous bool}
	f := st.fields[i]
	idx := &Object{cells: []Value{{n: uint64(i)}}, epoch: w.epoch}
	pp := ""
	if !f.exported && f.pkg != nil {
		pp = f.pkg.Path()
	}
	return Value{p: Agg{mkstr(f.name), mkstr(pp), w.typeVal(f.t), mkstr(f.tag), {n: uint64(f.off * 8)},
		{p: &Slice{idx, 0, 1, 1}}, bval(f.embedded)}}
}

func (w *Worker) structFieldPath(st *RType, path []int) Value {
	t := st
	var v Value
	for k, i := range path {
		if k > 0 && t.kind == KPointer {
			t = t.elemT()
		}
		v = w.structField(t, i)
		t = t.fields[i].t
	}
	a := append(Agg(nil), v.p.(Agg)...)
	cells := make([]Value, len(path))
	for k, i := range path {
		cells[k] = Value{n: uint64(i)}
	}
	a[5] = Value{p: &Slice{&Object{cells: cells, epoch: w.epoch}, 0, len(path), len(path)}}
	return Value{p: a}
}

func fieldPath(t *RType, name string) ([]int, bool) {
	// exported or same-package lookups by name; package ignored (reflect
	// matches names only)
	for i, f := range t.fields {
		if f.name == name {
			return []int{i}, true
		}
	}
	obj, index, _ := types.LookupFieldOrMethod(t.t, true, nil, name)
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return index, true
	}
	return nil, false
}

func (w *Worker) rfield(r rv, i int) rv {
	if r.t == nil || r.t.kind != KStruct {
		w.reflPanic("reflect: call of reflect.Value.Field on non-struct Value")
	}
	if i < 0 || i >= len(r.t.fields) {
		w.reflPanic("reflect: Field index out of range")
	}
	f := r.t.fields[i]
	out := rv{t: f.t, ro: r.ro || (!f.exported && !f.embedded) || (!f.exported && f.embedded)}
	if r.addr {
		out.addr, out.o, out.off = true, r.o, r.off+f.off
	} else {
		out.v = unflat2(f.t, r.v.p.(Agg), f.off)
	}
	return out
}

func (w *Worker) relem(r rv) rv {
	v := r.val()
	switch r.t.kind {
	case KInterface:
		if v.p == nil {
			return rv{}
		}
		i := v.p.(*Iface)
		return rv{t: i.t, v: i.v, ro: r.ro}
	case KPointer:
		if v.p == nil {
			return rv{}
		}
		o, ok := v.p.(*Object)
		if !ok {
			w.unsupported("reflect Elem of opaque pointer")
		}
		return rv{t: r.t.elemT(), addr: true, o: o, off: int(v.n), ro: r.ro}
	}
	w.reflPanic("reflect: call of reflect.Value.Elem on " + kindName(r.t.kind) + " Value")
	return rv{}
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
	"float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func kindName(k Kind) string {
	if int(k) < len(kindNames) {
		return kindNames[k]
	}
	return "kind" + strconv.Itoa(int(k))
}

func (w *Worker) rset(dst rv, v Value) {
	if !dst.addr {
		w.reflPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	if dst.ro {
		w.reflPanic("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	w.store(dst.t, dst.o, dst.off, v)
}

// assignTo converts a value for assignment to type t.
func (w *Worker) assignTo(r rv, t *RType) Value {
	if r.t == t {
		return r.val()
	}
	if t.kind == KInterface {
		if r.t == nil {
			return Value{}
		}
		if r.t.kind == KInterface {
			return r.val()
		}
		if !r.t.implements(t) {
			w.reflPanic("reflect: value of type " + reflString(r.t) + " is not assignable to type " + reflString(t))
		}
		return Value{p: &Iface{r.t, r.val()}}
	}
	if types.AssignableTo(r.t.t, t.t) {
		return r.val()
	}
	w.reflPanic("reflect.Set: value of type " + reflString(r.t) + " is not assignable to type " + reflString(t))
	return Value{}
}

func (w *Worker) toIface(r rv) Value {
	if r.t == nil {
		w.reflPanic("reflect: call of reflect.Value.Interface on zero Value")
	}
	if r.t.kind == KInterface {
		return r.val()
	}
	return Value{p: &Iface{r.t, r.val()}}
}

func (w *Worker) rindex(r rv, i int) rv {
	switch r.t.kind {
	case KSlice:
		v := r.val()
		if v.p == nil || i < 0 || i >= v.p.(*Slice).len {
			w.reflPanic("reflect: slice index out of range")
		}
		s := v.p.(*Slice)
		et := r.t.elemT()
		return rv{t: et, addr: true, o: s.obj, off: s.off + i*et.cells, ro: r.ro}
	case KArray:
		et := r.t.elem
		if i < 0 || i >= r.t.n {
			w.reflPanic("reflect: array index out of range")
		}
		if r.addr {
			return rv{t: et, addr: true, o: r.o, off: r.off + i*et.cells, ro: r.ro}
		}
		return rv{t: et, v: unflat2(et, r.v.p.(Agg), i*et.cells), ro: r.ro}
	case KString:
		v := r.val()
		if i < 0 || i >= strLen(v) {
			w.reflPanic("reflect: string index out of range")
		}
		return rv{t: rtypeOf(types.Typ[types.Uint8]), v: strAt(v, i), ro: r.ro}
	}
	w.reflPanic("reflect: call of reflect.Value.Index on " + kindName(r.t.kind) + " Value")
	return rv{}
}

func (w *Worker) rlen(r rv) int {
	v := r.val()
	switch r.t.kind {
	case KSlice:
		if v.p == nil {
			return 0
		}
		return v.p.(*Slice).len
	case KString:
		return strLen(v)
	case KArray:
		return r.t.n
	case KMap:
		if v.p == nil {
			return 0
		}
		return v.p.(*Map).live
	case KPointer:
		if r.t.elemT().kind == KArray {
			return r.t.elemT().n
		}
	case KChan:
		return 0
	}
	w.reflPanic("reflect: call of reflect.Value.Len on " + kindName(r.t.kind) + " Value")
	return 0
}

func (w *Worker) isZero(t *RType, v Value) bool {
	switch t.kind {
	case KStruct:
		for _, f := range t.fields {
			if !w.isZero(f.t, unflat2(f.t, v.p.(Agg), f.off)) {
				return false
			}
		}
		return true
	case KArray:
		for i := 0; i < t.n; i++ {
			if !w.isZero(t.elem, unflat2(t.elem, v.p.(Agg), i*t.elem.cells)) {
				return false
			}
		}
		return true
	case KFloat32, KFloat64:
		return fl(v) == 0 && !math.Signbit(fl(v))
	case KString:
		return strLen(v) == 0
	case KBool:
		return !w.branch(v)
	}
	if t.isInt() {
		return w.branch(tv(w.ts.eq(w.term(v, t.w), w.ts.bv(0, t.w))))
	}
	return v.p == nil && v.n == 0
}

func (w *Worker) typeArg(v Value) *RType {
	if v.p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if i, ok := v.p.(*Iface); ok {
		return i.v.p.(*RType)
	}
	return v.p.(*RType)
}

func (w *Worker) sliceOfCells(cells []Value, n int) Value {
	o := &Object{cells: cells, epoch: w.epoch}
	return Value{p: &Slice{o, 0, n, n}}
}

func (w *Worker) rvSlice(rs []rv) Value {
	var cells []Value
	for _, r := range rs {
		cells = append(cells, r.pack().p.(Agg)...)
	}
	return w.sliceOfCells(cells, len(rs))
}

func (w *Worker) rmethod(r rv, name string) (rv, bool) {
	if r.t == nil {
		return rv{}, false
	}
	if r.t.kind == KInterface {
		v := r.val()
		if v.p == nil {
			return rv{}, false
		}
		i := v.p.(*Iface)
		it := r.t.under.(*types.Interface)
		for k := 0; k < it.NumMethods(); k++ {
			if it.Method(k).Name() == name && it.Method(k).Exported() {
				return w.rmethod(mkrv(i.t, i.v), name)
			}
		}
		return rv{}, false
	}
	for _, sel := range exportedMethods(r.t) {
		if sel.Obj().Name() == name {
			fn := w.eng.methodSel(r.t, sel)
			sig := sel.Type().(*types.Signature)
			ft := rtypeOf(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
			recv := r.val()
			cl := &Closure{native: func(w *Worker, args []Value) Value {
				return w.callFn(fn, append([]Value{recv}, args...))
			}}
			return rv{t: ft, v: Value{p: cl}, ro: r.ro}, true
		}
	}
	return rv{}, false
}

func (w *Worker) rcall(f rv, args []rv) []rv {
	sig := f.t.under.(*types.Signature)
	v := f.val()
	if v.p == nil {
		w.reflPanic("reflect: call of nil function")
	}
	np := sig.Params().Len()
	var av []Value
	for i := 0; i < np; i++ {
		pt := rtypeOf(sig.Params().At(i).Type())
		if sig.Variadic() && i == np-1 {
			et := pt.elemT()
			var cells []Value
			n := 0
			for _, a := range args[i:] {
				cells = append(cells, flat(et, w.assignTo(a, et))...)
				n++
			}
			if n == 0 {
				av = append(av, Value{})
			} else {
				av = append(av, w.sliceOfCells(append([]Value(nil), cells...), n))
			}
			break
		}
		if i >= len(args) {
			w.reflPanic("reflect: Call with too few input arguments")
		}
		av = append(av, w.assignTo(args[i], pt))
	}
	res := w.callClosure(nil, v.p.(*Closure), av)
	nr := sig.Results().Len()
	var out []rv
	switch nr {
	case 0:
	case 1:
		out = append(out, mkrv(rtypeOf(sig.Results().At(0).Type()), res))
	default:
		for i, x := range res.p.(Tuple) {
			out = append(out, mkrv(rtypeOf(sig.Results().At(i).Type()), x))
		}
	}
	return out
}

func (w *Worker) mapIterOf(v Value) *mapIter { return v.p.(*mapIter) }

type reflIter struct {
	it   *mapIter
	m    rv
	k, v Value
	ok   bool
}

func (w *Worker) rconvert(r rv, t *RType) rv {
	v := r.val()
	f := r.t
	switch {
	case f == t:
		return rv{t: t, v: v}
	case t.kind == KInterface:
		return rv{t: t, v: w.assignTo(r, t)}
	}
	// run the compiled conversion on a scratch frame
	c := &compiler{e: w.eng}
	fr := &Frame{w: w, regs: make([]Value, 2)}
	fr.regs[0] = v
	c.convert(f, t, opnd{reg: 0, g: -1}, 1)(fr)
	return rv{t: t, v: fr.regs[1]}
}

func (w *Worker) typeImplements(t, it *RType) bool {
	if it.kind != KInterface {
		w.reflPanic("reflect: non-interface type passed to Type.Implements")
	}
	return t.implements(it)
}

func reflectIntrinsic(e *Engine, f *Fn) func(w *Worker, a []Value) Value {
	if x, ok := reflFns[f.name]; ok {
		return x
	}
	if f.name == "reflect.TypeFor" {
		if ta := f.ssa.TypeArgs(); len(ta) == 1 {
			t := rtypeOf(ta[0])
			return func(w *Worker, a []Value) Value { return w.typeVal(t) }
		}
	}
	if o := f.ssa.Origin(); o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == "reflect" && o.Name() == "TypeAssert" {
		at := rtypeOf(f.ssa.TypeArgs()[0])
		return func(w *Worker, a []Value) Value {
			r := w.rvOf(a[0])
			if r.t == nil {
				w.reflPanic("reflect: call of reflect.TypeAssert on zero Value")
			}
			if r.ro {
				w.reflPanic("reflect.TypeAssert: cannot return value obtained from unexported field or method")
			}
			v := w.toIface(r)
			if v.p != nil {
				i := v.p.(*Iface)
				if at.kind == KInterface {
					if i.t.implements(at) {
						return Value{p: Tuple{v, bval(true)}}
					}
				} else if i.t == at {
					return Value{p: Tuple{i.v, bval(true)}}
				}
			}
			return Value{p: Tuple{at.zero(), bval(false)}}
		}
	}
	const lite = "internal/reflectlite."
	if strings.Contains(f.name, lite) {
		if x, ok := reflFns[strings.Replace(f.name, lite, "reflect.", 1)]; ok {
			return x
		}
	}
	return nil
}

var reflFns map[string]intrFn

func init() {
	reflFns = map[string]intrFn{}
	F := func(name string, f intrFn) { reflFns["reflect."+name] = f }
	V := func(name string, f func(w *Worker, r rv, a []Value) Value) {
		reflFns["(reflect.Value)."+name] = func(w *Worker, a []Value) Value { return f(w, w.rvOf(a[0]), a[1:]) }
	}
	T := func(name string, f func(w *Worker, t *RType, a []Value) Value) {
		g := func(w *Worker, a []Value) Value {
			t, ok := a[0].p.(*RType)
			if !ok {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			return f(w, t, a[1:])
		}
		reflFns["(*reflect.rtype)."+name] = g
		reflFns["(reflect.rtype)."+name] = g
	}
	num := func(v Value) int { return int(int64(v.n)) }

	F("TypeOf", func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return Value{}
		}
		return w.typeVal(a[0].p.(*Iface).t)
	})
	F("ValueOf", func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return rv{}.pack()
		}
		i := a[0].p.(*Iface)
		return mkrv(i.t, i.v).pack()
	})
	F("Zero", func(w *Worker, a []Value) Value {
		t := w.typeArg(a[0])
		return mkrv(t, t.zero()).pack()
	})
	F("New", func(w *Worker, a []Value) Value {
		t := w.typeArg(a[0])
		o := w.newObj(t.cells, t)
		return mkrv(t.ptrTo(), Value{p: o}).pack()
	})
	F("Indirect", func(w *Worker, a []Value) Value {
		r := w.rvOf(a[0])
		if r.t == nil || r.t.kind != KPointer {
			return a[0]
		}
		return w.relem(r).pack()
	})
	F("PointerTo", func(w *Worker, a []Value) Value { return w.typeVal(w.typeArg(a[0]).ptrTo()) })
	F("PtrTo", func(w *Worker, a []Value) Value { return w.typeVal(w.typeArg(a[0]).ptrTo()) })
	F("SliceOf", func(w *Worker, a []Value) Value { return w.typeVal(w.typeArg(a[0]).sliceOf()) })
	F("MakeSlice", func(w *Worker, a []Value) Value {
		t := w.typeArg(a[0])
		n, c := num(a[1]), num(a[2])
		et := t.elemT()
		return mkrv(t, Value{p: &Slice{w.newObj(c*et.cells, et), 0, n, c}}).pack()
	})
	F("MakeMap", func(w *Worker, a []Value) Value {
		t := w.typeArg(a[0])
		return mkrv(t, Value{p: w.newMap(t)}).pack()
	})
	F("MakeMapWithSize", func(w *Worker, a []Value) Value {
		t := w.typeArg(a[0])
		return mkrv(t, Value{p: w.newMap(t)}).pack()
	})
	F("Append", func(w *Worker, a []Value) Value {
		r := w.rvOf(a[0])
		et := r.t.elemT()
		v := r.val()
		if a[1].p != nil {
			s := a[1].p.(*Slice)
			for i := 0; i < s.len; i++ {
				x := w.rvOf(Value{p: Agg(s.obj.cells[s.off+3*i : s.off+3*i+3])})
				v = w.appendCells(v, flat(et, w.assignTo(x, et)), et)
			}
		}
		return mkrv(r.t, v).pack()
	})
	F("DeepEqual", func(w *Worker, a []Value) Value {
		if a[0].p == nil || a[1].p == nil {
			return bval(a[0].p == nil && a[1].p == nil)
		}
		x, y := a[0].p.(*Iface), a[1].p.(*Iface)
		if x.t != y.t {
			return bval(false)
		}
		return w.deepEqual(x.t, x.v, y.v, 0)
	})
	F("Copy", func(w *Worker, a []Value) Value {
		d, s := w.rvOf(a[0]), w.rvOf(a[1])
		et := d.t.elemT()
		var src []Value
		if s.t.kind == KString {
			src = strBytes(s.val())
		} else {
			src = sliceCells(s.val(), et.cells)
		}
		if d.t.kind == KSlice {
			dv := d.val()
			if dv.p == nil {
				return Value{}
			}
			ds := dv.p.(*Slice)
			n := min(ds.len*et.cells, len(src))
			w.copyCells(ds.obj, ds.off, src[:n])
			return Value{n: uint64(n / max(et.cells, 1))}
		}
		n := min(d.t.cells, len(src))
		w.copyCells(d.o, d.off, src[:n])
		return Value{n: uint64(n / max(et.cells, 1))}
	})

	V("Kind", func(w *Worker, r rv, a []Value) Value {
		if r.t == nil {
			return Value{}
		}
		return Value{n: uint64(r.t.kind)}
	})
	V("IsValid", func(w *Worker, r rv, a []Value) Value { return bval(r.t != nil) })
	V("Type", func(w *Worker, r rv, a []Value) Value {
		if r.t == nil {
			w.reflPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return w.typeVal(r.t)
	})
	V("typeSlow", func(w *Worker, r rv, a []Value) Value { return w.typeVal(r.t) })
	V("CanInterface", func(w *Worker, r rv, a []Value) Value { return bval(!r.ro) })
	V("CanAddr", func(w *Worker, r rv, a []Value) Value { return bval(r.addr) })
	V("CanSet", func(w *Worker, r rv, a []Value) Value { return bval(r.addr && !r.ro) })
	V("CanInt", func(w *Worker, r rv, a []Value) Value { return bval(r.t != nil && r.t.isInt() && r.t.signed) })
	V("CanUint", func(w *Worker, r rv, a []Value) Value { return bval(r.t != nil && r.t.isInt() && !r.t.signed) })
	V("CanFloat", func(w *Worker, r rv, a []Value) Value { return bval(r.t != nil && r.t.isFloat()) })
	V("Interface", func(w *Worker, r rv, a []Value) Value {
		if r.ro {
			w.reflPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return w.toIface(r)
	})
	reflFns["reflect.valueInterface"] = func(w *Worker, a []Value) Value { return w.toIface(w.rvOf(a[0])) }
	reflFns["reflect.packEface"] = reflFns["reflect.valueInterface"]
	V("Elem", func(w *Worker, r rv, a []Value) Value {
		if r.t == nil {
			w.reflPanic("reflect: call of reflect.Value.Elem on zero Value")
		}
		return w.relem(r).pack()
	})
	V("Field", func(w *Worker, r rv, a []Value) Value { return w.rfield(r, num(a[0])).pack() })
	V("FieldByName", func(w *Worker, r rv, a []Value) Value {
		p, ok := fieldPath(r.t, w.goString(a[0]))
		if !ok {
			return rv{}.pack()
		}
		for k, i := range p {
			if k > 0 && r.t.kind == KPointer {
				r = w.relem(r)
			}
			r = w.rfield(r, i)
		}
		return r.pack()
	})
	byIndex := func(w *Worker, r rv, v Value) (rv, bool) {
		s := v.p.(*Slice)
		for k := 0; k < s.len; k++ {
			if k > 0 && r.t.kind == KPointer {
				if r.val().p == nil {
					return rv{}, false
				}
				r = w.relem(r)
			}
			r = w.rfield(r, num(s.obj.cells[s.off+k]))
		}
		return r, true
	}
	V("FieldByIndex", func(w *Worker, r rv, a []Value) Value {
		x, ok := byIndex(w, r, a[0])
		if !ok {
			w.reflPanic("reflect: indirection through nil pointer to embedded struct")
		}
		return x.pack()
	})
	V("FieldByIndexErr", func(w *Worker, r rv, a []Value) Value {
		x, ok := byIndex(w, r, a[0])
		if !ok {
			return Value{p: Tuple{rv{}.pack(), w.mkError("reflect: indirection through nil pointer to embedded struct field")}}
		}
		return Value{p: Tuple{x.pack(), {}}}
	})
	V("NumField", func(w *Worker, r rv, a []Value) Value { return Value{n: uint64(len(r.t.fields))} })
	V("Index", func(w *Worker, r rv, a []Value) Value {
		return w.rindex(r, num(Value{n: w.concrete(a[0], 64, "reflect index")})).pack()
	})
	V("Len", func(w *Worker, r rv, a []Value) Value { return Value{n: uint64(w.rlen(r))} })
	V("lenNonSlice", func(w *Worker, r rv, a []Value) Value { return Value{n: uint64(w.rlen(r))} })
	V("Cap", func(w *Worker, r rv, a []Value) Value {
		v := r.val()
		if r.t.kind == KArray {
			return Value{n: uint64(r.t.n)}
		}
		if v.p == nil {
			return Value{}
		}
		return Value{n: uint64(v.p.(*Slice).cap)}
	})
	V("Int", func(w *Worker, r rv, a []Value) Value {
		if r.t == nil || !r.t.isInt() || !r.t.signed {
			w.reflPanic("reflect: call of reflect.Value.Int on non-int Value")
		}
		return w.convInt(r.val(), r.t.w, true, 64)
	})
	V("Uint", func(w *Worker, r rv, a []Value) Value {
		if r.t == nil || !r.t.isInt() || r.t.signed {
			w.reflPanic("reflect: call of reflect.Value.Uint on non-uint Value")
		}
		return w.convInt(r.val(), r.t.w, false, 64)
	})
	V("Float", func(w *Worker, r rv, a []Value) Value { return r.val() })
	V("Complex", func(w *Worker, r rv, a []Value) Value { return r.val() })
	V("Bool", func(w *Worker, r rv, a []Value) Value { return r.val() })
	V("String", func(w *Worker, r rv, a []Value) Value {
		if r.t == nil {
			return mkstr("<invalid Value>")
		}
		if r.t.kind == KString {
			return r.val()
		}
		return mkstr("<" + reflString(r.t) + " Value>")
	})
	V("stringNonString", func(w *Worker, r rv, a []Value) Value {
		if r.t == nil {
			return mkstr("<invalid Value>")
		}
		return mkstr("<" + reflString(r.t) + " Value>")
	})
	V("Bytes", func(w *Worker, r rv, a []Value) Value {
		if r.t.kind == KArray && r.addr {
			return Value{p: &Slice{r.o, r.off, r.t.n, r.t.n}}
		}
		return r.val()
	})
	V("IsNil", func(w *Worker, r rv, a []Value) Value {
		switch r.t.kind {
		case KPointer, KSlice, KMap, KInterface, KFunc, KChan, KUnsafePointer:
			return bval(r.val().p == nil)
		}
		w.reflPanic("reflect: call of reflect.Value.IsNil on " + kindName(r.t.kind) + " Value")
		return Value{}
	})
	V("IsZero", func(w *Worker, r rv, a []Value) Value { return bval(w.isZero(r.t, r.val())) })
	V("Addr", func(w *Worker, r rv, a []Value) Value {
		if !r.addr {
			w.reflPanic("reflect.Value.Addr of unaddressable value")
		}
		return rv{t: r.t.ptrTo(), v: Value{p: r.o, n: uint64(r.off)}, ro: r.ro}.pack()
	})
	V("Set", func(w *Worker, r rv, a []Value) Value {
		x := w.rvOf(a[0])
		if x.t == nil {
			w.reflPanic("reflect: call of reflect.Value.Set on zero Value")
		}
		w.rset(r, w.assignTo(x, r.t))
		return Value{}
	})
	V("SetZero", func(w *Worker, r rv, a []Value) Value { w.rset(r, r.t.zero()); return Value{} })
	V("SetString", func(w *Worker, r rv, a []Value) Value { w.rset(r, a[0]); return Value{} })
	V("SetBool", func(w *Worker, r rv, a []Value) Value { w.rset(r, a[0]); return Value{} })
	V("SetBytes", func(w *Worker, r rv, a []Value) Value { w.rset(r, a[0]); return Value{} })
	V("SetInt", func(w *Worker, r rv, a []Value) Value { w.rset(r, w.convInt(a[0], 64, true, r.t.w)); return Value{} })
	V("SetUint", func(w *Worker, r rv, a []Value) Value { w.rset(r, w.convInt(a[0], 64, false, r.t.w)); return Value{} })
	V("SetFloat", func(w *Worker, r rv, a []Value) Value {
		v := a[0]
		if r.t.kind == KFloat32 {
			v = fv(float64(float32(fl(v))))
		}
		w.rset(r, v)
		return Value{}
	})
	overflow := func(w *Worker, r rv, a []Value, signed bool) Value {
		back := w.convInt(w.convInt(a[0], 64, signed, r.t.w), r.t.w, signed, 64)
		return w.notv(tv(w.ts.eq(w.term(back, 64), w.term(a[0], 64))))
	}
	V("OverflowInt", func(w *Worker, r rv, a []Value) Value { return overflow(w, r, a, true) })
	V("OverflowUint", func(w *Worker, r rv, a []Value) Value { return overflow(w, r, a, false) })
	V("OverflowFloat", func(w *Worker, r rv, a []Value) Value {
		f := fl(a[0])
		return bval(r.t.kind == KFloat32 && !math.IsInf(f, 0) && math.IsInf(float64(float32(f)), 0))
	})
	V("SetLen", func(w *Worker, r rv, a []Value) Value {
		s := r.val().p.(*Slice)
		n := num(a[0])
		if n < 0 || n > s.cap {
			w.reflPanic("reflect: slice length out of range in SetLen")
		}
		w.rset(r, Value{p: &Slice{s.obj, s.off, n, s.cap}})
		return Value{}
	})
	V("SetCap", func(w *Worker, r rv, a []Value) Value { return Value{} })
	V("Grow", func(w *Worker, r rv, a []Value) Value {
		et := r.t.elemT()
		n := num(a[0])
		v := r.val()
		l, c := 0, 0
		var old *Slice
		if v.p != nil {
			old = v.p.(*Slice)
			l, c = old.len, old.cap
		}
		if l+n <= c {
			return Value{}
		}
		nc := growCap(c, l+n, int(sizeOf(et)))
		o := w.newObj(nc*et.cells, et)
		if old != nil {
			copy(o.cells, old.obj.cells[old.off:old.off+l*et.cells])
		}
		w.rset(r, Value{p: &Slice{o, 0, l, nc}})
		return Value{}
	})
	V("Slice", func(w *Worker, r rv, a []Value) Value {
		lo, hi := num(a[0]), num(a[1])
		v := r.val()
		switch r.t.kind {
		case KString:
			return rv{t: r.t, v: strSlice(v, lo, hi), ro: r.ro}.pack()
		case KSlice:
			if v.p == nil {
				return r.pack()
			}
			s := v.p.(*Slice)
			if lo < 0 || hi < lo || hi > s.cap {
				w.reflPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return rv{t: r.t, v: Value{p: &Slice{s.obj, s.off + lo*r.t.elemT().cells, hi - lo, s.cap - lo}}, ro: r.ro}.pack()
		case KArray:
			et := r.t.elem
			return rv{t: et.sliceOf(), v: Value{p: &Slice{r.o, r.off + lo*et.cells, hi - lo, r.t.n - lo}}, ro: r.ro}.pack()
		}
		w.reflPanic("reflect: call of reflect.Value.Slice on " + kindName(r.t.kind))
		return Value{}
	})
	V("MapIndex", func(w *Worker, r rv, a []Value) Value {
		m := r.val()
		if m.p == nil {
			return rv{}.pack()
		}
		x, ok := w.mapGet(m.p.(*Map), w.assignTo(w.rvOf(a[0]), r.t.keyT()))
		if !ok {
			return rv{}.pack()
		}
		return mkrv(r.t.elemT(), x).pack()
	})
	V("SetMapIndex", func(w *Worker, r rv, a []Value) Value {
		m := r.val()
		if m.p == nil {
			w.reflPanic("assignment to entry in nil map")
		}
		k := w.assignTo(w.rvOf(a[0]), r.t.keyT())
		x := w.rvOf(a[1])
		if x.t == nil {
			w.mapDelete(m.p.(*Map), k)
		} else {
			w.mapSet(m.p.(*Map), k, w.assignTo(x, r.t.elemT()))
		}
		return Value{}
	})
	V("MapKeys", func(w *Worker, r rv, a []Value) Value {
		var out []rv
		if m := r.val(); m.p != nil {
			it := w.newMapIter(m.p.(*Map))
			for {
				k, _, ok := it.next(w)
				if !ok {
					break
				}
				out = append(out, mkrv(r.t.keyT(), k))
			}
		}
		return w.rvSlice(out)
	})
	V("MapRange", func(w *Worker, r rv, a []Value) Value {
		var m *Map
		if x := r.val(); x.p != nil {
			m = x.p.(*Map)
		}
		return Value{p: &reflIter{it: w.newMapIter(m), m: r}}
	})
	reflFns["(*reflect.MapIter).Next"] = func(w *Worker, a []Value) Value {
		it := a[0].p.(*reflIter)
		it.k, it.v, it.ok = it.it.next(w)
		return bval(it.ok)
	}
	reflFns["(*reflect.MapIter).Key"] = func(w *Worker, a []Value) Value {
		it := a[0].p.(*reflIter)
		return mkrv(it.m.t.keyT(), it.k).pack()
	}
	reflFns["(*reflect.MapIter).Value"] = func(w *Worker, a []Value) Value {
		it := a[0].p.(*reflIter)
		return mkrv(it.m.t.elemT(), it.v).pack()
	}
	V("NumMethod", func(w *Worker, r rv, a []Value) Value {
		if r.t.kind == KInterface {
			return Value{n: uint64(r.t.under.(*types.Interface).NumMethods())}
		}
		return Value{n: uint64(len(exportedMethods(r.t)))}
	})
	V("MethodByName", func(w *Worker, r rv, a []Value) Value {
		m, ok := w.rmethod(r, w.goString(a[0]))
		if !ok {
			return rv{}.pack()
		}
		return m.pack()
	})
	V("Method", func(w *Worker, r rv, a []Value) Value {
		ms := exportedMethods(r.t)
		m, _ := w.rmethod(r, ms[num(a[0])].Obj().Name())
		return m.pack()
	})
	V("Call", func(w *Worker, r rv, a []Value) Value {
		var args []rv
		if a[0].p != nil {
			s := a[0].p.(*Slice)
			for i := 0; i < s.len; i++ {
				args = append(args, w.rvOf(Value{p: Agg(s.obj.cells[s.off+3*i : s.off+3*i+3])}))
			}
		}
		return w.rvSlice(w.rcall(r, args))
	})
	V("Convert", func(w *Worker, r rv, a []Value) Value { return w.rconvert(r, w.typeArg(a[0])).pack() })
	V("CanConvert", func(w *Worker, r rv, a []Value) Value { return bval(types.ConvertibleTo(r.t.t, w.typeArg(a[0]).t)) })
	V("Comparable", func(w *Worker, r rv, a []Value) Value {
		if r.t == nil {
			return bval(true)
		}
		return bval(types.Comparable(r.t.t))
	})
	V("Equal", func(w *Worker, r rv, a []Value) Value {
		x := w.rvOf(a[0])
		if r.t == nil || x.t == nil {
			return bval(r.t == nil && x.t == nil)
		}
		if r.t != x.t {
			return bval(false)
		}
		return w.equal(r.t, r.val(), x.t, x.val())
	})
	V("Pointer", func(w *Worker, r rv, a []Value) Value { return w.opaquePtr(r.val()) })
	V("UnsafePointer", func(w *Worker, r rv, a []Value) Value { return r.val() })
	V("UnsafeAddr", func(w *Worker, r rv, a []Value) Value { return Value{n: 0xc000000000} })

	T("Kind", func(w *Worker, t *RType, a []Value) Value { return Value{n: uint64(t.kind)} })
	T("Name", func(w *Worker, t *RType, a []Value) Value { return mkstr(typeName(t)) })
	T("String", func(w *Worker, t *RType, a []Value) Value { return mkstr(reflString(t)) })
	T("PkgPath", func(w *Worker, t *RType, a []Value) Value { return mkstr(pkgPath(t)) })
	T("Elem", func(w *Worker, t *RType, a []Value) Value {
		switch t.kind {
		case KPointer, KSlice, KArray, KMap, KChan:
			return w.typeVal(t.elemT())
		}
		w.reflPanic("reflect: Elem of invalid type " + reflString(t))
		return Value{}
	})
	T("Key", func(w *Worker, t *RType, a []Value) Value { return w.typeVal(t.keyT()) })
	T("Len", func(w *Worker, t *RType, a []Value) Value { return Value{n: uint64(t.n)} })
	T("Size", func(w *Worker, t *RType, a []Value) Value { return Value{n: uint64(sizeOf(t))} })
	T("Bits", func(w *Worker, t *RType, a []Value) Value {
		switch {
		case t.kind == KFloat32:
			return Value{n: 32}
		case t.isFloat():
			return Value{n: 64}
		}
		return Value{n: uint64(t.w)}
	})
	T("NumField", func(w *Worker, t *RType, a []Value) Value { return Value{n: uint64(len(t.fields))} })
	T("Field", func(w *Worker, t *RType, a []Value) Value { return w.structField(t, num(a[0])) })
	T("FieldByName", func(w *Worker, t *RType, a []Value) Value {
		p, ok := fieldPath(t, w.goString(a[0]))
		if !ok {
			sf := rtypeOf(w.eng.byPath["reflect"].Pkg.Scope().Lookup("StructField").Type())
			return Value{p: Tuple{sf.zero(), bval(false)}}
		}
		return Value{p: Tuple{w.structFieldPath(t, p), bval(true)}}
	})
	T("FieldByIndex", func(w *Worker, t *RType, a []Value) Value {
		s := a[0].p.(*Slice)
		var p []int
		for k := 0; k < s.len; k++ {
			p = append(p, num(s.obj.cells[s.off+k]))
		}
		return w.structFieldPath(t, p)
	})
	T("NumMethod", func(w *Worker, t *RType, a []Value) Value {
		if t.kind == KInterface {
			return Value{n: uint64(t.under.(*types.Interface).NumMethods())}
		}
		return Value{n: uint64(len(exportedMethods(t)))}
	})
	methodVal := func(w *Worker, t *RType, sel *types.Selection, i int) Value {
		// Method{Name, PkgPath string; Type Type; Func Value; Index int}
		sig := sel.Type().(*types.Signature)
		ft := rtypeOf(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
		fnv := rv{}.pack().p.(Agg)
		out := Agg{mkstr(sel.Obj().Name()), {}, w.typeVal(ft)}
		out = append(out, fnv...)
		out = append(out, Value{n: uint64(i)})
		return Value{p: out}
	}
	T("Method", func(w *Worker, t *RType, a []Value) Value {
		return methodVal(w, t, exportedMethods(t)[num(a[0])], num(a[0]))
	})
	T("MethodByName", func(w *Worker, t *RType, a []Value) Value {
		n := w.goString(a[0])
		if t.kind != KInterface {
			for i, s := range exportedMethods(t) {
				if s.Obj().Name() == n {
					return Value{p: Tuple{methodVal(w, t, s, i), bval(true)}}
				}
			}
		}
		mt := rtypeOf(w.eng.byPath["reflect"].Pkg.Scope().Lookup("Method").Type())
		return Value{p: Tuple{mt.zero(), bval(false)}}
	})
	T("Implements", func(w *Worker, t *RType, a []Value) Value { return bval(w.typeImplements(t, w.typeArg(a[0]))) })
	T("AssignableTo", func(w *Worker, t *RType, a []Value) Value { return bval(types.AssignableTo(t.t, w.typeArg(a[0]).t)) })
	T("ConvertibleTo", func(w *Worker, t *RType, a []Value) Value { return bval(types.ConvertibleTo(t.t, w.typeArg(a[0]).t)) })
	T("Comparable", func(w *Worker, t *RType, a []Value) Value { return bval(types.Comparable(t.t)) })
	sig := func(w *Worker, t *RType) *types.Signature {
		s, ok := t.under.(*types.Signature)
		if !ok {
			w.reflPanic("reflect: not a func type " + reflString(t))
		}
		return s
	}
	T("NumIn", func(w *Worker, t *RType, a []Value) Value { return Value{n: uint64(sig(w, t).Params().Len())} })
	T("NumOut", func(w *Worker, t *RType, a []Value) Value { return Value{n: uint64(sig(w, t).Results().Len())} })
	T("In", func(w *Worker, t *RType, a []Value) Value {
		return w.typeVal(rtypeOf(sig(w, t).Params().At(num(a[0])).Type()))
	})
	T("Out", func(w *Worker, t *RType, a []Value) Value {
		return w.typeVal(rtypeOf(sig(w, t).Results().At(num(a[0])).Type()))
	})
	T("IsVariadic", func(w *Worker, t *RType, a []Value) Value { return bval(sig(w, t).Variadic()) })
	T("CanSeq", func(w *Worker, t *RType, a []Value) Value {
		return bval(t.kind != KFunc && (t.kind == KSlice || t.kind == KArray || t.kind == KString || t.kind == KMap || t.isInt()))
	})
	T("CanSeq2", func(w *Worker, t *RType, a []Value) Value {
		return bval(t.kind == KSlice || t.kind == KArray || t.kind == KString || t.kind == KMap)
	})
	T("ChanDir", func(w *Worker, t *RType, a []Value) Value { return Value{n: 3} })
	F("canRangeFunc", func(w *Worker, a []Value) Value { return Value{} })
	reflFns["(reflect.Kind).String"] = func(w *Worker, a []Value) Value {
		return mkstr(kindName(Kind(w.concrete(a[0], 64, "kind"))))
	}
}

func (w *Worker) opaquePtr(v Value) Value {
	if v.p == nil {
		return Value{}
	}
	switch x := v.p.(type) {
	case *Object:
		return Value{p: nil, n: 0xc000000000 + w.ptrID(x) + v.n*8}
	case *Slice:
		return Value{n: 0xc000000000 + w.ptrID(x.obj) + uint64(x.off)*8}
	case *Map:
		return Value{n: 0xc000000000 + w.ptrID(x)}
	}
	return Value{n: 0xc000000000}
}

func (w *Worker) ptrID(x any) uint64 {
	ids, _ := w.nativeMem["ptrids"].(map[any]uint64)
	if ids == nil {
		ids = map[any]uint64{}
		w.nativeMem["ptrids"] = ids
	}
	if id, ok := ids[x]; ok {
		return id
	}
	id := uint64(len(ids)+1) << 20
	ids[x] = id
	if w.epoch > 0 {
		w.pathIDs = append(w.pathIDs, x)
	}
	return id
}

func (w *Worker) deepEqual(t *RType, x, y Value, depth int) Value {
	if depth > 200 {
		w.unsupported("DeepEqual: too deep")
	}
	ts := w.ts
	switch t.kind {
	case KPointer:
		if x.p == nil || y.p == nil {
			return bval(x.p == nil && y.p == nil)
		}
		a, b := x.p.(*Object), y.p.(*Object)
		if a == b && x.n == y.n {
			return bval(true)
		}
		et := t.elemT()
		return w.deepEqual(et, load(et, a, int(x.n)), load(et, b, int(y.n)), depth+1)
	case KSlice:
		if (x.p == nil) != (y.p == nil) {
			return bval(false)
		}
		if x.p == nil {
			return bval(true)
		}
		a, b := x.p.(*Slice), y.p.(*Slice)
		if a.len != b.len {
			return bval(false)
		}
		et := t.elemT()
		r := ts.tru
		for i := 0; i < a.len; i++ {
			e := w.deepEqual(et, load(et, a.obj, a.off+i*et.cells), load(et, b.obj, b.off+i*et.cells), depth+1)
			r = ts.and(r, w.term(e, 0))
			if r == ts.fals {
				break
			}
		}
		return tv(r)
	case KStruct:
		r := ts.tru
		for _, f := range t.fields {
			e := w.deepEqual(f.t, unflat2(f.t, x.p.(Agg), f.off), unflat2(f.t, y.p.(Agg), f.off), depth+1)
			r = ts.and(r, w.term(e, 0))
			if r == ts.fals {
				break
			}
		}
		return tv(r)
	case KArray:
		r := ts.tru
		for i := 0; i < t.n; i++ {
			e := w.deepEqual(t.elem, unflat2(t.elem, x.p.(Agg), i*t.elem.cells), unflat2(t.elem, y.p.(Agg), i*t.elem.cells), depth+1)
			r = ts.and(r, w.term(e, 0))
		}
		return tv(r)
	case KInterface:
		if x.p == nil || y.p == nil {
			return bval(x.p == nil && y.p == nil)
		}
		a, b := x.p.(*Iface), y.p.(*Iface)
		if a.t != b.t {
			return bval(false)
		}
		return w.deepEqual(a.t, a.v, b.v, depth+1)
	case KMap:
		if (x.p == nil) != (y.p == nil) {
			return bval(false)
		}
		if x.p == nil {
			return bval(true)
		}
		a, b := x.p.(*Map), y.p.(*Map)
		if a == b {
			return bval(true)
		}
		if a.live != b.live {
			return bval(false)
		}
		r := ts.tru
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			v, ok := w.mapGet(b, e.k)
			if !ok {
				return bval(false)
			}
			q := w.deepEqual(a.vt, e.v, v, depth+1)
			r = ts.and(r, w.term(q, 0))
		}
		return tv(r)
	case KFunc:
		return bval(x.p == nil && y.p == nil)
	}
	return w.equal(t, x, t, y)
}

var _ = fmt.Sprint
