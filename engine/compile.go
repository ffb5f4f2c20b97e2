package main

// Compilation of SSA functions to closures.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Fn struct {
	ssa    *ssa.Function
	name   string
	intr   func(w *Worker, args []Value) Value
	once   sync.Once
	codep  atomic.Pointer[Code]
	nparam int
	skip   bool // no body and no intrinsic
}

type Code struct {
	fn       *Fn
	nregs    int
	nparams  int
	freeBase int
	nfree    int
	blocks   []*Block
	recover  *Block
	hasDefer bool
	hot      bool
}

type Block struct {
	idx    int
	instrs []func(*Frame)
	term   func(*Frame) *Block
	merge  *Region
	moves  [][]move // per predecessor edge
	ssa    *ssa.BasicBlock
	n      int
}

type move struct {
	dst int
	src opnd
}

type opnd struct {
	reg int32 // >=0 register
	g   int32 // >=0 global
	c   Value
}

type deferred struct {
	fn   *Closure
	bltn func(fr *Frame)
	args []Value
}

type Frame struct {
	w         *Worker
	code      *Code
	regs      []Value
	caller    *Frame
	defers    []deferred
	panicking bool
	panicv    any
	result    Value
	done      bool
	cur       *Block
	base      int
	mydepth   int
}

func (fr *Frame) get(o *opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.g >= 0 {
		return Value{p: fr.w.globals[o.g]}
	}
	return o.c
}

type compiler struct {
	e    *Engine
	fn   *ssa.Function
	code *Code
	regs map[ssa.Value]int
}

func (e *Engine) compile(f *Fn) *Code {
	f.once.Do(func() {
		c := &compiler{e: e, fn: f.ssa, regs: map[ssa.Value]int{}}
		code := &Code{fn: f}
		c.code = code
		for _, p := range f.ssa.Params {
			c.regs[p] = code.nregs
			code.nregs++
		}
		code.nparams = code.nregs
		code.freeBase = code.nregs
		for _, p := range f.ssa.FreeVars {
			c.regs[p] = code.nregs
			code.nregs++
		}
		code.nfree = len(f.ssa.FreeVars)
		for _, b := range f.ssa.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					c.regs[v] = code.nregs
					code.nregs++
				}
				switch in.(type) {
				case *ssa.Defer, *ssa.RunDefers:
					code.hasDefer = true
				case *ssa.Call:
					if b, ok := in.(*ssa.Call).Call.Value.(*ssa.Builtin); ok && b.Name() == "ssa:deferstack" {
						code.hasDefer = true
					}
				}
			}
		}
		for i, b := range f.ssa.Blocks {
			code.blocks = append(code.blocks, &Block{idx: i, ssa: b})
		}
		for i, sb := range f.ssa.Blocks {
			// phi moves per incoming edge
			b := code.blocks[i]
			b.moves = make([][]move, len(sb.Preds))
			for _, in := range sb.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, e := range phi.Edges {
					b.moves[i] = append(b.moves[i], move{c.regs[phi], c.op(e)})
				}
			}
		}
		for i, b := range f.ssa.Blocks {
			c.block(code.blocks[i], b)
		}
		if f.ssa.Recover != nil {
			code.recover = code.blocks[f.ssa.Recover.Index]
		}
		c.regions()
		f.codep.Store(code)
	})
	return f.codep.Load()
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, g: -1, c: constValue(v)}
	case *ssa.Global:
		return opnd{reg: -1, g: int32(c.e.globalIndex(v))}
	case *ssa.Function:
		return opnd{reg: -1, g: -1, c: Value{p: &Closure{fn: c.e.fn(v)}}}
	case *ssa.Builtin:
		return opnd{reg: -1, g: -1}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %T %s", v, v.Name()))
	}
	return opnd{reg: int32(r), g: -1}
}

func constValue(c *ssa.Const) Value {
	t := rtypeOf(c.Type())
	if c.Value == nil {
		return t.zero()
	}
	switch {
	case t.kind == KBool:
		return bval(constant.BoolVal(c.Value))
	case t.isInt():
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: u & mask(t.w)}
	case t.isFloat():
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if t.kind == KFloat32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	case t.kind == KString:
		if c.Value.Kind() == constant.String {
			return mkstr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkstr(string(rune(i)))
	case t.kind == KComplex128 || t.kind == KComplex64:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Value{p: complex(re, im)}
	case t.kind == KUnsafePointer:
		return Value{}
	}
	panic(fmt.Sprintf("constValue %s", c))
}

func (c *compiler) block(b *Block, sb *ssa.BasicBlock) {
	for _, in := range sb.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
			c.term(b, sb, in)
		default:
			b.instrs = append(b.instrs, c.instr(in))
		}
	}
	b.n = len(b.instrs) + 1
}

// edge returns the function that performs the phi moves of succ i of sb.
func (c *compiler) edgeIndex(sb *ssa.BasicBlock, i int) int {
	succ := sb.Succs[i]
	// which occurrence of succ among sb's successors
	occ := 0
	for j := 0; j < i; j++ {
		if sb.Succs[j] == succ {
			occ++
		}
	}
	for k, p := range succ.Preds {
		if p == sb {
			if occ == 0 {
				return k
			}
			occ--
		}
	}
	panic("edgeIndex")
}

func (c *compiler) edge(sb *ssa.BasicBlock, i int) func(fr *Frame) *Block {
	succ := c.code.blocks[sb.Succs[i].Index]
	k := c.edgeIndex(sb, i)
	mv := succ.moves[k]
	if len(mv) == 0 {
		return func(fr *Frame) *Block { return succ }
	}
	return func(fr *Frame) *Block {
		doMoves(fr, mv)
		return succ
	}
}

func doMoves(fr *Frame, mv []move) {
	switch len(mv) {
	case 0:
	case 1:
		fr.regs[mv[0].dst] = fr.get(&mv[0].src)
	case 2:
		a, b := fr.get(&mv[0].src), fr.get(&mv[1].src)
		fr.regs[mv[0].dst] = a
		fr.regs[mv[1].dst] = b
	default:
		var buf [16]Value
		tmp := buf[:]
		if len(mv) > 16 {
			tmp = make([]Value, len(mv))
		}
		for i := range mv {
			tmp[i] = fr.get(&mv[i].src)
		}
		for i := range mv {
			fr.regs[mv[i].dst] = tmp[i]
		}
	}
}

func (c *compiler) term(b *Block, sb *ssa.BasicBlock, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Jump:
		e := c.edge(sb, 0)
		b.term = e
	case *ssa.If:
		cond := c.op(in.Cond)
		et, ef := c.edge(sb, 0), c.edge(sb, 1)
		b.term = func(fr *Frame) *Block {
			v := fr.get(&cond)
			if v.p == nil {
				if v.n != 0 {
					return et(fr)
				}
				return ef(fr)
			}
			if b.merge != nil {
				if next, ok := b.merge.try(fr, v); ok {
					return next
				}
			}
			if fr.w.branch(v) {
				return et(fr)
			}
			return ef(fr)
		}
	case *ssa.Return:
		var ops []opnd
		for _, r := range in.Results {
			ops = append(ops, c.op(r))
		}
		switch len(ops) {
		case 0:
			b.term = func(fr *Frame) *Block { fr.result = Value{}; return nil }
		case 1:
			o := ops[0]
			b.term = func(fr *Frame) *Block { fr.result = fr.get(&o); return nil }
		default:
			b.term = func(fr *Frame) *Block {
				t := make(Tuple, len(ops))
				for i := range ops {
					t[i] = fr.get(&ops[i])
				}
				fr.result = Value{p: t}
				return nil
			}
		}
	case *ssa.Panic:
		x := c.op(in.X)
		b.term = func(fr *Frame) *Block {
			panic(targetPanic{v: fr.get(&x)})
		}
	}
}

func (fr *Frame) exec(b *Block) {
	w := fr.w
	for b != nil {
		fr.cur = b
		w.path.steps += b.n
		if w.path.steps > w.job.maxSteps {
			w.limit()
		}
		for _, in := range b.instrs {
			in(fr)
		}
		b = b.term(fr)
	}
}

func (w *Worker) limit() {
	if w.epoch == 0 {
		w.path.steps = -1 << 40
		return
	}
	panic(abortPath{"steps", fmt.Sprintf("more than %d instructions on one path", w.job.maxSteps)})
}

const maxDepth = 12000

func (w *Worker) pushFrame(code *Code, caller *Frame) *Frame {
	if w.depth > maxDepth {
		panic(abortPath{"depth", fmt.Sprintf("call depth over %d in %s", maxDepth, code.fn.name)})
	}
	if w.depth >= len(w.frames) {
		w.frames = append(w.frames, &Frame{})
	}
	fr := w.frames[w.depth]
	if w.sp+code.nregs > len(w.stack) {
		n := 1 << 16
		if code.nregs > n {
			n = code.nregs
		}
		w.stack = make([]Value, n)
		w.sp = 0
	}
	regs := w.stack[w.sp : w.sp+code.nregs : w.sp+code.nregs]
	*fr = Frame{w: w, code: code, regs: regs, caller: caller, base: w.sp, mydepth: w.depth}
	w.depth++
	w.sp += code.nregs
	return fr
}

// invoke runs code whose parameters are already in fr.regs.
func (w *Worker) invoke(fr *Frame) Value {
	code := fr.code
	stk, sp := w.stack, fr.base
	if len(code.blocks) == 0 {
		panic(abortPath{"unsupported", "no body: " + code.fn.name})
	}
	if code.hasDefer {
		fr.runDeferring()
	} else {
		fr.exec(code.blocks[0])
	}
	w.depth = fr.mydepth
	w.stack, w.sp = stk, sp
	return fr.result
}

func (fr *Frame) runDeferring() {
	w := fr.w
	stk := w.stack
	sp := w.sp
	func() {
		defer func() {
			if fr.done {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			w.stack, w.sp, w.depth = stk, sp, fr.mydepth+1
			fr.panicking = true
			fr.panicv = tp
			fr.runDefers()
		}()
		fr.exec(fr.code.blocks[0])
		fr.done = true
	}()
	if !fr.done {
		if fr.code.recover != nil {
			fr.exec(fr.code.recover)
		} else {
			fr.result = zeroResult(fr.code.fn.ssa.Signature)
		}
	}
}

func zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return Value{}
	case 1:
		return rtypeOf(sig.Results().At(0).Type()).zero()
	}
	t := make(Tuple, sig.Results().Len())
	for i := range t {
		t[i] = rtypeOf(sig.Results().At(i).Type()).zero()
	}
	return Value{p: t}
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (fr *Frame) runDefer(d deferred) {
	w := fr.w
	stk, sp := w.stack, w.sp
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			w.stack, w.sp, w.depth = stk, sp, fr.mydepth+1
			fr.panicking = true
			fr.panicv = tp
		}
	}()
	if d.bltn != nil {
		d.bltn(fr)
	} else {
		w.callClosure(fr, d.fn, d.args)
	}
	ok = true
}

func (w *Worker) callClosure(caller *Frame, cl *Closure, args []Value) Value {
	if cl.native != nil {
		return cl.native(w, args)
	}
	return w.callFrom(caller, cl.fn, cl, args)
}

func (w *Worker) callFn(f *Fn, args []Value) Value { return w.callFrom(nil, f, nil, args) }

func (w *Worker) callFrom(caller *Frame, f *Fn, cl *Closure, args []Value) Value {
	if f.intr != nil {
		return f.intr(w, args)
	}
	code := f.codep.Load()
	if code == nil {
		code = w.eng.compile(f)
	}
	fr := w.pushFrame(code, caller)
	n := copy(fr.regs, args)
	if cl != nil && code.nfree > 0 {
		copy(fr.regs[code.freeBase:], cl.free)
		n = code.freeBase + code.nfree
	}
	clear(fr.regs[n:])
	return w.invoke(fr)
}

// callValue calls a func value.
func (w *Worker) callValue(fv Value, args []Value) Value {
	if fv.p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	return w.callClosure(nil, fv.p.(*Closure), args)
}

func (c *compiler) call(in ssa.CallInstruction, dst int) func(*Frame) {
	cc := in.Common()
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		e := c.e
		type cacheT struct {
			t *RType
			f *Fn
		}
		var mc sync.Map
		_ = cacheT{}
		return func(fr *Frame) {
			rv := fr.get(&recv)
			if rv.p == nil {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := rv.p.(*Iface)
			var f *Fn
			if x, ok := mc.Load(i.t); ok {
				f = x.(*Fn)
			} else {
				f = e.method(i.t, m)
				mc.Store(i.t, f)
			}
			fr.regs[dst] = fr.callWith(f, nil, &i.v, args)
		}
	}
	switch fv := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(fv, cc, args, dst)
	case *ssa.Function:
		f := c.e.fn(fv)
		return func(fr *Frame) {
			fr.regs[dst] = fr.callWith(f, nil, nil, args)
		}
	default:
		fo := c.op(cc.Value)
		return func(fr *Frame) {
			v := fr.get(&fo)
			if v.p == nil {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			cl := v.p.(*Closure)
			if cl.native != nil {
				fr.regs[dst] = cl.native(fr.w, fr.args(nil, args))
				return
			}
			fr.regs[dst] = fr.callWith(cl.fn, cl, nil, args)
		}
	}
}

func (fr *Frame) args(recv *Value, args []opnd) []Value {
	var out []Value
	if recv != nil {
		out = append(out, *recv)
	}
	for i := range args {
		out = append(out, fr.get(&args[i]))
	}
	return out
}

func (fr *Frame) callWith(f *Fn, cl *Closure, recv *Value, args []opnd) Value {
	w := fr.w
	if f.intr != nil {
		var buf [6]Value
		a := buf[:0]
		if recv != nil {
			a = append(a, *recv)
		}
		for i := range args {
			a = append(a, fr.get(&args[i]))
		}
		return f.intr(w, a)
	}
	code := f.codep.Load()
	if code == nil {
		code = w.eng.compile(f)
	}
	nf := w.pushFrame(code, fr)
	n := 0
	if recv != nil {
		nf.regs[0] = *recv
		n = 1
	}
	for i := range args {
		nf.regs[n] = fr.get(&args[i])
		n++
	}
	if code.nfree > 0 {
		copy(nf.regs[code.freeBase:], cl.free)
		n = code.freeBase + code.nfree
	}
	clear(nf.regs[n:])
	return w.invoke(nf)
}

func (w *Worker) rtPanic(msg string) {
	panic(targetPanic{v: w.eng.runtimeError(msg)})
}

func (w *Worker) unsupported(msg string) {
	panic(abortPath{"unsupported", msg})
}

func (c *compiler) instr(in ssa.Instruction) func(*Frame) {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		et := rtypeOf(in.Type().Underlying().(*types.Pointer).Elem())
		n := et.cells
		return func(fr *Frame) {
			fr.regs[dst] = Value{p: fr.w.newObj(n, et)}
		}
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.Call:
		return c.call(in, dst)
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.ChangeType:
		x := c.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.Convert:
		return c.convert(rtypeOf(in.X.Type()), rtypeOf(in.Type()), c.op(in.X), dst)
	case *ssa.MultiConvert:
		return c.convert(rtypeOf(in.X.Type()), rtypeOf(in.Type()), c.op(in.X), dst)
	case *ssa.MakeInterface:
		x := c.op(in.X)
		t := rtypeOf(in.X.Type())
		return func(fr *Frame) { fr.regs[dst] = Value{p: &Iface{t, fr.get(&x)}} }
	case *ssa.MakeClosure:
		f := c.e.fn(in.Fn.(*ssa.Function))
		var ops []opnd
		for _, b := range in.Bindings {
			ops = append(ops, c.op(b))
		}
		return func(fr *Frame) {
			free := make([]Value, len(ops))
			for i := range ops {
				free[i] = fr.get(&ops[i])
			}
			fr.regs[dst] = Value{p: &Closure{fn: f, free: free}}
		}
	case *ssa.MakeMap:
		t := rtypeOf(in.Type())
		return func(fr *Frame) { fr.regs[dst] = Value{p: fr.w.newMap(t)} }
	case *ssa.MakeSlice:
		l, cp := c.op(in.Len), c.op(in.Cap)
		et := rtypeOf(in.Type()).elemT()
		return func(fr *Frame) {
			w := fr.w
			n := int(int64(w.concrete(fr.get(&l), 64, "make length")))
			m := int(int64(w.concrete(fr.get(&cp), 64, "make capacity")))
			if n < 0 || n > 1<<28 {
				w.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<28 {
				w.rtPanic("makeslice: cap out of range")
			}
			o := w.newObj(m*et.cells, et)
			fr.regs[dst] = Value{p: &Slice{o, 0, n, m}}
		}
	case *ssa.MakeChan:
		return func(fr *Frame) { fr.regs[dst] = Value{p: &Object{cells: make([]Value, 1), epoch: fr.w.epoch}} }
	case *ssa.Slice:
		return c.sliceOp(in, dst)
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				if n > 0 {
					fr.w.rtPanic("cannot convert slice to array pointer")
				}
				fr.regs[dst] = Value{}
				return
			}
			s := v.p.(*Slice)
			if s.len < n {
				fr.w.rtPanic("cannot convert slice to array pointer")
			}
			fr.regs[dst] = Value{p: s.obj, n: uint64(s.off)}
		}
	case *ssa.FieldAddr:
		x := c.op(in.X)
		st := rtypeOf(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(st.fields[in.Field].off)
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			fr.regs[dst] = Value{p: v.p, n: v.n + off}
		}
	case *ssa.Field:
		x := c.op(in.X)
		st := rtypeOf(in.X.Type())
		f := st.fields[in.Field]
		return func(fr *Frame) {
			a := fr.get(&x).p.(Agg)
			fr.regs[dst] = unflat2(f.t, a, f.off)
		}
	case *ssa.IndexAddr:
		return c.indexAddr(in, dst)
	case *ssa.Index:
		return c.index(in, dst)
	case *ssa.Lookup:
		return c.lookup(in, dst)
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(fr *Frame) {
			mv := fr.get(&m)
			if mv.p == nil {
				panic(targetPanic{v: fr.w.eng.plainError("assignment to entry in nil map")})
			}
			fr.w.mapSet(mv.p.(*Map), fr.get(&k), fr.get(&v))
		}
	case *ssa.Range:
		x := c.op(in.X)
		t := rtypeOf(in.X.Type())
		return func(fr *Frame) {
			v := fr.get(&x)
			if t.kind == KString {
				fr.regs[dst] = Value{p: &strIter{s: v}}
				return
			}
			var m *Map
			if v.p != nil {
				m = v.p.(*Map)
			}
			fr.regs[dst] = Value{p: fr.w.newMapIter(m)}
		}
	case *ssa.Next:
		x := c.op(in.Iter)
		if in.IsString {
			return func(fr *Frame) {
				it := fr.get(&x).p.(*strIter)
				// iterators live in one register; copy so replays of loops are safe
				if it.i >= strLen(it.s) {
					fr.regs[dst] = Value{p: Tuple{{}, {}, {}}}
					return
				}
				r, n := fr.w.decodeRune(it.s, it.i)
				fr.regs[dst] = Value{p: Tuple{{n: 1}, {n: uint64(it.i)}, r}}
				it.i += n
			}
		}
		tt := in.Type().(*types.Tuple)
		kt, vt := rtypeOf(tt.At(1).Type()), rtypeOf(tt.At(2).Type())
		return func(fr *Frame) {
			it := fr.get(&x).p.(*mapIter)
			k, v, ok := it.next(fr.w)
			if !ok {
				fr.regs[dst] = Value{p: Tuple{{}, kt.zeroSafe(), vt.zeroSafe()}}
				return
			}
			fr.regs[dst] = Value{p: Tuple{{n: 1}, k, v}}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		return func(fr *Frame) { fr.regs[dst] = fr.get(&x).p.(Tuple)[i] }
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		t := rtypeOf(in.Val.Type())
		if !t.isAgg() {
			return func(fr *Frame) {
				p := fr.get(&a)
				o, ok := p.p.(*Object)
				if !ok {
					fr.w.badPtr(p)
				}
				fr.w.setCell(o, int(p.n), fr.get(&v))
			}
		}
		return func(fr *Frame) {
			p := fr.get(&a)
			o, ok := p.p.(*Object)
			if !ok {
				fr.w.badPtr(p)
			}
			fr.w.store(t, o, int(p.n), fr.get(&v))
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Defer:
		return c.deferOp(in)
	case *ssa.Go:
		call := c.call(in, c.scratch())
		pos := c.fn.String()
		return func(fr *Frame) {
			if fr.w.eng.goInline[pos] {
				call(fr)
				return
			}
			fr.w.unsupported("go statement in " + pos)
		}
	case *ssa.Send:
		return func(fr *Frame) { fr.w.unsupported("channel send in " + c.fn.String()) }
	case *ssa.Select:
		return func(fr *Frame) { fr.w.unsupported("select in " + c.fn.String()) }
	}
	s := fmt.Sprintf("instruction %T in %s", in, c.fn)
	return func(fr *Frame) { fr.w.unsupported(s) }
}

func (r *RType) zeroSafe() Value {
	if r.kind == KInvalid {
		return Value{}
	}
	return r.zero()
}

func unflat2(t *RType, a []Value, off int) Value {
	if t.isAgg() {
		return Value{p: Agg(a[off : off+t.cells : off+t.cells])}
	}
	return a[off]
}

func (c *compiler) scratch() int {
	r := c.code.nregs
	c.code.nregs++
	return r
}

func (w *Worker) badPtr(p Value) {
	if p.p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	w.unsupported(fmt.Sprintf("memory access through %T", p.p))
}

func (c *compiler) deferOp(in *ssa.Defer) func(*Frame) {
	cc := in.Common()
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	ds := opnd{reg: -1, g: -1}
	if in.DeferStack != nil {
		ds = c.op(in.DeferStack)
	}
	push := func(fr *Frame, d deferred) {
		if ds.reg >= 0 {
			if f, ok := fr.get(&ds).p.(*Frame); ok {
				fr = f
			}
		}
		fr.defers = append(fr.defers, d)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		return func(fr *Frame) {
			rv := fr.get(&recv)
			if rv.p == nil {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := rv.p.(*Iface)
			f := fr.w.eng.method(i.t, cc.Method)
			push(fr, deferred{fn: &Closure{fn: f}, args: fr.args(&i.v, args)})
		}
	}
	switch fv := cc.Value.(type) {
	case *ssa.Builtin:
		// evaluate the arguments now, run the builtin later on a scratch copy
		base := c.code.nregs
		c.code.nregs += len(args) + 1
		late := make([]opnd, len(args))
		for i := range late {
			late[i] = opnd{reg: int32(base + i), g: -1}
		}
		run := c.builtin(fv, cc, late, base+len(args))
		return func(fr *Frame) {
			vals := fr.args(nil, args)
			push(fr, deferred{bltn: func(f2 *Frame) {
				copy(f2.regs[base:], vals)
				run(f2)
			}})
		}
	default:
		fo := c.op(cc.Value)
		return func(fr *Frame) {
			v := fr.get(&fo)
			if v.p == nil {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			push(fr, deferred{fn: v.p.(*Closure), args: fr.args(nil, args)})
		}
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) func(*Frame) {
	x := c.op(in.X)
	at := rtypeOf(in.AssertedType)
	isIface := at.kind == KInterface
	return func(fr *Frame) {
		v := fr.get(&x)
		ok := false
		var res Value
		if v.p != nil {
			i := v.p.(*Iface)
			if isIface {
				if i.t.implements(at) {
					ok, res = true, v
				}
			} else if i.t == at {
				ok, res = true, i.v
			}
		}
		if in.CommaOk {
			if !ok {
				res = at.zero()
			}
			fr.regs[dst] = Value{p: Tuple{res, bval(ok)}}
			return
		}
		if !ok {
			got := "nil"
			if v.p != nil {
				got = v.p.(*Iface).t.String()
			}
			fr.w.rtPanic("interface conversion: interface is " + got + ", not " + at.String())
		}
		fr.regs[dst] = res
	}
}

func (c *compiler) unop(in *ssa.UnOp, dst int) func(*Frame) {
	x := c.op(in.X)
	t := rtypeOf(in.Type())
	switch in.Op {
	case token.MUL:
		if t.isAgg() {
			return func(fr *Frame) {
				p := fr.get(&x)
				o, ok := p.p.(*Object)
				if !ok {
					if sp, is := p.p.(*symPtr); is {
						fr.regs[dst] = fr.w.loadSymPtr(sp, t)
						return
					}
					fr.w.badPtr(p)
				}
				fr.regs[dst] = load(t, o, int(p.n))
			}
		}
		return func(fr *Frame) {
			p := fr.get(&x)
			o, ok := p.p.(*Object)
			if !ok {
				if sp, is := p.p.(*symPtr); is {
					fr.regs[dst] = fr.w.loadSymPtr(sp, t)
					return
				}
				fr.w.badPtr(p)
			}
			fr.regs[dst] = o.cells[p.n]
		}
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				fr.regs[dst] = Value{n: v.n ^ 1}
				return
			}
			fr.regs[dst] = tv(fr.w.ts.not(v.p.(*Term)))
		}
	case token.SUB:
		if t.isFloat() {
			return func(fr *Frame) {
				v := fr.get(&x)
				fr.regs[dst] = Value{n: math.Float64bits(-math.Float64frombits(v.n))}
			}
		}
		if t.isInt() {
			wd := t.w
			return func(fr *Frame) {
				v := fr.get(&x)
				if v.p == nil {
					fr.regs[dst] = Value{n: -v.n & mask(wd)}
					return
				}
				fr.regs[dst] = tv(fr.w.ts.neg(v.p.(*Term)))
			}
		}
		return func(fr *Frame) { fr.w.unsupported("complex negation") }
	case token.XOR:
		wd := t.w
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				fr.regs[dst] = Value{n: ^v.n & mask(wd)}
				return
			}
			fr.regs[dst] = tv(fr.w.ts.bnot(v.p.(*Term)))
		}
	case token.ARROW:
		return func(fr *Frame) { fr.w.unsupported("channel receive in " + c.fn.String()) }
	}
	panic("unop")
}
