package main

// If-conversion: short acyclic regions of pure instructions below a symbolic
// branch are evaluated on both sides and joined with if-then-else terms
// instead of forking the path.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

type Region struct {
	code   *Code
	blocks []*regBlock // topological order, first is the head (already executed)
	join   *Block      // nil: every exit is a return
	join2  *Block      // second exit: the path still forks, but only once
}

type regBlock struct {
	b     *Block
	kind  int // 0 jump, 1 if, 2 return
	cond  opnd
	ret   []opnd
	succ  []int // position in blocks, or -1 for the join
	edge  []int // predecessor edge index in the successor
	preds int
}

const maxRegion = 24

func pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		return true
	case *ssa.BinOp:
		t := rtypeOf(in.X.Type())
		switch in.Op {
		case token.QUO, token.REM:
			return false
		case token.SHL, token.SHR:
			if _, ok := in.Y.(*ssa.Const); ok {
				return true
			}
			return !rtypeOf(in.Y.Type()).signed
		}
		return t.isInt() || t.kind == KBool || (t.kind == KString && (in.Op == token.EQL || in.Op == token.NEQ))
	case *ssa.UnOp:
		return in.Op == token.NOT || (in.Op == token.SUB || in.Op == token.XOR) && rtypeOf(in.X.Type()).isInt()
	case *ssa.Convert:
		return rtypeOf(in.X.Type()).isInt() && rtypeOf(in.Type()).isInt()
	case *ssa.ChangeType:
		return true
	case *ssa.Extract:
		return true
	}
	return false
}

// regions finds, for every If block, the region up to its join.
func (c *compiler) regions() {
	if o := c.fn.Origin(); o != nil && o.String() == "strconv.bsearch" {
		return // searching constant tables: forking keeps the bounds constant
	}
	fn := c.fn
	if len(fn.Blocks) < 3 || c.code.hasDefer {
		return
	}
	for _, sb := range fn.Blocks {
		if _, ok := sb.Instrs[len(sb.Instrs)-1].(*ssa.If); ok {
			c.region(sb)
		}
	}
}

func pureBlock(sb *ssa.BasicBlock) bool {
	for _, in := range sb.Instrs[:len(sb.Instrs)-1] {
		if !pureInstr(in) {
			return false
		}
	}
	switch sb.Instrs[len(sb.Instrs)-1].(type) {
	case *ssa.Jump, *ssa.If, *ssa.Return:
		return true
	}
	return false
}

func (c *compiler) region(head *ssa.BasicBlock) {
	// Grow the set of pure blocks all of whose predecessors are in the set,
	// from the head. What is left on the frontier must be a single block (the
	// join), or nothing when every exit is a return.
	in := map[*ssa.BasicBlock]bool{head: true}
	order := []*ssa.BasicBlock{head}
	frontier := func() map[*ssa.BasicBlock]bool {
		f := map[*ssa.BasicBlock]bool{}
		for _, b := range order {
			for _, s := range b.Succs {
				if !in[s] {
					f[s] = true
				}
			}
		}
		return f
	}
	var best []*ssa.BasicBlock
	var bestJoin, bestJoin2 *ssa.BasicBlock
	found := false
	for len(order) <= maxRegion {
		f := frontier()
		hasRet := false
		for _, b := range order[1:] {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				hasRet = true
			}
		}
		if len(order) > 1 || len(f) == 1 {
			if len(f) == 1 && !hasRet {
				for j := range f {
					best, bestJoin, bestJoin2, found = append([]*ssa.BasicBlock(nil), order...), j, nil, true
				}
				break
			}
			if len(f) == 0 {
				best, bestJoin, bestJoin2, found = append([]*ssa.BasicBlock(nil), order...), nil, nil, true
				break
			}
			if len(f) == 2 && !hasRet {
				var js []*ssa.BasicBlock
				for j := range f {
					js = append(js, j)
				}
				if js[0].Index > js[1].Index {
					js[0], js[1] = js[1], js[0]
				}
				best, bestJoin, bestJoin2, found = append([]*ssa.BasicBlock(nil), order...), js[0], js[1], true
			}
		}
		// add one eligible block
		var add *ssa.BasicBlock
		for _, b := range order {
			for _, s := range b.Succs {
				if in[s] || s == head || !pureBlock(s) {
					continue
				}
				all := true
				for _, p := range s.Preds {
					if !in[p] {
						all = false
					}
				}
				if all && (add == nil || s.Index < add.Index) {
					add = s
				}
			}
		}
		if add == nil {
			break
		}
		in[add] = true
		order = append(order, add)
	}
	if !found {
		return
	}
	for _, b := range best {
		for _, s := range b.Succs {
			if s == head {
				return // loop
			}
		}
	}
	r := &Region{code: c.code}
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range best {
		pos[b] = i
	}
	if bestJoin != nil {
		r.join = c.code.blocks[bestJoin.Index]
	}
	if bestJoin2 != nil {
		r.join2 = c.code.blocks[bestJoin2.Index]
	}
	for _, b := range best {
		rb := &regBlock{b: c.code.blocks[b.Index]}
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			rb.kind = 1
			rb.cond = c.op(t.Cond)
		case *ssa.Return:
			rb.kind = 2
			for _, x := range t.Results {
				rb.ret = append(rb.ret, c.op(x))
			}
		}
		for i, s := range b.Succs {
			if s == bestJoin {
				rb.succ = append(rb.succ, -1)
			} else if bestJoin2 != nil && s == bestJoin2 {
				rb.succ = append(rb.succ, -2)
			} else {
				rb.succ = append(rb.succ, pos[s])
			}
			rb.edge = append(rb.edge, c.edgeIndex(b, i))
		}
		r.blocks = append(r.blocks, rb)
	}
	// A join with no phis and nothing computed gains nothing but is still a
	// saved fork, so keep it.
	c.code.blocks[head.Index].merge = r
}

type inEdge struct {
	guard *Term
	vals  []Value
}

func sameValue(a, b Value) bool {
	if a.p == nil && b.p == nil {
		return a.n == b.n
	}
	switch x := a.p.(type) {
	case *Term:
		y, ok := b.p.(*Term)
		return ok && x == y
	case *Object:
		y, ok := b.p.(*Object)
		return ok && x == y && a.n == b.n
	case string:
		y, ok := b.p.(string)
		return ok && x == y
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && x == y
	case *Slice:
		y, ok := b.p.(*Slice)
		return ok && x == y
	case *Closure:
		y, ok := b.p.(*Closure)
		return ok && x == y
	case *Map:
		y, ok := b.p.(*Map)
		return ok && x == y
	case *SymStr:
		y, ok := b.p.(*SymStr)
		return ok && x == y
	}
	return false
}

// mergeTyped joins the phi inputs of several guarded edges; wd is the scalar
// width (255: not a scalar).
func (w *Worker) mergeTyped(es []inEdge, k int, wd uint8) (Value, bool) {
	r := es[len(es)-1].vals[k]
	for i := len(es) - 2; i >= 0; i-- {
		v := es[i].vals[k]
		if sameValue(v, r) {
			continue
		}
		if wd == 255 {
			return Value{}, false
		}
		if _, ok := v.p.(*Term); !ok && v.p != nil {
			return Value{}, false
		}
		if _, ok := r.p.(*Term); !ok && r.p != nil {
			return Value{}, false
		}
		r = tv(w.ts.ite(es[i].guard, w.term(v, wd), w.term(r, wd)))
	}
	return r, true
}

func (r *Region) try(fr *Frame, cond Value) (*Block, bool) {
	w := fr.w
	if w.eng.noMerge {
		return nil, false
	}
	ts := w.ts
	in := make([][]inEdge, len(r.blocks))
	var joinIn, join2In, rets []inEdge
	send := func(rb *regBlock, k int, g *Term) {
		if g == ts.fals {
			return
		}
		target := rb.succ[k]
		var tb *Block
		if target == -1 {
			tb = r.join
		} else if target == -2 {
			tb = r.join2
		} else {
			tb = r.blocks[target].b
		}
		mv := tb.moves[rb.edge[k]]
		vals := make([]Value, len(mv))
		for i := range mv {
			vals[i] = fr.get(&mv[i].src)
		}
		if target == -1 {
			joinIn = append(joinIn, inEdge{g, vals})
		} else if target == -2 {
			join2In = append(join2In, inEdge{g, vals})
		} else {
			in[target] = append(in[target], inEdge{g, vals})
		}
	}
	head := r.blocks[0]
	c := cond.p.(*Term)
	send(head, 0, c)
	send(head, 1, ts.not(c))
	steps := 0
	for i := 1; i < len(r.blocks); i++ {
		rb := r.blocks[i]
		es := in[i]
		if len(es) == 0 {
			continue
		}
		g := ts.fals
		for _, e := range es {
			g = ts.or(g, e.guard)
		}
		if !r.assign(fr, rb.b, es) {
			return nil, false
		}
		for _, f := range rb.b.instrs {
			f(fr)
		}
		steps += rb.b.n
		switch rb.kind {
		case 0:
			send(rb, 0, g)
		case 1:
			cv := fr.get(&rb.cond)
			ct := w.term(cv, 0)
			send(rb, 0, ts.and(g, ct))
			send(rb, 1, ts.and(g, ts.not(ct)))
		case 2:
			vals := make([]Value, len(rb.ret))
			for k := range rb.ret {
				vals[k] = fr.get(&rb.ret[k])
			}
			rets = append(rets, inEdge{g, vals})
		}
	}
	w.path.steps += steps
	if r.join2 != nil {
		if len(joinIn) > 0 && len(join2In) > 0 {
			g := ts.fals
			for _, e := range joinIn {
				g = ts.or(g, e.guard)
			}
			// decide mergeability before branching, so that a failed merge
			// leaves no decision behind
			if !r.mergeable(fr, r.join, joinIn) || !r.mergeable(fr, r.join2, join2In) {
				return nil, false
			}
			if w.branch(tv(g)) {
				join2In = nil
			} else {
				joinIn = nil
			}
		}
		if len(joinIn) > 0 {
			if !r.assign(fr, r.join, joinIn) {
				return nil, false
			}
			return r.join, true
		}
		if len(join2In) == 0 || !r.assign(fr, r.join2, join2In) {
			return nil, false
		}
		return r.join2, true
	}
	if r.join != nil {
		if len(joinIn) == 0 || !r.assign(fr, r.join, joinIn) {
			return nil, false
		}
		return r.join, true
	}
	// all returns
	sig := r.code.fn.ssa.Signature.Results()
	out := make([]Value, sig.Len())
	for k := range out {
		v, ok := w.mergeTyped(rets, k, scalarWidth(rtypeOf(sig.At(k).Type())))
		if !ok {
			return nil, false
		}
		out[k] = v
	}
	switch len(out) {
	case 0:
		fr.result = Value{}
	case 1:
		fr.result = out[0]
	default:
		fr.result = Value{p: Tuple(out)}
	}
	return nil, true
}

func scalarWidth(t *RType) uint8 {
	if t.isInt() {
		return t.w
	}
	if t.kind == KBool {
		return 0
	}
	return 255
}

func (r *Region) merged(fr *Frame, b *Block, es []inEdge) ([]Value, bool) {
	if len(b.moves) == 0 || len(b.moves[0]) == 0 {
		return nil, true
	}
	vals := make([]Value, len(b.moves[0]))
	k := 0
	for _, in := range b.ssa.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := fr.w.mergeTyped(es, k, scalarWidth(rtypeOf(phi.Type())))
		if !ok {
			return nil, false
		}
		vals[k] = v
		k++
	}
	return vals, true
}

func (r *Region) mergeable(fr *Frame, b *Block, es []inEdge) bool {
	_, ok := r.merged(fr, b, es)
	return ok
}

func (r *Region) assign(fr *Frame, b *Block, es []inEdge) bool {
	vals, ok := r.merged(fr, b, es)
	if !ok {
		return false
	}
	for i := range vals {
		fr.regs[b.moves[0][i].dst] = vals[i]
	}
	return true
}
