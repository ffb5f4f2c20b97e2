package main

import (
	"fmt"
	"math"
)

type mapEntry struct {
	k, v Value
	dead bool
	sym  bool // key has symbolic parts
}

// Map keeps entries in insertion order. Entries with concrete keys are
// indexed; symbolic keys are compared one by one, forking on equality.
type Map struct {
	kt, vt  *RType
	entries []mapEntry
	index   map[any]int
	nsym    int
	live    int
	epoch   uint8
	saved   bool
}

type mapSave struct {
	m     *Map
	saved mapState
}

type mapState struct {
	entries []mapEntry
	index   map[any]int
	nsym    int
	live    int
}

func (w *Worker) newMap(t *RType) *Map {
	return &Map{kt: t.keyT(), vt: t.elemT(), epoch: w.epoch}
}

func (m *Map) restore(s mapState) {
	m.entries, m.index, m.nsym, m.live = s.entries, s.index, s.nsym, s.live
	m.saved = false
}

// dirty prepares m for a write.
func (w *Worker) dirty(m *Map) {
	if m.epoch == w.epoch || m.saved {
		return
	}
	w.mjourn = append(w.mjourn, mapSave{m, mapState{m.entries, m.index, m.nsym, m.live}})
	m.saved = true
	m.entries = append([]mapEntry(nil), m.entries...)
	idx := make(map[any]int, len(m.index))
	for k, v := range m.index {
		idx[k] = v
	}
	m.index = idx
}

type pair struct{ a, b any }
type ptrKey struct {
	o any
	n uint64
}
type ifaceKey struct {
	t *RType
	k any
}

// concKey gives a comparable Go key, or ok=false when v has symbolic parts.
func (w *Worker) concKey(t *RType, v Value) (any, bool) {
	switch t.kind {
	case KString:
		switch s := v.p.(type) {
		case nil:
			return "", true
		case string:
			return s, true
		}
		return nil, false
	case KInterface:
		if v.p == nil {
			return nil, true
		}
		i := v.p.(*Iface)
		k, ok := w.concKey(i.t, i.v)
		return ifaceKey{i.t, k}, ok
	case KStruct:
		var k any = 0
		a := v.p.(Agg)
		for i := len(t.fields) - 1; i >= 0; i-- {
			f := t.fields[i]
			fk, ok := w.concKey(f.t, unflat2(f.t, a, f.off))
			if !ok {
				return nil, false
			}
			k = pair{fk, k}
		}
		return k, true
	case KArray:
		var k any = 0
		a := v.p.(Agg)
		for i := t.n - 1; i >= 0; i-- {
			fk, ok := w.concKey(t.elem, unflat2(t.elem, a, i*t.elem.cells))
			if !ok {
				return nil, false
			}
			k = pair{fk, k}
		}
		return k, true
	case KFloat32, KFloat64:
		return fl(v), true
	case KSlice, KMap, KFunc:
		w.rtPanic("hash of unhashable type " + t.String())
	}
	if t.isInt() || t.kind == KBool {
		if v.p == nil {
			return v.n, true
		}
		if _, ok := v.p.(*Term); ok {
			return nil, false
		}
	}
	return ptrKey{v.p, v.n}, true
}

// find locates the entry for key k, or -1. It may fork.
func (w *Worker) find_(m *Map, k Value) int {
	if t := m.kt; (t.kind == KFloat64 || t.kind == KFloat32) && math.IsNaN(fl(k)) {
		return -1
	}
	ck, conc := w.concKey(m.kt, k)
	if conc {
		if m.index != nil {
			if i, ok := m.index[ck]; ok {
				return i
			}
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.entries {
		e := &m.entries[i]
		if e.dead || (conc && !e.sym) {
			continue
		}
		if w.branch(w.equal(m.kt, k, m.kt, e.k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapGet(m *Map, k Value) (Value, bool) {
	if m.live == 0 && !(m.kt.kind == KInterface) {
		return Value{}, false
	}
	i := w.find_(m, k)
	if i < 0 {
		return Value{}, false
	}
	return m.entries[i].v, true
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	i := w.find_(m, k)
	w.dirty(m)
	if i >= 0 {
		m.entries[i].v = v
		return
	}
	ck, conc := w.concKey(m.kt, k)
	m.entries = append(m.entries, mapEntry{k: k, v: v, sym: !conc})
	if conc {
		if m.index == nil {
			m.index = map[any]int{}
		}
		m.index[ck] = len(m.entries) - 1
	} else {
		m.nsym++
	}
	m.live++
}

func (w *Worker) mapDelete(m *Map, k Value) {
	if m.live == 0 {
		return
	}
	i := w.find_(m, k)
	if i < 0 {
		return
	}
	w.dirty(m)
	e := &m.entries[i]
	if e.sym {
		m.nsym--
	} else {
		ck, _ := w.concKey(m.kt, e.k)
		delete(m.index, ck)
	}
	e.dead = true
	e.sym = false
	e.k, e.v = Value{}, Value{}
	m.live--
	if m.live == 0 {
		m.entries = nil // iterators hold positions past the end; fine
		m.index = nil
	}
}

func (w *Worker) mapClear(m *Map) {
	w.dirty(m)
	m.entries, m.index, m.nsym, m.live = nil, nil, 0, 0
}

type mapIter struct {
	m    *Map
	i    int
	ord  bool
	seen map[int]bool
	perm []int
	n0   int
}

func (w *Worker) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	p := w.path
	if m == nil || !p.mapOrd || w.epoch != 1 || m.live < 2 {
		return it
	}
	switch p.mapMode {
	case 0:
		if m.live <= 6 {
			it.ord = true
			it.seen = map[int]bool{}
		}
	case 1: // the same few orders for every loop
		if p.mapPerm == 0 {
			p.mapPerm = 1 + int(w.orderChoice(6))
		}
		it.permute(p.mapPerm-1, m.live)
	case 2: // one loop in any order, the others in order of insertion
		if p.mapPerm == 0 {
			n := 0
			if m.live <= 4 {
				if w.orderChoice(2) == 1 {
					it.ord = true
					it.seen = map[int]bool{}
					p.mapPerm = 1
				}
			} else if n = int(w.orderChoice(7)); n > 0 {
				it.permute(n-1, m.live)
				p.mapPerm = 1
			}
		}
	}
	return it
}

// permute arranges for one of a few orders: any of three rotations, forwards
// or backwards.
func (it *mapIter) permute(k, live int) {
	for i := range it.m.entries {
		if !it.m.entries[i].dead {
			it.perm = append(it.perm, i)
		}
	}
	r := []int{0, 1, live / 2}[k/2%3]
	it.perm = append(append([]int{}, it.perm[r:]...), it.perm[:r]...)
	if k%2 == 1 {
		for i, j := 0, len(it.perm)-1; i < j; i, j = i+1, j-1 {
			it.perm[i], it.perm[j] = it.perm[j], it.perm[i]
		}
	}
	it.n0 = len(it.m.entries)
}

func (it *mapIter) next(w *Worker) (k, v Value, ok bool) {
	if it.m == nil {
		return
	}
	m := it.m
	if it.ord {
		// choose any remaining entry
		var rest []int
		for i := range m.entries {
			if !m.entries[i].dead && !it.seen[i] {
				rest = append(rest, i)
			}
		}
		if len(rest) == 0 {
			return
		}
		c := 0
		if len(rest) > 1 {
			c = int(w.orderChoice(len(rest)))
		}
		it.seen[rest[c]] = true
		e := &m.entries[rest[c]]
		return e.k, e.v, true
	}
	if it.perm != nil {
		for it.i < len(it.perm) {
			j := it.perm[it.i]
			it.i++
			if j < len(m.entries) && !m.entries[j].dead {
				return m.entries[j].k, m.entries[j].v, true
			}
		}
		// entries added meanwhile
		for it.n0 < len(m.entries) {
			e := &m.entries[it.n0]
			it.n0++
			if !e.dead {
				return e.k, e.v, true
			}
		}
		return
	}
	for it.i < len(m.entries) {
		e := &m.entries[it.i]
		it.i++
		if !e.dead {
			return e.k, e.v, true
		}
	}
	return
}

// orderChoice picks a value in [0,n) with a fresh symbolic variable that is
// not part of the harness's inputs.
func (w *Worker) orderChoice(n int) uint64 {
	v := w.newVar(8, 0)
	w.addPC(w.ts.cmp(OpUlt, v, w.ts.bv(uint64(n), 8)))
	return w.concrete(tv(v), 8, "map order")
}

var _ = fmt.Sprint
