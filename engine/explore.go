package main

// Path exploration: re-execution with decision prefixes.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type decNode struct {
	parent *decNode
	val    uint64
	depth  int
}

type Item struct {
	node  *decNode
	model []uint64
}

type abortPath struct {
	kind string // assume, infeasible, unsupported, steps, depth, done, exit, unknown
	msg  string
}

type targetPanic struct {
	v    Value // interface value
	goex bool
}

type ndEntry struct {
	term *Term // nil when concrete
	n    uint64
	add  uint64 // value = term + add
}

type obsEntry struct {
	label string
	v     Value
}

type Path struct {
	prefix  []uint64
	pos     int
	node    *decNode
	pcSet   map[*Term]bool
	npc     int
	uf      []int32
	lists   [][]*Term
	nvars   int
	nd      []ndEntry
	obs     []obsEntry
	covers  []string
	steps   int
	mapOrd  bool
	mapMode int
	mapPerm int
	asserts int
	reduced []string
}

// Violation is a candidate counterexample.
type Violation struct {
	Label string            `json:"label"`
	Kind  string            `json:"kind"` // assert, panic, steps, depth
	Msg   string            `json:"msg,omitempty"`
	ND    []uint64          `json:"nd"`
	Obs   map[string]string `json:"obs,omitempty"`
	MapO  bool              `json:"maporder,omitempty"`
}

type PathSample struct {
	ND     []uint64
	Obs    [][2]string
	Covers []string
	Status string
	MapO   bool
}

type Job struct {
	eng      *Engine
	harness  *Fn
	setup    *Fn
	name     string
	deadline time.Time
	maxSteps int
	maxViol  int

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []Item
	active  int
	stopped bool

	paths, completed, assumed, decisions int64
	branchNodes                          int64
	forced                               int64
	asserts, assertQ                     int64 // assertions evaluated; of those needing a solver query
	aborts                               map[string]int
	abortMsg                             map[string]int
	covers                               map[string]int
	viol                                 []Violation
	violSeen                             map[string]int
	samples                              []PathSample
	queries, hits, sat, unsat, unknown   int
	solverTime                           time.Duration
	steps                                int64
	pending                              int
	funcs                                map[string]bool
	setupErr                             string
	maxPC                                int64
	sampleEvery                          int64
	timedOut                             bool
	isKnown                              func(*Violation) bool
	nviol                                int
}

func (e *Engine) newJob(name string, h, s *Fn, budget time.Duration) *Job {
	j := &Job{eng: e, harness: h, setup: s, name: name, deadline: time.Now().Add(budget), maxSteps: 60_000_000,
		maxViol: 6, aborts: map[string]int{}, abortMsg: map[string]int{}, covers: map[string]int{},
		violSeen: map[string]int{}, funcs: map[string]bool{}, sampleEvery: 1}
	j.cond = sync.NewCond(&j.mu)
	return j
}

func (j *Job) run(nworkers int) {
	j.queue = []Item{{}}
	var wg sync.WaitGroup
	var ran int64
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := j.eng.newWorker(i, j)
			first := true
			for {
				it, ok := j.pop()
				if !ok {
					break
				}
				if first {
					if err := w.initPrograms(); err != nil {
						j.mu.Lock()
						j.setupErr = err.Error()
						j.stopped = true
						j.active--
						j.cond.Broadcast()
						j.mu.Unlock()
						return
					}
					first = false
				}
				atomic.AddInt64(&ran, 1)
				w.runPath(it)
				j.mu.Lock()
				j.active--
				j.cond.Broadcast()
				j.mu.Unlock()
			}
			w.finish()
		}(i)
	}
	wg.Wait()
	j.pending = len(j.queue)
}

func (j *Job) pop() (Item, bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for {
		if time.Now().After(j.deadline) && (len(j.queue) > 0 || j.active > 0) {
			j.timedOut = true
		}
		if j.stopped || time.Now().After(j.deadline) || j.nviol >= j.maxViol {
			j.stopped = true
			j.cond.Broadcast()
			return Item{}, false
		}
		if len(j.queue) > 0 {
			it := j.queue[len(j.queue)-1]
			j.queue = j.queue[:len(j.queue)-1]
			j.active++
			return it, true
		}
		if j.active == 0 {
			j.cond.Broadcast()
			return Item{}, false
		}
		j.cond.Wait()
	}
}

func (j *Job) push(it Item) {
	j.mu.Lock()
	j.queue = append(j.queue, it)
	j.mu.Unlock()
	j.cond.Signal()
}

type Worker struct {
	eng          *Engine
	job          *Job
	id           int
	ts           *Terms
	sol          *Solver
	globals      []*Object
	epoch        uint8
	journal      []jent
	mjourn       []mapSave
	stack        []Value
	sp           int
	frames       []*Frame
	depth        int
	path         *Path
	pathIDs      []any // pointers that got a number on this path
	inited       map[string]bool
	files        map[string]Value
	filesPath    map[string]Value
	pools        map[*Object]Value
	deadlineTick int
	trace        bool
	nativeMem    map[string]any
}

func (w *Worker) initPrograms() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("init: %v", w.describePanic(r))
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", err, debug.Stack())
				w.dumpStack(os.Stderr)
			}
		}
	}()
	w.epoch = 0
	w.path = &Path{pcSet: map[*Term]bool{}}
	pkg := w.job.harness.ssa.Pkg
	w.callFn(w.eng.fn(pkg.Func("init")), nil)
	if w.job.setup != nil {
		w.callFn(w.job.setup, nil)
	}
	w.epoch = 1
	return nil
}

func (w *Worker) finish() {
	w.sol.stop()
	j := w.job
	j.mu.Lock()
	j.queries += w.sol.queries
	j.hits += w.sol.hits
	j.sat += w.sol.sat
	j.unsat += w.sol.unsat
	j.unknown += w.sol.unknown
	j.solverTime += w.sol.tim
	j.mu.Unlock()
}

// forget drops what is left of a path in the stack, so that it can be
// collected.
func (w *Worker) forget() {
	clear(w.stack)
	for _, f := range w.frames {
		if f == nil {
			continue
		}
		clear(f.defers[:cap(f.defers)])
		f.defers = f.defers[:0]
		f.panicv, f.result = nil, Value{}
	}
}

func (w *Worker) runPath(it Item) {
	j := w.job
	n := 0
	if it.node != nil {
		n = it.node.depth
	}
	prefix := make([]uint64, n)
	for d := it.node; d != nil; d = d.parent {
		prefix[d.depth-1] = d.val
	}
	w.path = &Path{prefix: prefix, pcSet: map[*Term]bool{}}
	w.ts.setModel(append([]uint64(nil), it.model...))
	w.sp, w.depth = 0, 0
	w.filesPath = nil
	w.pools = nil
	status, msg := w.runBody()
	p := w.path
	// rollback
	for i := len(w.journal) - 1; i >= 0; i-- {
		e := w.journal[i]
		e.o.cells[e.i] = e.v
	}
	clear(w.journal)
	w.journal = w.journal[:0]
	for i := len(w.mjourn) - 1; i >= 0; i-- {
		e := w.mjourn[i]
		e.m.restore(e.saved)
	}
	clear(w.mjourn)
	w.mjourn = w.mjourn[:0]
	w.forget()
	if ids, ok := w.nativeMem["ptrids"].(map[any]uint64); ok {
		for _, x := range w.pathIDs {
			delete(ids, x)
		}
	}
	clear(w.pathIDs)
	w.pathIDs = w.pathIDs[:0]
	atomic.AddInt64(&j.paths, 1)
	atomic.AddInt64(&j.steps, int64(p.steps))
	if len(w.ts.tab) > 3_000_000 {
		w.ts.reset()
		w.sol.cache = map[string]cacheEnt{}
	}
	j.mu.Lock()
	defer j.mu.Unlock()
	if int64(p.npc) > j.maxPC {
		j.maxPC = int64(p.npc)
	}
	for _, r := range p.reduced {
		j.aborts["reduced"]++
		j.abortMsg["reduced: "+r]++
	}
	switch status {
	case "ok":
		j.completed++
		for _, c := range p.covers {
			j.covers[c]++
		}
	case "assume", "infeasible":
		j.assumed++
	case "violation":
		// recorded already
	default:
		j.aborts[status]++
		if len(msg) > 300 {
			msg = msg[:300]
		}
		j.abortMsg[status+": "+msg]++
	}
	if status == "ok" || status == "violation" {
		if j.completed%j.sampleEvery == 0 && len(j.samples) < 4000 {
			s := PathSample{ND: w.ndValues(), Covers: p.covers, Status: status, MapO: p.mapOrd}
			for _, o := range p.obs {
				s.Obs = append(s.Obs, [2]string{o.label, w.modelString(o.v)})
			}
			j.samples = append(j.samples, s)
		}
	}
}

func (w *Worker) ndValues() []uint64 {
	out := make([]uint64, len(w.path.nd))
	for i, e := range w.path.nd {
		if e.term != nil {
			out[i] = w.ts.eval(e.term) + e.add
		} else {
			out[i] = e.n
		}
	}
	return out
}

func (w *Worker) runBody() (status, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case abortPath:
				status, msg = x.kind, x.msg
				if x.kind == "steps" || x.kind == "depth" {
					w.violation("termination", x.kind, x.msg)
				}
			case targetPanic:
				status, msg = "violation", w.panicString(x)
				w.violation("no panic", "panic", msg)
			default:
				status, msg = "engine", fmt.Sprintf("%v", r)
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "ENGINE: %v\n%s\n", r, debug.Stack())
					w.dumpStack(os.Stderr)
				}
			}
			if os.Getenv("VERIF_DEBUG") != "" && status != "assume" && status != "infeasible" && status != "violation" {
				fmt.Fprintf(os.Stderr, "ABORT %s: %s\n", status, msg)
				w.dumpStack(os.Stderr)
			}
		}
	}()
	w.callFn(w.job.harness, nil)
	return "ok", ""
}

func (w *Worker) dumpStack(f *os.File) {
	for i := w.depth - 1; i >= 0 && i > w.depth-25; i-- {
		if i < len(w.frames) && w.frames[i] != nil && w.frames[i].code != nil {
			fr := w.frames[i]
			b := -1
			if fr.cur != nil {
				b = fr.cur.idx
			}
			fmt.Fprintf(f, "   at %s block %d\n", fr.code.fn.name, b)
		}
	}
}

func (w *Worker) describePanic(r any) string {
	switch x := r.(type) {
	case abortPath:
		return "abort " + x.kind + ": " + x.msg
	case targetPanic:
		return "panic: " + w.panicString(x)
	}
	return fmt.Sprint(r)
}

func (w *Worker) panicString(x targetPanic) string {
	if x.v.p == nil {
		return "panic(nil)"
	}
	i := x.v.p.(*Iface)
	switch {
	case i.t.kind == KString:
		return fmt.Sprintf("%s(%q)", i.t, w.modelString(i.v))
	case i.t.isInt() && i.v.p == nil:
		return fmt.Sprintf("%s(%d)", i.t, int64(i.v.n))
	case i.t.kind == KPointer && i.t.String() == "*errors.errorString":
		if o, ok := i.v.p.(*Object); ok {
			return "error: " + w.modelString(o.cells[0])
		}
	}
	return i.t.String()
}

// violation records a candidate under the current model.
func (w *Worker) violation(label, kind, msg string) {
	j := w.job
	v := Violation{Label: label, Kind: kind, Msg: msg, ND: w.ndValues(), MapO: w.path.mapOrd}
	v.Obs = map[string]string{}
	for _, o := range w.path.obs {
		l := o.label
		for n := 2; ; n++ {
			if _, dup := v.Obs[l]; !dup {
				break
			}
			l = fmt.Sprintf("%s#%d", o.label, n)
		}
		v.Obs[l] = w.modelString(o.v)
	}
	j.mu.Lock()
	defer j.mu.Unlock()
	k := kind + "|" + label
	j.violSeen[k]++
	if j.isKnown == nil || !j.isKnown(&v) {
		j.nviol++
	}
	if j.violSeen[k] <= 24 && len(j.viol) < 200 {
		j.viol = append(j.viol, v)
	}
}

// ---- decisions

func (w *Worker) find(x int32) int32 {
	p := w.path
	for p.uf[x] != x {
		p.uf[x] = p.uf[p.uf[x]]
		x = p.uf[x]
	}
	return x
}

func (w *Worker) newVar(width uint8, def uint64) *Term {
	p := w.path
	n := p.nvars
	p.nvars++
	p.uf = append(p.uf, int32(n))
	p.lists = append(p.lists, nil)
	for len(w.ts.model) <= n {
		w.ts.model = append(w.ts.model, def)
	}
	return w.ts.variable(n, width)
}

func (w *Worker) addPC(c *Term) {
	if c.op == OpConst {
		if c.k == 0 {
			panic(abortPath{"infeasible", "false constraint"})
		}
		return
	}
	p := w.path
	if p.pcSet[c] {
		return
	}
	p.pcSet[c] = true
	if c.op == OpAnd {
		w.addPC(c.a)
		w.addPC(c.b)
		return
	}
	if c.op == OpNot && c.a.op == OpOr {
		w.addPC(w.ts.not(c.a.a))
		w.addPC(w.ts.not(c.a.b))
		return
	}
	p.npc++
	r := w.find(c.vars[0])
	for _, v := range c.vars[1:] {
		q := w.find(v)
		if q != r {
			if len(p.lists[q]) > len(p.lists[r]) {
				q, r = r, q
			}
			p.uf[q] = r
			p.lists[r] = append(p.lists[r], p.lists[q]...)
			p.lists[q] = nil
		}
	}
	p.lists[r] = append(p.lists[r], c)
}

// slice gathers the path constraints that share variables, transitively, with c.
func (w *Worker) slice(c *Term) []*Term {
	p := w.path
	out := []*Term{c}
	var roots []int32
	for _, v := range c.vars {
		r := w.find(v)
		dup := false
		for _, x := range roots {
			if x == r {
				dup = true
			}
		}
		if !dup {
			roots = append(roots, r)
			out = append(out, p.lists[r]...)
		}
	}
	return out
}

// query decides PC and c; on Sat returns a full model.
func (w *Worker) query(c *Term) (SatResult, []uint64) {
	if c.op == OpConst {
		if c.k == 1 {
			return Sat, w.ts.model
		}
		return Unsat, nil
	}
	if w.deadlineTick++; w.deadlineTick%64 == 0 && time.Now().After(w.job.deadline.Add(10*time.Second)) {
		panic(abortPath{"time", "out of time in the middle of a path"})
	}
	r, vars, vals := w.sol.check(w.slice(c))
	if r != Sat {
		return r, nil
	}
	m := append([]uint64(nil), w.ts.model...)
	for i, v := range vars {
		m[v] = vals[i]
	}
	return Sat, m
}

func (w *Worker) record(val uint64) {
	d := 1
	if w.path.node != nil {
		d = w.path.node.depth + 1
	}
	w.path.node = &decNode{w.path.node, val, d}
	atomic.AddInt64(&w.job.decisions, 1)
}

func (w *Worker) fork(val uint64, model []uint64) {
	d := 1
	if w.path.node != nil {
		d = w.path.node.depth + 1
	}
	w.job.push(Item{&decNode{w.path.node, val, d}, model})
}

func (w *Worker) needPath() {
	if w.epoch == 0 {
		panic(abortPath{"unsupported", "symbolic decision during initialisation"})
	}
}

// branch decides a condition, forking when both outcomes are feasible.
func (w *Worker) branch(v Value) bool {
	if v.p == nil {
		return v.n != 0
	}
	c := v.p.(*Term)
	if c.op == OpConst {
		return c.k == 1
	}
	p := w.path
	if p.pcSet[c] {
		return true
	}
	nc := w.ts.not(c)
	if p.pcSet[nc] {
		return false
	}
	w.needPath()
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos] == 1
		p.pos++
		w.record(b2u(d))
		if d {
			w.addPC(c)
		} else {
			w.addPC(nc)
		}
		return d
	}
	d := w.ts.eval(c) == 1
	other, mine := nc, c
	if !d {
		other, mine = c, nc
	}
	r, m := w.query(other)
	switch r {
	case Sat:
		w.fork(b2u(!d), m)
		atomic.AddInt64(&w.job.branchNodes, 1)
	case Unknown:
		p.reduced = append(p.reduced, "solver gave no answer for a branch")
	default:
		atomic.AddInt64(&w.job.forced, 1)
	}
	w.record(b2u(d))
	w.addPC(mine)
	return d
}

const maxConc = 300

// concrete picks every feasible value of v, one per path.
func (w *Worker) concrete(v Value, width uint8, why string) uint64 {
	if v.p == nil {
		return v.n
	}
	t, ok := v.p.(*Term)
	if !ok {
		panic(fmt.Sprintf("concrete of %T (%s)", v.p, why))
	}
	if t.op == OpConst {
		return t.k
	}
	if width == 0 {
		return b2u(w.branch(v))
	}
	w.needPath()
	p := w.path
	if p.pos < len(p.prefix) {
		val := p.prefix[p.pos]
		p.pos++
		w.record(val)
		w.addPC(w.ts.eq(t, w.ts.bv(val, t.w)))
		return val
	}
	first := w.ts.eval(t)
	excl := w.ts.not(w.ts.eq(t, w.ts.bv(first, t.w)))
	for n := 0; ; n++ {
		if n >= maxConc {
			p.reduced = append(p.reduced, "more than the enumerated values of a concretized term: "+why)
			break
		}
		r, m := w.query(excl)
		if r == Unknown {
			p.reduced = append(p.reduced, "solver gave no answer while concretizing")
			break
		}
		if r == Unsat {
			break
		}
		old := w.ts.model
		w.ts.setModel(m)
		val := w.ts.eval(t)
		w.ts.setModel(old)
		w.fork(val, m)
		atomic.AddInt64(&w.job.branchNodes, 1)
		excl = w.ts.and(excl, w.ts.not(w.ts.eq(t, w.ts.bv(val, t.w))))
	}
	w.record(first)
	w.addPC(w.ts.eq(t, w.ts.bv(first, t.w)))
	return first
}

func (w *Worker) assume(v Value) {
	if v.p == nil {
		if v.n == 0 {
			panic(abortPath{"assume", ""})
		}
		return
	}
	c := v.p.(*Term)
	if w.path.pcSet[c] {
		return
	}
	w.needPath()
	if w.ts.eval(c) != 1 {
		r, m := w.query(c)
		switch r {
		case Unsat:
			panic(abortPath{"assume", ""})
		case Unknown:
			w.path.reduced = append(w.path.reduced, "solver gave no answer for an assumption")
			panic(abortPath{"assume", ""})
		}
		w.ts.setModel(m)
	}
	w.addPC(c)
}

func (w *Worker) assert(v Value, label string) {
	j := w.job
	atomic.AddInt64(&j.asserts, 1)
	w.path.asserts++
	if v.p == nil {
		if v.n == 0 {
			w.violation(label, "assert", "")
			panic(abortPath{"violation", label})
		}
		return
	}
	c := v.p.(*Term)
	if w.path.pcSet[c] {
		return
	}
	if w.path.pos < len(w.path.prefix) {
		// An earlier path with the same prefix has checked this one already:
		// every path through here shares the prefix.
		// (The condition is still assumed afterwards.)
		w.assume(v)
		return
	}
	atomic.AddInt64(&j.assertQ, 1)
	nc := w.ts.not(c)
	r, m := w.query(nc)
	switch r {
	case Sat:
		old := w.ts.model
		w.ts.setModel(m)
		w.violation(label, "assert", "")
		w.ts.setModel(old)
		w.assume(v)
		return
	case Unknown:
		w.path.reduced = append(w.path.reduced, "solver gave no answer for an assertion: "+label)
	}
	if r == Unsat {
		w.addPC(c)
		return
	}
	w.assume(v)
}

func (ts *Terms) reset() {
	ts.tab = map[termKey]*Term{}
	ts.n = 0
	ts.tru = ts.mk(OpConst, 0, nil, nil, nil, 1)
	ts.fals = ts.mk(OpConst, 0, nil, nil, nil, 0)
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = strings.Join
