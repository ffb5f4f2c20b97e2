package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strings"
	"unicode/utf8"
)

type intrFn func(w *Worker, a []Value) Value

func ignore(w *Worker, a []Value) Value { return Value{} }

// Packages whose initialisers are not run: their state is either irrelevant
// or modelled.
var skipInit = map[string]bool{
	"runtime": true, "syscall": true, "os": true, "internal/cpu": true, "internal/poll": true,
	"reflect": true, "internal/reflectlite": true, "sync": true, "sync/atomic": true,
	"internal/godebug": true, "internal/bisect": true, "os/signal": true, "os/exec": true,
	"internal/syscall/unix": true, "internal/testlog": true, "io/fs": false, "internal/oserror": false,
	"runtime/debug": true, "crypto/internal/boring": true, "net": true, "net/http": true,
	"internal/sysinfo": true, "internal/runtime/maps": true, "internal/sync": true, "weak": true, "unique": true,
	"crypto": false, "go/build": true, "os/user": true, "log/slog": true, "context": false,
	"golang.org/x/tools/imports": true, "internal/abi": true, "internal/runtime/atomic": true,
	"internal/buildcfg": true, "math/rand": true, "math/rand/v2": true, "internal/chacha8rand": true,
	"hash/crc32": true, "compress/flate": true, "runtime/pprof": true, "text/tabwriter": false,
}

func skipInitPkg(path string) bool {
	if v, ok := skipInit[path]; ok {
		return v
	}
	for _, p := range []string{"runtime/", "internal/runtime/", "crypto/", "golang.org/x/tools/", "internal/trace", "cmd/", "net/",
		"golang.org/x/text/encoding/japanese", "golang.org/x/text/encoding/korean",
		"golang.org/x/text/encoding/simplifiedchinese", "golang.org/x/text/encoding/traditionalchinese",
		"golang.org/x/mod", "golang.org/x/sync", "golang.org/x/text/language", "golang.org/x/text/internal"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

var intrinsics map[string]intrFn

func (e *Engine) intrinsic(f *Fn) func(w *Worker, a []Value) Value {
	name := f.name
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if f.ssa.Pkg != nil && f.ssa.Name() == "init" && f.ssa.Synthetic != "" {
		path := f.ssa.Pkg.Pkg.Path()
		if skipInitPkg(path) {
			return ignore
		}
	}
	if strings.HasPrefix(name, "init#") || (f.ssa.Pkg != nil && strings.HasPrefix(f.ssa.Name(), "init#")) {
		if skipInitPkg(f.ssa.Pkg.Pkg.Path()) {
			return ignore
		}
	}
	if strings.HasPrefix(name, zzPath+"/vnd.") {
		if i, ok := vndIntrinsics[f.ssa.Name()]; ok {
			return i
		}
	}
	if i := reflectIntrinsic(e, f); i != nil {
		return i
	}
	return nil
}

func boolTerm(w *Worker, v Value) *Term { return w.term(v, 0) }

func err2(v, e Value) Value { return Value{p: Tuple{v, e}} }

func init() {
	intrinsics = map[string]intrFn{}
	I := func(f intrFn, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	retNil := func(w *Worker, a []Value) Value { return Value{} }
	retTrue := func(w *Worker, a []Value) Value { return bval(true) }
	id0 := func(w *Worker, a []Value) Value { return a[0] }
	// ---- runtime and friends
	I(retNil, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "runtime/debug.SetGCPercent",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).register",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Read", "internal/race.Write", "internal/race.ReleaseMerge",
		"internal/asan.Read", "internal/asan.Write", "internal/msan.Read", "internal/msan.Write",
		"internal/testlog.Getenv", "internal/testlog.Open", "internal/testlog.Stat", "internal/testlog.PanicOnExit0",
		"runtime.Callers", "runtime.NumGoroutine", "runtime.Stack", "runtime.registerMetrics", "internal/godebug.registerMetric",
		"unique.runtime_registerUniqueMapCleanup", "internal/bytealg.MakeNoZero", "runtime.GOMAXPROCS")
	delete(intrinsics, "internal/bytealg.MakeNoZero")
	I(func(w *Worker, a []Value) Value {
		n := int(w.concrete(a[0], 64, "MakeNoZero"))
		cp := roundupsize(n)
		return Value{p: &Slice{w.newObj(cp, rtypeOf(types.Typ[types.Uint8])), 0, n, cp}}
	}, "internal/bytealg.MakeNoZero", "internal/stringslite.MakeNoZero")
	I(func(w *Worker, a []Value) Value {
		o := w.newObj(64, nil)
		return Value{p: o}
	}, "internal/godebug.New")
	I(func(w *Worker, a []Value) Value { return Value{p: Tuple{{}, {}, {}, {}}} }, "runtime.Caller")
	I(func(w *Worker, a []Value) Value { return Value{n: 8} }, "runtime.NumCPU")
	I(id0, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "reflect.noescape")
	I(func(w *Worker, a []Value) Value { panic(abortPath{"exit", "os.Exit"}) }, "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf")
	// strings.Builder
	I(retNil, "(*strings.Builder).copyCheck")
	// ---- sync
	I(retNil, "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock",
		"(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock")
	I(retTrue, "(*sync.Mutex).TryLock", "(*internal/sync.Mutex).TryLock")
	I(func(w *Worker, a []Value) Value {
		o := a[0].p.(*Object)
		i := int(a[0].n)
		// first cell of Once: mark done
		if o.cells[i].n != 0 || o.cells[i].p != nil {
			return Value{}
		}
		w.callValue(a[1], nil)
		w.setCell(o, i, Value{n: 1})
		return Value{}
	}, "(*sync.Once).Do")
	I(func(w *Worker, a []Value) Value {
		// Pool.Get: always a fresh object
		o := a[0].p.(*Object)
		pt := w.poolNewOffset()
		nf := o.cells[int(a[0].n)+pt]
		if nf.p == nil {
			return Value{}
		}
		return w.callValue(nf, nil)
	}, "(*sync.Pool).Get")
	I(retNil, "(*sync.Pool).Put")
	syncMap := func(w *Worker, p Value) *Map {
		o := p.p.(*Object)
		i := int(p.n)
		if m, ok := o.cells[i].p.(*Map); ok {
			return m
		}
		anyT := rtypeOf(types.NewInterfaceType(nil, nil))
		m := &Map{kt: anyT, vt: anyT, epoch: w.epoch}
		w.setCell(o, i, Value{p: m})
		return m
	}
	I(func(w *Worker, a []Value) Value {
		v, ok := w.mapGet(syncMap(w, a[0]), a[1])
		return Value{p: Tuple{v, bval(ok)}}
	}, "(*sync.Map).Load")
	I(func(w *Worker, a []Value) Value {
		w.mapSet(syncMap(w, a[0]), a[1], a[2])
		return Value{}
	}, "(*sync.Map).Store")
	I(func(w *Worker, a []Value) Value {
		m := syncMap(w, a[0])
		v, ok := w.mapGet(m, a[1])
		if ok {
			return Value{p: Tuple{v, bval(true)}}
		}
		w.mapSet(m, a[1], a[2])
		return Value{p: Tuple{a[2], bval(false)}}
	}, "(*sync.Map).LoadOrStore")
	I(func(w *Worker, a []Value) Value {
		w.mapDelete(syncMap(w, a[0]), a[1])
		return Value{}
	}, "(*sync.Map).Delete")
	// atomics
	atomicOps := func(suffix string, wd uint8) {
		I(func(w *Worker, a []Value) Value { return a[0].p.(*Object).cells[a[0].n] }, "sync/atomic.Load"+suffix, "internal/runtime/atomic.Load"+suffix)
		I(func(w *Worker, a []Value) Value { w.setCell(a[0].p.(*Object), int(a[0].n), a[1]); return Value{} }, "sync/atomic.Store"+suffix)
		I(func(w *Worker, a []Value) Value {
			o := a[0].p.(*Object)
			old := o.cells[a[0].n]
			w.setCell(o, int(a[0].n), a[1])
			return old
		}, "sync/atomic.Swap"+suffix)
		I(func(w *Worker, a []Value) Value {
			o := a[0].p.(*Object)
			v := Value{n: (o.cells[a[0].n].n + a[1].n) & mask(wd)}
			w.setCell(o, int(a[0].n), v)
			return v
		}, "sync/atomic.Add"+suffix)
		I(func(w *Worker, a []Value) Value {
			o := a[0].p.(*Object)
			old := o.cells[a[0].n]
			if old.n == a[1].n && old.p == a[1].p {
				w.setCell(o, int(a[0].n), a[2])
				return bval(true)
			}
			return bval(false)
		}, "sync/atomic.CompareAndSwap"+suffix)
		I(func(w *Worker, a []Value) Value {
			o := a[0].p.(*Object)
			old := o.cells[a[0].n]
			w.setCell(o, int(a[0].n), Value{n: old.n | a[1].n})
			return old
		}, "sync/atomic.Or"+suffix)
		I(func(w *Worker, a []Value) Value {
			o := a[0].p.(*Object)
			old := o.cells[a[0].n]
			w.setCell(o, int(a[0].n), Value{n: old.n & a[1].n})
			return old
		}, "sync/atomic.And"+suffix)
	}
	atomicOps("Int32", 32)
	atomicOps("Uint32", 32)
	atomicOps("Int64", 64)
	atomicOps("Uint64", 64)
	atomicOps("Uintptr", 64)
	atomicOps("Pointer", 64)
	I(func(w *Worker, a []Value) Value { return a[0].p.(*Object).cells[a[0].n] }, "(*sync/atomic.Value).Load")
	I(func(w *Worker, a []Value) Value { w.setCell(a[0].p.(*Object), int(a[0].n), a[1]); return Value{} }, "(*sync/atomic.Value).Store")
	// atomic.Pointer[T]: struct{ _ [0]*T; _ noCopy; v unsafe.Pointer }
	I(func(w *Worker, a []Value) Value { return a[0].p.(*Object).cells[a[0].n] }, "(*sync/atomic.Pointer).Load")
	I(func(w *Worker, a []Value) Value { w.setCell(a[0].p.(*Object), int(a[0].n), a[1]); return Value{} }, "(*sync/atomic.Pointer).Store")
	I(func(w *Worker, a []Value) Value {
		o := a[0].p.(*Object)
		old := o.cells[a[0].n]
		if old.p == a[1].p && old.n == a[1].n {
			w.setCell(o, int(a[0].n), a[2])
			return bval(true)
		}
		return bval(false)
	}, "(*sync/atomic.Pointer).CompareAndSwap")
	// ---- math
	I(func(w *Worker, a []Value) Value { return a[0] }, "math.Float64bits", "math.Float64frombits", "internal/strconv.float64bits", "internal/strconv.float64frombits")
	I(func(w *Worker, a []Value) Value { return Value{n: uint64(math.Float32bits(float32(fl(a[0]))))} }, "math.Float32bits", "internal/strconv.float32bits")
	I(func(w *Worker, a []Value) Value {
		n := w.concrete(a[0], 32, "Float32frombits")
		return fv(float64(math.Float32frombits(uint32(n))))
	}, "math.Float32frombits", "internal/strconv.float32frombits")
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt,
		"Abs": math.Abs, "Log": math.Log, "Exp": math.Exp, "Log2": math.Log2, "Log10": math.Log10} {
		f := f
		I(func(w *Worker, a []Value) Value { return fv(f(fl(a[0]))) }, "math."+n)
	}
	// ---- bytealg
	idxByte := func(w *Worker, cells []Value, c Value) Value {
		for i := range cells {
			if cells[i].p == nil && c.p == nil {
				if cells[i].n == c.n {
					return Value{n: uint64(i)}
				}
				continue
			}
			if w.branch(tv(w.ts.eq(w.term(cells[i], 8), w.term(c, 8)))) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	}
	I(func(w *Worker, a []Value) Value { return idxByte(w, sliceCells(a[0], 1), a[1]) }, "internal/bytealg.IndexByte")
	I(func(w *Worker, a []Value) Value {
		if s, ok := a[0].p.(string); ok && a[1].p == nil {
			return Value{n: uint64(strings.IndexByte(s, byte(a[1].n)))}
		}
		return idxByte(w, strBytes(a[0]), a[1])
	}, "internal/bytealg.IndexByteString")
	lastIdx := func(w *Worker, cells []Value, c Value) Value {
		for i := len(cells) - 1; i >= 0; i-- {
			if w.branch(tv(w.ts.eq(w.term(cells[i], 8), w.term(c, 8)))) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	}
	I(func(w *Worker, a []Value) Value { return lastIdx(w, sliceCells(a[0], 1), a[1]) }, "internal/bytealg.LastIndexByte")
	I(func(w *Worker, a []Value) Value { return lastIdx(w, strBytes(a[0]), a[1]) }, "internal/bytealg.LastIndexByteString")
	count := func(w *Worker, cells []Value, c Value) Value {
		n := w.ts.bv(0, 64)
		for i := range cells {
			e := w.ts.eq(w.term(cells[i], 8), w.term(c, 8))
			n = w.ts.bin(OpAdd, n, w.ts.ite(e, w.ts.bv(1, 64), w.ts.bv(0, 64)))
		}
		return tv(n)
	}
	I(func(w *Worker, a []Value) Value { return count(w, sliceCells(a[0], 1), a[1]) }, "internal/bytealg.Count")
	I(func(w *Worker, a []Value) Value { return count(w, strBytes(a[0]), a[1]) }, "internal/bytealg.CountString")
	bs := func(a Value) Value { return symstr(sliceCells(a, 1), false) }
	I(func(w *Worker, a []Value) Value { return w.strEq(bs(a[0]), bs(a[1])) }, "internal/bytealg.Equal", "bytes.Equal")
	cmp3 := func(w *Worker, x, y Value) Value {
		lt, gt := w.strLess(x, y), w.strLess(y, x)
		ts := w.ts
		return tv(ts.ite(w.term(lt, 0), ts.bv(^uint64(0), 64), ts.ite(w.term(gt, 0), ts.bv(1, 64), ts.bv(0, 64))))
	}
	I(func(w *Worker, a []Value) Value { return cmp3(w, bs(a[0]), bs(a[1])) }, "internal/bytealg.Compare", "bytes.Compare")
	I(func(w *Worker, a []Value) Value { return cmp3(w, a[0], a[1]) }, "internal/bytealg.CompareString", "strings.Compare", "runtime.cmpstring")
	index := func(w *Worker, s, sub Value) Value {
		x, ok1 := s.p.(string)
		y, ok2 := sub.p.(string)
		if ok1 && ok2 {
			return Value{n: uint64(strings.Index(x, y))}
		}
		n, m := strLen(s), strLen(sub)
		for i := 0; i+m <= n; i++ {
			if w.branch(w.strEq(strSlice(s, i, i+m), sub)) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	}
	I(func(w *Worker, a []Value) Value { return index(w, bs(a[0]), bs(a[1])) }, "internal/bytealg.Index", "bytes.Index")
	I(func(w *Worker, a []Value) Value { return index(w, a[0], a[1]) }, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	// ---- utf8
	I(func(w *Worker, a []Value) Value {
		r, n := w.decodeRuneCells(sliceCells(a[0], 1))
		return Value{p: Tuple{r, {n: uint64(n)}}}
	}, "unicode/utf8.DecodeRune")
	I(func(w *Worker, a []Value) Value {
		if strLen(a[0]) == 0 {
			return Value{p: Tuple{{n: utf8.RuneError}, {}}}
		}
		r, n := w.decodeRune(a[0], 0)
		return Value{p: Tuple{r, {n: uint64(n)}}}
	}, "unicode/utf8.DecodeRuneInString")
	// ---- unicode
	I(unicodeIs, "unicode.Is")
	// ---- time
	I(retNil, "time.initLocal")
	I(func(w *Worker, a []Value) Value { return Value{p: Tuple{{n: 1700000000}, {n: 0}, {n: 1}}} }, "time.now", "time.runtimeNow")
	I(func(w *Worker, a []Value) Value { return Value{n: 1} }, "time.runtimeNano", "time.runtimeNow1", "runtime.nanotime")
	// ---- os, io
	I(func(w *Worker, a []Value) Value { return Value{} }, "os.Getenv")
	I(func(w *Worker, a []Value) Value { return Value{p: Tuple{{}, {}}} }, "os.LookupEnv", "syscall.Getenv")
	readFile := func(w *Worker, a []Value) Value {
		name := vndPath(w.goString(a[0]))
		if v, ok := w.filesPath[name]; ok {
			if v == gone {
				return err2(Value{}, w.mkError("open "+name+": no such file or directory"))
			}
			b := append([]Value(nil), strBytes(v)...)
			return err2(w.mkByteSlice(b, rtypeOf(types.Typ[types.Uint8])), Value{})
		}
		if v, ok := w.files[name]; ok {
			b := append([]Value(nil), strBytes(v)...)
			return err2(w.mkByteSlice(b, rtypeOf(types.Typ[types.Uint8])), Value{})
		}
		return err2(Value{}, w.mkError("open "+name+": no such file or directory"))
	}
	I(readFile, "os.ReadFile", "io/ioutil.ReadFile")
	I(func(w *Worker, a []Value) Value {
		name := vndPath(w.goString(a[0]))
		var b []Value
		if a[1].p != nil {
			b = append(b, sliceCells(a[1], 1)...)
		}
		if w.filesPath == nil {
			w.filesPath = map[string]Value{}
		}
		w.filesPath[name] = symstr(b, false)
		return Value{}
	}, "os.WriteFile", "io/ioutil.WriteFile")
	// Formatting and import management of goimports: the source is kept as
	// it is. (Natively the real one runs.)
	I(func(w *Worker, a []Value) Value { return err2(a[1], Value{}) }, "golang.org/x/tools/imports.Process")
	I(func(w *Worker, a []Value) Value { return err2(Value{n: uint64(strLen(a[1]))}, Value{}) }, "(*os.File).WriteString")
	I(func(w *Worker, a []Value) Value {
		n := 0
		if a[1].p != nil {
			n = a[1].p.(*Slice).len
		}
		return err2(Value{n: uint64(n)}, Value{})
	}, "(*os.File).Write")
	I(func(w *Worker, a []Value) Value { return w.mkError("file operations are not modelled") }, "os.Remove", "os.MkdirAll")
	I(func(w *Worker, a []Value) Value {
		return Value{p: Tuple{{}, w.mkError("file operations are not modelled")}}
	}, "os.Open", "os.Create", "os.OpenFile", "os.Stat", "os.Lstat")
	// sort.Slice family via reflectlite
	I(swapper, "internal/reflectlite.Swapper", "reflect.Swapper")
}

// gone stands for a file that does not exist.
var gone = Value{p: new(Object)}

// vndPath makes a name absolute; harnesses run in the scratch directory.
func vndPath(name string) string {
	if !strings.HasPrefix(name, "/") {
		return "/vnd/" + name
	}
	return name
}

func unicodeIs(w *Worker, a []Value) Value {
	// RangeTable{R16 []Range16, R32 []Range32, LatinOffset int}
	o := a[0].p.(*Object)
	off := int(a[0].n)
	var term *Term
	r := a[1]
	conc := r.p == nil
	var ub uint64 = math.MaxUint32
	if !conc {
		term = r.p.(*Term)
		ub = term.ub
	}
	ts := w.ts
	res := ts.fals
	for k := 0; k < 2; k++ {
		sv := o.cells[off+k]
		if sv.p == nil {
			continue
		}
		s := sv.p.(*Slice)
		for i := 0; i < s.len; i++ {
			c := s.obj.cells[s.off+3*i : s.off+3*i+3]
			lo, hi, st := c[0].n, c[1].n, c[2].n
			if conc {
				if r.n >= lo && r.n <= hi && r.n <= 0x7fffffff {
					if st <= 1 || (r.n-lo)%st == 0 {
						return bval(true)
					}
				}
				continue
			}
			if lo > ub {
				break
			}
			in := ts.and(ts.cmp(OpUle, ts.bv(lo, 32), term), ts.cmp(OpUle, term, ts.bv(hi, 32)))
			if st > 1 {
				d := ts.bin(OpSub, term, ts.bv(lo, 32))
				in = ts.and(in, ts.eq(ts.bin(OpURem, d, ts.bv(st, 32)), ts.bv(0, 32)))
			}
			res = ts.or(res, in)
		}
	}
	return tv(res)
}

func swapper(w *Worker, a []Value) Value {
	i := a[0].p.(*Iface)
	if i.v.p == nil {
		return Value{p: &Closure{native: func(w *Worker, a []Value) Value { return Value{} }}}
	}
	s := i.v.p.(*Slice)
	st := i.t.elemT().cells
	return Value{p: &Closure{native: func(w *Worker, a []Value) Value {
		x, y := int(w.concrete(a[0], 64, "swap")), int(w.concrete(a[1], 64, "swap"))
		if x < 0 || y < 0 || x >= s.len || y >= s.len {
			w.rtPanic("reflect: slice index out of range")
		}
		for k := 0; k < st; k++ {
			p, q := s.off+x*st+k, s.off+y*st+k
			u, v := s.obj.cells[p], s.obj.cells[q]
			w.setCell(s.obj, p, v)
			w.setCell(s.obj, q, u)
		}
		return Value{}
	}}}
}

func (w *Worker) poolNewOffset() int {
	t := rtypeOf(w.eng.byPath["sync"].Pkg.Scope().Lookup("Pool").Type())
	for _, f := range t.fields {
		if f.name == "New" {
			return f.off
		}
	}
	panic("sync.Pool.New")
}

func (w *Worker) presetGlobals() {
	if o := w.global("os", "Args"); o != nil {
		arr := &Object{cells: []Value{{p: "verif"}}}
		o.cells[0] = Value{p: &Slice{arr, 0, 1, 1}}
	}
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		if o := w.global("os", n); o != nil {
			o.cells[0] = Value{p: &Object{cells: make([]Value, 1)}}
		}
	}
	// os and io/fs error values used by identity
	for n, msg := range map[string]string{"ErrNotExist": "file does not exist", "ErrExist": "file already exists",
		"ErrPermission": "permission denied", "ErrClosed": "file already closed", "ErrInvalid": "invalid argument"} {
		if o := w.global("os", n); o != nil {
			o.cells[0] = w.mkError(msg)
		}
	}
	if o := w.global("golang.org/x/text/internal/language", "nop"); o != nil {
		_ = o
	}
}

// ---- vnd

var vndIntrinsics = map[string]intrFn{
	"Byte": func(w *Worker, a []Value) Value { return w.vndByte() },
	"Bool": func(w *Worker, a []Value) Value {
		v := w.newVar(8, 0)
		w.addPC(w.ts.cmp(OpUlt, v, w.ts.bv(2, 8)))
		w.path.nd = append(w.path.nd, ndEntry{term: v})
		return tv(w.ts.eq(v, w.ts.bv(1, 8)))
	},
	"Int": func(w *Worker, a []Value) Value {
		lo, hi := int64(a[0].n), int64(a[1].n)
		return w.vndInt(lo, hi)
	},
	"Uint64": func(w *Worker, a []Value) Value {
		v := w.newVar(64, 0)
		w.path.nd = append(w.path.nd, ndEntry{term: v})
		return tv(v)
	},
	"Choose": func(w *Worker, a []Value) Value {
		n := int64(a[0].n)
		v := w.vndInt(0, n-1)
		return Value{n: w.concrete(v, 64, "Choose")}
	},
	"Bytes": func(w *Worker, a []Value) Value {
		n := int(a[0].n)
		b := make([]Value, n)
		for i := range b {
			b[i] = w.vndByte()
		}
		return w.mkByteSlice(b, rtypeOf(types.Typ[types.Uint8]))
	},
	"String": func(w *Worker, a []Value) Value {
		n := int(a[0].n)
		b := make([]Value, n)
		for i := range b {
			b[i] = w.vndByte()
		}
		return symstr(b, true)
	},
	"ByteOf": func(w *Worker, a []Value) Value { return w.vndByteOf(w.goString(a[0])) },
	"StringOf": func(w *Worker, a []Value) Value {
		alpha := w.goString(a[0])
		n := int(a[1].n)
		b := make([]Value, n)
		for i := range b {
			b[i] = w.vndByteOf(alpha)
		}
		return symstr(b, true)
	},
	"Concrete":     func(w *Worker, a []Value) Value { return mkstr(w.goString(a[0])) },
	"ConcreteInt":  func(w *Worker, a []Value) Value { return Value{n: w.concrete(a[0], 64, "ConcreteInt")} },
	"ConcreteBool": func(w *Worker, a []Value) Value { return bval(w.branch(a[0])) },
	"Assume":       func(w *Worker, a []Value) Value { w.assume(a[0]); return Value{} },
	"Assert": func(w *Worker, a []Value) Value {
		w.assert(a[0], w.modelString(a[1]))
		return Value{}
	},
	"Cover": func(w *Worker, a []Value) Value {
		w.path.covers = append(w.path.covers, w.modelString(a[0]))
		return Value{}
	},
	"Observe": func(w *Worker, a []Value) Value {
		w.path.obs = append(w.path.obs, obsEntry{w.modelString(a[0]), a[1]})
		return Value{}
	},
	"Symbolic":    func(w *Worker, a []Value) Value { return bval(true) },
	"Tier":        func(w *Worker, a []Value) Value { return Value{n: uint64(w.eng.tier)} },
	"MapOrder":    func(w *Worker, a []Value) Value { w.path.mapOrd = a[0].n != 0; return Value{} },
	"MapOrderFew": func(w *Worker, a []Value) Value { w.path.mapOrd, w.path.mapMode = true, 1; return Value{} },
	"MapOrderOne": func(w *Worker, a []Value) Value { w.path.mapOrd, w.path.mapMode = true, 2; return Value{} },
	"File": func(w *Worker, a []Value) Value {
		name := "/vnd/" + w.goString(a[0])
		s := symstr(sliceCells(a[1], 1), false)
		if w.epoch == 0 {
			w.files[name] = s
		} else {
			if w.filesPath == nil {
				w.filesPath = map[string]Value{}
			}
			w.filesPath[name] = s
		}
		return mkstr(name)
	},
	"Output": func(w *Worker, a []Value) Value {
		name := "/vnd/" + w.goString(a[0])
		if w.filesPath == nil {
			w.filesPath = map[string]Value{}
		}
		w.filesPath[name] = gone
		return mkstr(name)
	},
	"And": func(w *Worker, a []Value) Value { return tv(w.ts.and(w.term(a[0], 0), w.term(a[1], 0))) },
	"Or":  func(w *Worker, a []Value) Value { return tv(w.ts.or(w.term(a[0], 0), w.term(a[1], 0))) },
	"Debug": func(w *Worker, a []Value) Value {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "DEBUG %s\n", w.modelString(a[0]))
		}
		return Value{}
	},
}

func (w *Worker) vndByte() Value {
	v := w.newVar(8, 'a')
	w.path.nd = append(w.path.nd, ndEntry{term: v})
	return tv(v)
}

func (w *Worker) vndByteOf(alpha string) Value {
	if alpha == "" {
		panic("ByteOf: empty alphabet")
	}
	if len(alpha) == 1 {
		w.path.nd = append(w.path.nd, ndEntry{n: uint64(alpha[0])})
		return Value{n: uint64(alpha[0])}
	}
	v := w.newVar(8, uint64(alpha[0]))
	var set [256]bool
	for i := 0; i < len(alpha); i++ {
		set[alpha[i]] = true
	}
	c := w.ts.fals
	for i := 0; i < 256; {
		if !set[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && set[j+1] {
			j++
		}
		if i == j {
			c = w.ts.or(c, w.ts.eq(v, w.ts.bv(uint64(i), 8)))
		} else {
			c = w.ts.or(c, w.ts.and(w.ts.cmp(OpUle, w.ts.bv(uint64(i), 8), v), w.ts.cmp(OpUle, v, w.ts.bv(uint64(j), 8))))
		}
		i = j + 1
	}
	w.path.nd = append(w.path.nd, ndEntry{term: v})
	w.addPC(c)
	return tv(v)
}

func (w *Worker) vndInt(lo, hi int64) Value {
	if hi <= lo {
		w.path.nd = append(w.path.nd, ndEntry{n: uint64(lo)})
		return Value{n: uint64(lo)}
	}
	span := uint64(hi - lo)
	var wd uint8 = 64
	switch {
	case span < 1<<8:
		wd = 8
	case span < 1<<16:
		wd = 16
	case span < 1<<32:
		wd = 32
	}
	v := w.newVar(wd, 0)
	w.path.nd = append(w.path.nd, ndEntry{term: v, add: uint64(lo)})
	if span < mask(wd) {
		w.addPC(w.ts.cmp(OpUle, v, w.ts.bv(span, wd)))
	}
	return tv(w.ts.bin(OpAdd, w.ts.zext(v, 64), w.ts.bv(uint64(lo), 64)))
}
