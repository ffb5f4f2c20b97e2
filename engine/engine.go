package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const zzPath = "aqwari.net/xml/internal/zzverif"

type Engine struct {
	repo     string
	prog     *ssa.Program
	pkgs     []*ssa.Package
	fns      sync.Map // *ssa.Function -> *Fn
	gmu      sync.Mutex
	gidx     map[*ssa.Global]int
	globals  []*ssa.Global
	goInline map[string]bool
	noMerge  bool
	tier     int
	seed     int
	solver   string
	rtErrT   *RType
	errStrT  *RType
	byPath   map[string]*ssa.Package
	fmu      sync.Mutex
	compiled []*Fn
	loadMs   int64
}

// harnessOverlay maps the virtual harness packages into the repository.
func harnessOverlay(repo, dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		out[filepath.Join(repo, "internal", "zzverif", rel)] = p
		return nil
	})
	for v, p := range generated {
		out[v] = p
	}
	return out, err
}

func loadEngine(repo, harnessDir string, pats []string, extra map[string][]byte) (*Engine, error) {
	ov, err := harnessOverlay(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for v, real := range ov {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	for k, v := range extra {
		overlay[k] = v
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0"),
		Overlay: overlay,
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{repo: repo, prog: prog, pkgs: pkgs, gidx: map[*ssa.Global]int{}, goInline: map[string]bool{}, byPath: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		e.byPath[p.Pkg.Path()] = p
	}
	if rt := e.byPath["runtime"]; rt != nil {
		e.rtErrT = rtypeOf(rt.Pkg.Scope().Lookup("errorString").Type())
	} else {
		return nil, fmt.Errorf("package runtime not loaded")
	}
	if p := e.byPath["errors"]; p != nil {
		e.errStrT = rtypeOf(types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type()))
	}
	return e, nil
}

func (e *Engine) fn(f *ssa.Function) *Fn {
	if x, ok := e.fns.Load(f); ok {
		return x.(*Fn)
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	n := &Fn{ssa: f, name: name}
	n.intr = e.intrinsic(n)
	x, loaded := e.fns.LoadOrStore(f, n)
	if !loaded {
		e.fmu.Lock()
		e.compiled = append(e.compiled, n)
		e.fmu.Unlock()
	}
	return x.(*Fn)
}

// encoded lists the functions executed symbolically, by import path prefix.
func (e *Engine) encoded(prefix string) []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range e.compiled {
		if f.codep.Load() == nil || f.ssa.Pkg == nil && f.ssa.Origin() == nil && f.ssa.Object() == nil {
			continue
		}
		n := f.ssa.String()
		if strings.Contains(n, "zzverif") || !strings.Contains(n, prefix) || seen[n] {
			continue
		}
		seen[n] = true
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (e *Engine) globalIndex(g *ssa.Global) int {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if i, ok := e.gidx[g]; ok {
		return i
	}
	i := len(e.globals)
	e.gidx[g] = i
	e.globals = append(e.globals, g)
	if i >= maxGlobals {
		panic("too many globals")
	}
	return i
}

const maxGlobals = 40000

// allGlobals indexes every global up front, so that workers can allocate them.
func (e *Engine) allGlobals() {
	for _, p := range e.prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				e.globalIndex(g)
			}
		}
	}
}

func (e *Engine) newWorker(id int, j *Job) *Worker {
	w := &Worker{eng: e, job: j, id: id, ts: newTerms(), sol: newSolver(e.solver, 10000)}
	w.stack = make([]Value, 1<<16)
	w.globals = make([]*Object, len(e.globals))
	for i, g := range e.globals {
		t := rtypeOf(g.Type().Underlying().(*types.Pointer).Elem())
		w.globals[i] = &Object{cells: make([]Value, t.cells), elem: t}
	}
	w.inited = map[string]bool{}
	w.files = map[string]Value{}
	w.nativeMem = map[string]any{}
	w.presetGlobals()
	return w
}

func (w *Worker) global(pkg, name string) *Object {
	p := w.eng.byPath[pkg]
	if p == nil {
		return nil
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return w.globals[w.eng.gidx[g]]
}

func (e *Engine) runtimeError(msg string) Value {
	return Value{p: &Iface{e.rtErrT, mkstr(msg)}}
}

func (e *Engine) plainError(msg string) Value {
	return Value{p: &Iface{e.rtErrT, mkstr(msg)}}
}

// mkError makes an error value (*errors.errorString).
func (w *Worker) mkError(msg string) Value {
	o := w.newObj(1, nil)
	o.cells[0] = mkstr(msg)
	return Value{p: &Iface{w.eng.errStrT, Value{p: o}}}
}
