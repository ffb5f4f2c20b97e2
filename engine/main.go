package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetMaxStack(4 << 30)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	if len(os.Args) > 1 && os.Args[1] == "dev" {
		dev(os.Args[2:])
		return
	}
	runChecks(os.Args[1:])
}

// dev runs one harness and prints what happened.
func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	pkg := fs.String("pkg", "x", "harness package")
	name := fs.String("h", "", "harness")
	secs := fs.Int("t", 30, "seconds")
	workers := fs.Int("w", 8, "workers")
	tier := fs.Int("tier", 0, "tier")
	nomerge := fs.Bool("nomerge", false, "no if-conversion")
	solver := fs.String("solver", "z3", "solver")
	show := fs.Int("show", 3, "samples to show")
	repo := fs.String("repo", "/repo", "repository")
	prof := fs.String("memprofile", "", "write a profile of memory in use")
	fs.Parse(args)
	t0 := time.Now()
	gdir, _ := os.MkdirTemp("", "zzverif-gen-")
	defer os.RemoveAll(gdir)
	if why, err := generate(*repo, "/verif/harness", []string{*pkg}, gdir); why != "" || err != nil {
		fmt.Println(why, err)
		os.Exit(2)
	}
	e, err := loadEngine(*repo, "/verif/harness", []string{zzPath + "/" + *pkg}, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("load %v\n", time.Since(t0))
	e.tier, e.solver, e.noMerge = *tier, *solver, *nomerge
	e.allGlobals()
	p := e.byPath[zzPath+"/"+*pkg]
	for _, n := range strings.Split(*name, ",") {
		h := p.Func("H_" + n)
		if h == nil {
			fmt.Println("no harness H_" + n)
			os.Exit(2)
		}
		var s *Fn
		if f := p.Func("S_" + n); f != nil {
			s = e.fn(f)
		} else if f := p.Func("Setup"); f != nil {
			s = e.fn(f)
		}
		t1 := time.Now()
		j := e.newJob(n, e.fn(h), s, time.Duration(*secs)*time.Second)
		if *prof != "" {
			time.AfterFunc(time.Duration(*secs)*time.Second*9/10, func() {
				f, _ := os.Create(*prof)
				runtime.GC()
				pprof.WriteHeapProfile(f)
				f.Close()
			})
		}
		j.run(*workers)
		fmt.Printf("%s: %v setupErr=%q paths=%d completed=%d assumed=%d aborts=%v pending=%d decisions=%d branch=%d forced=%d asserts=%d assertQ=%d steps=%d\n",
			n, time.Since(t1), j.setupErr, j.paths, j.completed, j.assumed, j.aborts, j.pending, j.decisions, j.branchNodes, j.forced, j.asserts, j.assertQ, j.steps)
		fmt.Printf("   solver: queries=%d hits=%d sat=%d unsat=%d unknown=%d time=%v maxpc=%d\n", j.queries, j.hits, j.sat, j.unsat, j.unknown, j.solverTime, j.maxPC)
		for _, k := range sortedKeys(j.abortMsg) {
			fmt.Printf("   abort %d x %s\n", j.abortMsg[k], k)
		}
		fmt.Printf("   covers %v\n", j.covers)
		for i, v := range j.viol {
			if i >= *show {
				break
			}
			fmt.Printf("   VIOL %s %s %s nd=%v obs=%q\n", v.Kind, v.Label, v.Msg, v.ND, v.Obs)
		}
		for i, s := range j.samples {
			if i >= *show {
				break
			}
			fmt.Printf("   sample %v %q %v\n", s.ND, s.Obs, s.Status)
		}
	}
}
