package main

// The registered checks: run the harnesses of one property, replay what the
// solver found against the real code, and write the evidence.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type HarnessCfg struct {
	Pkg      string `json:"pkg"`
	H        string `json:"h"`
	QuickS   int    `json:"quick_s"`    // exploration budget, seconds
	ThoroS   int    `json:"thorough_s"` // same, thorough
	Only     string `json:"only"`       // run in this tier only
	MaxSteps int    `json:"max_steps"`
	Bounds   string `json:"bounds"`
	Asserts  string `json:"asserts"`
}

type CheckCfg struct {
	Property    string       `json:"property"`
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
	Outside     []string     `json:"outside"`
}

type replayItem struct {
	Harness string   `json:"harness"` // pkg.H
	ND      []uint64 `json:"nd"`
	Tier    int      `json:"tier"`
}

type replayResult struct {
	End    string      `json:"end"`
	Failed []string    `json:"failed"`
	Log    [][2]string `json:"log"` // hex-quoted
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Label    string            `json:"label"`
	Message  string            `json:"message"`
	Tier     int               `json:"tier"`
	ND       []uint64          `json:"nd"`
	Values   map[string]string `json:"observed"`
	Native   string            `json:"native_outcome"`
	How      string            `json:"how_to_replay"`
}

type native struct {
	dir  string
	bin  string
	verr error
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

// buildNative compiles the harness packages, as ordinary Go, with the real code.
func buildNative(repo, harnessDir string, hs []HarnessCfg, e *Engine) *native {
	n := &native{}
	dir, err := os.MkdirTemp("", "zzverif-native-")
	if err != nil {
		n.verr = err
		return n
	}
	n.dir = dir
	ov, err := harnessOverlay(repo, harnessDir)
	if err != nil {
		n.verr = err
		return n
	}
	var src bytes.Buffer
	src.WriteString("package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/hex\"\n\t\"encoding/json\"\n\t\"os\"\n\t\"aqwari.net/xml/internal/zzverif/vnd\"\n")
	pk := map[string]bool{}
	for _, h := range hs {
		if !pk[h.Pkg] {
			pk[h.Pkg] = true
			fmt.Fprintf(&src, "\t%s %q\n", "h_"+h.Pkg, zzPath+"/"+h.Pkg)
		}
	}
	src.WriteString(")\n\ntype entry struct{ h, s func() }\n\nvar reg = map[string]entry{\n")
	done := map[string]bool{}
	for _, h := range hs {
		if done[h.Pkg+"."+h.H] {
			continue
		}
		done[h.Pkg+"."+h.H] = true
		p := e.byPath[zzPath+"/"+h.Pkg]
		s := "nil"
		if p.Func("S_"+h.H) != nil {
			s = "h_" + h.Pkg + ".S_" + h.H
		} else if p.Func("Setup") != nil {
			s = "h_" + h.Pkg + ".Setup"
		}
		fmt.Fprintf(&src, "\t%q: {h_%s.H_%s, %s},\n", h.Pkg+"."+h.H, h.Pkg, h.H, s)
	}
	src.WriteString(`}

type item struct {
	Harness string   ` + "`json:\"harness\"`" + `
	ND      []uint64 ` + "`json:\"nd\"`" + `
	Tier    int      ` + "`json:\"tier\"`" + `
}
type result struct {
	End    string      ` + "`json:\"end\"`" + `
	Failed []string    ` + "`json:\"failed\"`" + `
	Log    [][2]string ` + "`json:\"log\"`" + `
}

func main() {
	vnd.Dir = os.Args[1]
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := os.NewFile(3, "out")
	enc := json.NewEncoder(out)
	setup := map[string]bool{}
	for {
		var it item
		if err := dec.Decode(&it); err != nil {
			return
		}
		e := reg[it.Harness]
		vnd.TierN = it.Tier
		if !setup[it.Harness] {
			setup[it.Harness] = true
			if e.s != nil {
				e.s()
			}
		}
		var r result
		r.End = vnd.Run(e.h, it.ND)
		r.Failed = vnd.Failed
		for _, l := range vnd.Log {
			r.Log = append(r.Log, [2]string{l[0], hex.EncodeToString([]byte(l[1]))})
		}
		enc.Encode(r)
	}
}
`)
	mainGo := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mainGo, src.Bytes(), 0o644); err != nil {
		n.verr = err
		return n
	}
	ov[filepath.Join(repo, "internal", "zzverif", "zzmain", "main.go")] = mainGo
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, oj, 0o644)
	n.bin = filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, zzPath+"/zzmain")
	cmd.Dir = repo
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		n.verr = fmt.Errorf("native build: %v\n%s", err, b)
	}
	return n
}

func (n *native) close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// run executes items in one native process. The result is shorter than items
// when the process died or timed out.
func (n *native) run(items []replayItem, timeout time.Duration) ([]replayResult, string) {
	scratch, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(scratch)
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, it := range items {
		enc.Encode(it)
	}
	cmd := exec.Command(n.bin, scratch)
	cmd.Dir = scratch
	cmd.Stdin = &in
	var errb bytes.Buffer
	cmd.Stderr = &limited{w: &errb, n: 1 << 16}
	cmd.Stdout = io.Discard
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=6GiB", "GOTRACEBACK=single")
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err.Error()
	}
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		pw.Close()
		pr.Close()
		return nil, err.Error()
	}
	pw.Close()
	var out []replayResult
	done := make(chan struct{})
	go func() {
		dec := json.NewDecoder(pr)
		for {
			var r replayResult
			if err := dec.Decode(&r); err != nil {
				break
			}
			for i := range r.Log {
				r.Log[i][1] = unhex(r.Log[i][1])
			}
			out = append(out, r)
		}
		close(done)
	}()
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	t0 := time.Now()
	werr := cmd.Wait()
	timer.Stop()
	<-done
	pr.Close()
	if len(out) < len(items) {
		if time.Since(t0) >= timeout {
			return out, "timeout"
		}
		msg := errb.String()
		if i := strings.IndexByte(msg, '\n'); i > 0 {
			msg = msg[:i]
		}
		return out, fmt.Sprintf("died: %v %s", werr, msg)
	}
	return out, ""
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}

func unhex(s string) string {
	b := make([]byte, len(s)/2)
	for i := range b {
		v, _ := strconv.ParseUint(s[2*i:2*i+2], 16, 8)
		b[i] = byte(v)
	}
	return string(b)
}

func loadChecks(dir string) map[string]CheckCfg {
	b, err := os.ReadFile(filepath.Join(dir, "checks.json"))
	if err != nil {
		fatal(err)
	}
	var l []CheckCfg
	if err := json.Unmarshal(b, &l); err != nil {
		fatal(err)
	}
	m := map[string]CheckCfg{}
	for _, c := range l {
		m[c.Property] = c
	}
	return m
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

type knownFinding struct {
	property, harness, label, match, text string
}

// known_findings.txt: tab-separated lines
// finding <TAB> property <TAB> harness <TAB> label <TAB> key=value of an observed value <TAB> what fails
func loadKnown(dir string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 6 && f[0] == "finding" {
			out = append(out, knownFinding{f[1], f[2], f[3], f[4], f[5]})
		}
	}
	return out
}

func (k knownFinding) covers(prop, harness string, v *Violation) bool {
	if k.property != prop || k.harness != harness || k.label != v.Label {
		return false
	}
	if k.match == "" || k.match == "-" {
		return false
	}
	kv := strings.SplitN(k.match, "=", 2)
	return len(kv) == 2 && v.Obs[kv[0]] == kv[1]
}

func runChecks(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("root", "/verif", "verification directory")
	repo := fs.String("repo", "/repo", "repository")
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	replay := fs.String("replay", "", "replay file")
	verbose := fs.Bool("v", false, "print per-harness figures")
	scale := fs.Float64("scale", 1, "scale the time budgets")
	fs.Parse(args)
	if *replay != "" {
		doReplay(*root, *repo, *replay)
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cfg, ok := loadChecks(*root)[*prop]
	if !ok {
		fatal("no check for", *prop)
	}
	os.Exit(runCheck(*root, *repo, cfg, *tier, seed, *verbose, *scale))
}

func doReplay(root, repo, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal(err)
	}
	ph := strings.SplitN(rf.Harness, ".", 2)
	gdir, err := os.MkdirTemp("", "zzverif-gen-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(gdir)
	if why, err := generate(repo, filepath.Join(root, "harness"), []string{ph[0]}, gdir); err != nil {
		fatal(err)
	} else if why != "" {
		fmt.Println("outcome:", why)
		return
	}
	e, err := loadEngine(repo, filepath.Join(root, "harness"), []string{zzPath + "/" + ph[0]}, nil)
	if err != nil {
		fatal(err)
	}
	n := buildNative(repo, filepath.Join(root, "harness"), []HarnessCfg{{Pkg: ph[0], H: ph[1]}}, e)
	defer n.close()
	if n.verr != nil {
		fatal(n.verr)
	}
	res, why := n.run([]replayItem{{rf.Harness, rf.ND, rf.Tier}}, 60*time.Second)
	if len(res) == 0 {
		fmt.Println("outcome:", why)
		return
	}
	fmt.Println("outcome:", res[0].End, res[0].Failed)
	for _, l := range res[0].Log {
		fmt.Printf("  %s = %q\n", l[0], l[1])
	}
}

type harnessEvidence struct {
	Harness    string         `json:"harness"`
	Bounds     string         `json:"bounds"`
	Asserts    string         `json:"asserted"`
	Paths      int64          `json:"paths"`
	Completed  int64          `json:"paths_completed"`
	Assumed    int64          `json:"paths_ended_by_assumption"`
	Branch     int64          `json:"symbolic_branch_points_forked"`
	Forced     int64          `json:"branches_decided_unsat"`
	Decisions  int64          `json:"decisions"`
	Asserts_   int64          `json:"assertions_evaluated"`
	AssertQ    int64          `json:"assertions_decided_by_solver_query"`
	Queries    int            `json:"solver_queries"`
	Sat        int            `json:"sat"`
	Unsat      int            `json:"unsat"`
	Unknown    int            `json:"unknown"`
	CacheHits  int            `json:"query_cache_hits"`
	SolverS    float64        `json:"solver_s"`
	MaxPC      int64          `json:"longest_path_condition"`
	Exhausted  bool           `json:"all_paths_within_bounds_explored"`
	Pending    int            `json:"paths_left_unexplored"`
	Reduced    map[string]int `json:"reduced_coverage,omitempty"`
	Covers     map[string]int `json:"reached"`
	Validated  int            `json:"sample_paths_replayed_identically"`
	Mismatch   int            `json:"sample_paths_replayed_differently"`
	WallS      float64        `json:"wall_s"`
	Unrepro    int            `json:"counterexamples_not_reproduced"`
	samples    []any
	mismatches []string
}

func runCheck(root, repo string, cfg CheckCfg, tier string, seed int, verbose bool, scale float64) int {
	t0 := time.Now()
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	tierN := 0
	if tier == "thorough" {
		tierN = 1
	}
	var hs []HarnessCfg
	var pats []string
	seen := map[string]bool{}
	for _, h := range cfg.Harnesses {
		if h.Only != "" && h.Only != tier {
			continue
		}
		hs = append(hs, h)
		if !seen[h.Pkg] {
			seen[h.Pkg] = true
			pats = append(pats, zzPath+"/"+h.Pkg)
		}
	}
	hdir := filepath.Join(root, "harness")
	extra := map[string][]byte{}
	gdir, err := os.MkdirTemp("", "zzverif-gen-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(gdir)
	var hpkgs []string
	for p := range seen {
		hpkgs = append(hpkgs, p)
	}
	sort.Strings(hpkgs)
	why, err := generate(repo, hdir, hpkgs, gdir)
	if err != nil {
		os.RemoveAll(gdir)
		fatal(err)
	}
	if why != "" {
		return generateFailed(root, repo, cfg, tier, seed, why, time.Since(t0).Seconds())
	}
	e, err := loadEngine(repo, hdir, pats, extra)
	if err != nil {
		fatal("the code under test or a harness does not load:", err)
	}
	loadS := time.Since(t0).Seconds()
	e.tier, e.seed, e.solver = tierN, seed, "z3"
	e.allGlobals()
	natCh := make(chan *native, 1)
	go func() { natCh <- buildNative(repo, hdir, hs, e) }()
	var nat *native
	getNat := func() *native {
		if nat == nil {
			nat = <-natCh
			if nat.verr != nil {
				nat.close()
				fatal(nat.verr)
			}
		}
		return nat
	}
	known := loadKnown(root)
	knownSeen := map[string]bool{}
	var evs []*harnessEvidence
	var bad []replayFile
	workers := runtime.NumCPU()
	if workers > 16 {
		workers = 16
	}
	var notes []string
	for _, h := range hs {
		full := h.Pkg + "." + h.H
		p := e.byPath[zzPath+"/"+h.Pkg]
		hf := p.Func("H_" + h.H)
		if hf == nil {
			fatal("no harness", full)
		}
		var sf *Fn
		if f := p.Func("S_" + h.H); f != nil {
			sf = e.fn(f)
		} else if f := p.Func("Setup"); f != nil {
			sf = e.fn(f)
		}
		secs := h.QuickS
		if tierN == 1 {
			secs = h.ThoroS
		}
		if secs == 0 {
			secs = 20 + 280*tierN
		}
		t1 := time.Now()
		j := e.newJob(full, e.fn(hf), sf, time.Duration(float64(secs)*scale*float64(time.Second)))
		if h.MaxSteps > 0 {
			j.maxSteps = h.MaxSteps
		}
		j.isKnown = func(v *Violation) bool {
			for _, k := range known {
				if k.covers(cfg.Property, full, v) {
					return true
				}
			}
			return false
		}
		j.run(workers)
		if j.setupErr != "" {
			// The real code fails in its initialisation or set-up: see whether it does natively.
			n := getNat()
			res, why := n.run([]replayItem{{full, nil, tierN}}, 30*time.Second)
			if len(res) == 0 && why != "" {
				bad = append(bad, replayFile{Property: cfg.Property, Harness: full, Kind: "panic", Label: "set-up", Message: j.setupErr, Native: why, Tier: tierN})
			} else {
				fatal("set-up of", full, "failed in the engine only:", j.setupErr)
			}
			continue
		}
		he := &harnessEvidence{Harness: full, Bounds: h.Bounds, Asserts: h.Asserts, Paths: j.paths, Completed: j.completed, Assumed: j.assumed,
			Branch: j.branchNodes, Forced: j.forced, Decisions: j.decisions, Asserts_: j.asserts, AssertQ: j.assertQ,
			Queries: j.queries, Sat: j.sat, Unsat: j.unsat, Unknown: j.unknown, CacheHits: j.hits, SolverS: j.solverTime.Seconds(),
			MaxPC: j.maxPC, Pending: j.pending, Reduced: j.abortMsg, Covers: j.covers}
		he.Exhausted = j.pending == 0 && len(j.aborts) == 0 && !j.timedOut
		evs = append(evs, he)
		n := getNat()
		// candidate violations
		repro := map[string]int{}
		for i := range j.viol {
			v := &j.viol[i]
			kk := v.Kind + "|" + v.Label
			if repro[kk] >= 2 {
				continue
			}
			ok, how := reproduce(n, full, v, tierN)
			if !ok {
				he.Unrepro++
				if len(notes) < 40 {
					notes = append(notes, fmt.Sprintf("%s: counterexample to %q (%s %s) did not reproduce natively: %s nd=%v", full, v.Label, v.Kind, v.Msg, how, v.ND))
				}
				continue
			}
			isKnown := false
			for _, k := range known {
				if k.covers(cfg.Property, full, v) {
					isKnown = true
					if !knownSeen[k.text] {
						knownSeen[k.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.Property, k.text)
					}
				}
			}
			if isKnown {
				continue
			}
			repro[kk]++
			bad = append(bad, replayFile{Property: cfg.Property, Harness: full, Kind: v.Kind, Label: v.Label, Message: v.Msg, ND: v.ND, Values: v.Obs, Native: how, Tier: tierN})
		}
		// translator validation
		he.validate(n, j, full, tierN)
		he.WallS = time.Since(t1).Seconds()
		for _, m := range he.mismatches {
			notes = append(notes, full+": "+m)
		}
		if verbose {
			fmt.Printf("%-28s %6.1fs paths=%d completed=%d assumed=%d pending=%d exhausted=%v queries=%d unknown=%d solver=%.1fs viol=%d unrepro=%d validated=%d mismatch=%d\n", full, he.WallS,
				j.paths, j.completed, j.assumed, j.pending, he.Exhausted, j.queries, j.unknown, he.SolverS, len(j.viol), he.Unrepro, he.Validated, he.Mismatch)
			for _, k := range sortedKeys(j.abortMsg) {
				fmt.Printf("      reduced %d x %s\n", j.abortMsg[k], k)
			}
			fmt.Printf("      reached %v\n", j.covers)
		}
	}
	if nat != nil {
		nat.close()
	}
	code := 0
	sort.SliceStable(bad, func(i, j int) bool { return len(bad[i].ND) < len(bad[j].ND) })
	for i := range bad {
		name := filepath.Join(root, "evidence", fmt.Sprintf("%s.replay%d.json", cfg.Property, i))
		bad[i].How = fmt.Sprintf("/verif/check --replay %s (runs harness H_%s natively on the values in nd)", name, bad[i].Harness)
		b, _ := json.MarshalIndent(bad[i], "", " ")
		os.WriteFile(name, b, 0o644)
		if i < 10 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.Property, name)
			fmt.Printf("  %s in %s: %s %s\n", bad[i].Kind, bad[i].Harness, bad[i].Label, bad[i].Message)
			for _, k := range sortedStr(bad[i].Values) {
				fmt.Printf("    %s = %q\n", k, bad[i].Values[k])
			}
		}
		code = 1
	}
	for _, m := range notes {
		fmt.Println("NOTE:", m)
	}
	writeEvidence(root, cfg, tier, seed, e, evs, len(bad), loadS, time.Since(t0).Seconds(), notes)
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s %.1fs\n", cfg.Property, tier, time.Since(t0).Seconds())
	}
	return code
}

func sortedStr(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func reproduce(n *native, full string, v *Violation, tier int) (bool, string) {
	it := replayItem{full, v.ND, tier}
	tries := 1
	if v.MapO {
		tries = 300
	}
	items := make([]replayItem, tries)
	for i := range items {
		items[i] = it
	}
	to := 20 * time.Second
	res, why := n.run(items, to)
	for _, r := range res {
		switch v.Kind {
		case "assert":
			if r.End == "assert" && len(r.Failed) > 0 {
				return true, "assertion failed: " + r.Failed[0]
			}
			if strings.HasPrefix(r.End, "panic") {
				return true, r.End
			}
		default:
			if strings.HasPrefix(r.End, "panic") {
				return true, r.End
			}
			if r.End == "assert" {
				return true, "assertion failed: " + strings.Join(r.Failed, ",")
			}
		}
	}
	if len(res) < len(items) && why != "" {
		return true, why // hang, stack overflow, fatal error
	}
	if len(res) > 0 {
		return false, res[0].End
	}
	return false, why
}

const maxValidate = 150

func (he *harnessEvidence) validate(n *native, j *Job, full string, tier int) {
	var items []replayItem
	var want []PathSample
	step := 1
	if len(j.samples) > maxValidate {
		step = len(j.samples) / maxValidate
	}
	for i := 0; i < len(j.samples); i += step {
		s := j.samples[i]
		if s.Status != "ok" {
			continue
		}
		items = append(items, replayItem{full, s.ND, tier})
		want = append(want, s)
	}
	if len(items) == 0 {
		return
	}
	res, why := n.run(items, 120*time.Second)
	if len(res) < len(items) {
		he.mismatches = append(he.mismatches, fmt.Sprintf("replay of a sample path ended: %s nd=%v", why, items[len(res)].ND))
		he.Mismatch++
	}
	for i, r := range res {
		same := r.End == "ok"
		if same && !want[i].MapO {
			same = len(r.Log) == len(want[i].Obs)
			for k := 0; same && k < len(r.Log); k++ {
				same = r.Log[k] == want[i].Obs[k]
			}
		}
		if same {
			he.Validated++
		} else {
			he.Mismatch++
			if len(he.mismatches) < 3 {
				he.mismatches = append(he.mismatches, fmt.Sprintf("sample path replays differently: nd=%v symbolic %q native %q %s %v", items[i].ND, want[i].Obs, r.Log, r.End, r.Failed))
			}
		}
		if len(he.samples) < 4 && i%(1+len(res)/4) == 0 {
			m := map[string]string{}
			for _, o := range want[i].Obs {
				m[o[0]] = o[1]
			}
			he.samples = append(he.samples, map[string]any{"harness": full, "solver_values": items[i].ND, "observed": m, "native_outcome": r.End})
		}
	}
}

func writeEvidence(root string, cfg CheckCfg, tier string, seed int, e *Engine, evs []*harnessEvidence, nviol int, loadS, wall float64, notes []string) {
	var states, trans, paths, queries, sat, unsat, unk, val, mis, asserts int64
	var solverS float64
	exhaustive := len(evs) > 0
	samples := []any{}
	for _, h := range evs {
		states += h.Branch + h.Completed
		trans += h.Decisions
		paths += h.Paths
		queries += int64(h.Queries)
		sat += int64(h.Sat)
		unsat += int64(h.Unsat)
		unk += int64(h.Unknown)
		val += int64(h.Validated)
		mis += int64(h.Mismatch)
		asserts += h.Asserts_
		solverS += h.SolverS
		exhaustive = exhaustive && h.Exhausted
		samples = append(samples, h.samples...)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	own := e.encoded("aqwari.net/xml")
	all := e.encoded("")
	ev := map[string]any{
		"property": cfg.Property, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": nviol,
		"assumptions": cfg.Assumptions,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
			"meaning":                   "states: feasible symbolic branch points at which the execution forked plus completed symbolic paths; transitions: decisions taken (each checked feasible by the solver); traces: sample paths whose solver model was run through the natively compiled code with identical observations",
			"exhaustive":                exhaustive,
			"paths":                     paths,
			"assertions_evaluated":      asserts,
			"solver":                    "z3 4.8.12 (QF_BV, incremental), 10 s per query; unknown counts as reduced coverage",
			"solver_queries":            queries,
			"solver_sat":                sat,
			"solver_unsat":              unsat,
			"solver_unknown":            unk,
			"solver_s":                  solverS,
			"load_s":                    loadS,
			"traces_that_differed":      mis,
			"functions_encoded":         own,
			"library_functions_encoded": len(all) - len(own),
			"harnesses":                 evs,
			"outside_the_claim":         cfg.Outside,
			"notes":                     notes,
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(filepath.Join(root, "evidence", cfg.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}
