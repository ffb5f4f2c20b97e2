package main

// One z3 process per worker, driven over a pipe.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatResult uint8

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

type Solver struct {
	bin      string
	timeout  int // ms
	cmd      *exec.Cmd
	in       *bufio.Writer
	inC      io.Closer
	out      *bufio.Reader
	declared map[string]bool
	cache    map[string]cacheEnt

	queries, hits, sat, unsat, unknown int
	tim                                time.Duration
	sinceRestart                       int
	log                                io.Writer
}

type cacheEnt struct {
	r     SatResult
	vars  []int32
	model []uint64
}

func newSolver(bin string, timeoutMs int) *Solver {
	return &Solver{bin: bin, timeout: timeoutMs, cache: map[string]cacheEnt{}}
}

func (s *Solver) start() {
	args := []string{"-in"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inC = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.declared = map[string]bool{}
	s.sinceRestart = 0
	if !strings.Contains(s.bin, "cvc5") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
}

func (s *Solver) stop() {
	if s.cmd == nil {
		return
	}
	s.in.Flush()
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

// check decides the conjunction of cs. On Sat it returns values for vars.
func (s *Solver) check(cs []*Term) (SatResult, []int32, []uint64) {
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, id := range ids {
		kb.WriteString(strconv.Itoa(id))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.hits++
		return e.r, e.vars, e.model
	}
	r, vars, model := s.run(cs)
	s.cache[key] = cacheEnt{r, vars, model}
	return r, vars, model
}

func (s *Solver) run(cs []*Term) (SatResult, []int32, []uint64) {
	t0 := time.Now()
	defer func() { s.tim += time.Since(t0) }()
	s.queries++
	if s.cmd != nil && s.sinceRestart > 20000 {
		s.stop()
	}
	if s.cmd == nil {
		s.start()
	}
	s.sinceRestart++
	seen := map[string]bool{}
	var names []string
	var vars []int32
	var walk func(t *Term)
	done := map[*Term]bool{}
	walk = func(t *Term) {
		if t == nil || done[t] || len(t.vars) == 0 {
			return
		}
		done[t] = true
		if t.op == OpVar {
			n := varName(t.k, t.w)
			if !seen[n] {
				seen[n] = true
				names = append(names, n)
				vars = append(vars, int32(t.k))
				if !s.declared[n] {
					s.declared[n] = true
					if t.w == 0 {
						fmt.Fprintf(s.in, "(declare-const %s Bool)\n", n)
					} else {
						fmt.Fprintf(s.in, "(declare-const %s (_ BitVec %d))\n", n, t.w)
					}
				}
			}
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, c := range cs {
		walk(c)
	}
	s.in.WriteString("(push 1)\n")
	for _, c := range cs {
		s.in.WriteString("(assert ")
		s.in.WriteString(c.smt())
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	for err == nil && strings.TrimSpace(line) == "" {
		line, err = s.out.ReadString('\n')
	}
	if err != nil {
		s.stop()
		s.unknown++
		return Unknown, nil, nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		s.unsat++
		s.in.WriteString("(pop 1)\n")
		return Unsat, nil, nil
	case "sat":
	default:
		// errors, unknown, timeout: inconclusive; restart to resynchronise
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "SOLVER: %s\n", line)
			for _, c := range cs {
				fmt.Fprintf(os.Stderr, "   %s\n", c.smt())
			}
		}
		s.unknown++
		s.stop()
		return Unknown, nil, nil
	}
	if len(names) == 0 {
		s.sat++
		s.in.WriteString("(pop 1)\n")
		return Sat, nil, nil
	}
	s.in.WriteString("(get-value (" + strings.Join(names, " ") + "))\n(pop 1)\n")
	s.in.Flush()
	txt, err := readSexp(s.out)
	if err != nil {
		s.unknown++
		s.stop()
		return Unknown, nil, nil
	}
	vals := map[string]uint64{}
	parseValues(txt, vals)
	model := make([]uint64, len(vars))
	for i, n := range names {
		v, ok := vals[n]
		if !ok {
			s.unknown++
			s.stop()
			return Unknown, nil, nil
		}
		model[i] = v
	}
	s.sat++
	return Sat, vars, model
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, out map[string]uint64) {
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(toks); i++ {
		n := toks[i]
		if !strings.HasPrefix(n, "v") {
			continue
		}
		v := toks[i+1]
		switch {
		case v == "true":
			out[n] = 1
		case v == "false":
			out[n] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			out[n] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			out[n] = x
		case v == "_" && i+2 < len(toks) && strings.HasPrefix(toks[i+2], "bv"):
			x, _ := strconv.ParseUint(toks[i+2][2:], 10, 64)
			out[n] = x
		}
	}
}
