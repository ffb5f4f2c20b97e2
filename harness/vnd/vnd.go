// Package vnd supplies the nondeterministic inputs of the verification
// harnesses. Under the symbolic engine these functions are intercepted: the
// values are solver variables. Run natively, they return the values of one
// solver model, read by Load, so that a counterexample (or a sample path) is
// an ordinary execution of the real code.
package vnd

import (
	"fmt"
	"os"
	"path/filepath"
)

// State of a native run.
var (
	Values  []uint64
	pos     int
	Failed  []string
	Log     [][2]string
	Covers  []string
	Dir     string
	TierN   int
	Skipped bool
)

type stop struct{ why string }

func next() uint64 {
	if pos >= len(Values) {
		panic(stop{"input exhausted"})
	}
	v := Values[pos]
	pos++
	return v
}

// Byte is any byte.
func Byte() byte { return byte(next()) }

// Bool is any truth value.
func Bool() bool { return next() == 1 }

// Int is any integer in [lo,hi].
func Int(lo, hi int) int { return int(next()) }

// Uint64 is any 64-bit value.
func Uint64() uint64 { return next() }

// Choose is any integer in [0,n), decided here (the paths fork).
func Choose(n int) int { return int(next()) }

// Bytes is any slice of n bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

// String is any string of n bytes.
func String(n int) string { return string(Bytes(n)) }

// ByteOf is any byte of the alphabet.
func ByteOf(alphabet string) byte { return byte(next()) }

// StringOf is any string of n bytes of the alphabet.
func StringOf(alphabet string, n int) string { return string(Bytes(n)) }

// Concrete decides s (the paths fork over its possible values).
func Concrete(s string) string { return s }

// ConcreteInt decides n.
func ConcreteInt(n int) int { return n }

// ConcreteBool decides b.
func ConcreteBool(b bool) bool { return b }

// Assume discards the runs in which c is false.
func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		Failed = append(Failed, label)
		panic(stop{"assert"})
	}
}

// Cover marks a place that some path must reach.
func Cover(label string) { Covers = append(Covers, label) }

// Observe records a value that the symbolic and native runs must agree on.
func Observe(label, v string) { Log = append(Log, [2]string{label, v}) }

// Symbolic tells whether the engine is running the harness.
func Symbolic() bool { return false }

// Tier is 0 for quick and 1 for thorough bounds.
func Tier() int { return TierN }

// MapOrder makes the iteration order of small maps arbitrary.
func MapOrder(on bool) {}

// And and Or evaluate both sides (no forking).
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Debug prints under VERIF_DEBUG.
func Debug(s string) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "DEBUG %s\n", s)
	}
}

// File makes a file with the given content and returns its name.
func File(name string, data []byte) string {
	p := filepath.Join(Dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, data, 0o600); err != nil {
		panic(err)
	}
	return p
}

// Output makes sure that a file does not exist, and returns its name.
func Output(name string) string {
	p := filepath.Join(Dir, name)
	os.Remove(p)
	return p
}

// Run executes h on one set of values. It reports how the run ended:
// "ok", "assume", "assert", "exhausted" or "panic: ...".
func Run(h func(), values []uint64) (end string) {
	Values, pos = values, 0
	Failed, Log, Covers = nil, nil, nil
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				end = s.why
				return
			}
			end = fmt.Sprintf("panic: %v", r)
		}
	}()
	h()
	return "ok"
}

// MapOrderFew makes all maps be iterated in one of six orders: three
// rotations of the order of insertion and their reversals.
func MapOrderFew() {}

// MapOrderOne makes one loop over a map, any one, go in any order (any of six
// orders if it is large) and all others in order of insertion.
func MapOrderOne() {}
