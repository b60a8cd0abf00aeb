// Package core holds the property registry and the supervisor that runs a
// property over generated cases in worker processes.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"molecheck/pbt"
)

// Outcome of evaluating one case.
type Outcome struct {
	Fail    string // non-empty: the property is violated by this input
	Discard bool   // the case says nothing about the property
	Trivial bool   // evaluated, but does not count as non-trivial
	Key     string // identity for counting distinct cases (default: the input)
	Labels  []string
	Tool    error // the oracle could not answer
	Soft    bool  // a failure that shrinking must not move to
}

// Known lists the specific inputs (by KnownHash) that are recorded findings.
func Known(file string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(Root, file))
	if err == nil {
		for _, l := range strings.Fields(string(b)) {
			m[l] = true
		}
	}
	return m
}

func Failf(f string, a ...any) Outcome { return Outcome{Fail: fmt.Sprintf(f, a...)} }
func Skip(l ...string) Outcome         { return Outcome{Discard: true, Labels: l} }

type Prop struct {
	ID       string
	Rule     string // what counts as non-trivial
	Quick    int
	Thorough int
	Assume   []string
	gen      func(t *pbt.T) any
	decode   func([]byte) (any, error)
	eval     func(any) Outcome
	// FixedSeed: the sequence of cases does not depend on VERIF_SEED
	FixedSeed bool
	// MaxRSS in MB (0: default)
	MaxRSS int
	// Serial: only one worker process.
	Workers int
	// Extra runs once per run after the cases (in worker 0) and may report.
}

var Props = map[string]*Prop{}

func IDs() []string {
	var r []string
	for k := range Props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Def registers a property with a typed input.
func Def[I any](p Prop, gen func(t *pbt.T) *I, eval func(*I) Outcome) *Prop {
	q := p
	q.gen = func(t *pbt.T) any { return gen(t) }
	q.decode = func(b []byte) (any, error) {
		v := new(I)
		err := json.Unmarshal(b, v)
		return v, err
	}
	q.eval = func(a any) Outcome { return eval(a.(*I)) }
	Props[p.ID] = &q
	return &q
}

// Generate builds the input of one case; nil when the generator gave up.
func (p *Prop) Generate(t *pbt.T) (in any, ok bool) { return pbt.Gen(t, p.gen) }

// Evaluate runs the oracle, turning a panic of the code under test into a failure.
func (p *Prop) Evaluate(in any) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(ToolPanic); ok {
				o = Outcome{Tool: e.Err}
				return
			}
			o = Outcome{Fail: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
		}
	}()
	return p.eval(in)
}

// ToolPanic aborts a case because the oracle is unavailable.
type ToolPanic struct{ Err error }

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func ncpu() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}
