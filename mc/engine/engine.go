// Package engine explores choice trees exhaustively by re-execution.
//
// A scenario is a deterministic function of the choices it asks for. The
// explorer enumerates every sequence of choices, depth first, within a budget
// of deviations: Pick choices are free, a non-zero answer to Choose costs 1.
package engine

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"strings"
)

// Choice is one decision of an execution.
type Choice struct {
	N    int    // alternatives
	C    int    // taken
	Free bool   // Pick: every alternative is free
	L    string // label
}

// Finding is a failed execution.
type Finding struct {
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Log      []string `json:"log,omitempty"`
}

type failure struct{ key, msg string }
type skip struct{}

// X is one execution.
type X struct {
	Thorough bool
	Verbose  bool

	forced []int
	trace  []Choice
	log    []string

	transitions int64
	checks      int64
	states      map[uint64]struct{}
	diverged    bool
	enabled     bool
}

// Choose asks for one of n alternatives; a non-zero answer costs one deviation.
func (x *X) Choose(n int, label string) int { return x.choice(n, label, false) }

// Pick asks for one of n alternatives; all of them are explored.
func (x *X) Pick(n int, label string) int { return x.choice(n, label, true) }

// PickBool is a Pick of two.
func (x *X) PickBool(label string) bool { return x.choice(2, label, true) == 1 }

func (x *X) choice(n int, label string, free bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("engine: no alternative for %s", label))
	}
	c := 0
	i := len(x.trace)
	if i < len(x.forced) {
		c = x.forced[i]
		if c >= n {
			// The execution took another path than the one being replayed.
			x.diverged = true
			c = n - 1
		}
	}
	x.trace = append(x.trace, Choice{N: n, C: c, Free: free, L: label})
	return c
}

// Op counts one step of the history (an API call) and logs it when asked.
func (x *X) Op(format string, args ...interface{}) {
	x.transitions++
	if x.Verbose {
		x.log = append(x.log, fmt.Sprintf(format, args...))
	}
}

// Logf only logs.
func (x *X) Logf(format string, args ...interface{}) {
	if x.Verbose {
		x.log = append(x.log, fmt.Sprintf(format, args...))
	}
}

// State records a distinct state of the model.
func (x *X) State(parts ...string) {
	if len(x.states) >= 3000000 {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	x.states[h.Sum64()] = struct{}{}
}

// Checked counts one comparison of the implementation with the model.
func (x *X) Checked() { x.checks++ }

// Fail reports a violation and ends the execution. key identifies what fails,
// independently of the details; it is what the known-findings file lists.
func (x *X) Fail(key, format string, args ...interface{}) {
	panic(failure{key, fmt.Sprintf(format, args...)})
}

// Skip abandons an execution that is outside of the explored space.
func (x *X) Skip() { panic(skip{}) }

// Try runs f and reports whether it panicked.
func (x *X) Try(f func()) (panicked bool, value interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, skip:
				panic(r)
			}
			panicked, value = true, r
		}
	}()
	f()
	return false, nil
}

// Outcome of one execution.
type Outcome struct {
	Trace   []Choice
	Log     []string
	Finding *Finding
	Skipped bool
}

// Run executes the scenario once with the given forced choices.
func Run(x *X, name string, fn func(*X), forced []int) (out Outcome) {
	x.forced, x.trace, x.log, x.diverged = forced, x.trace[:0], nil, false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch v := r.(type) {
			case failure:
				out.Finding = &Finding{Scenario: name, Key: v.key, Message: v.msg}
			case skip:
				out.Skipped = true
			default:
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				out.Finding = &Finding{Scenario: name, Key: "panic", Message: fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(string(buf)))}
			}
		}()
		fn(x)
	}()
	out.Trace, out.Log = x.trace, x.log
	if out.Finding != nil {
		for _, c := range x.trace {
			out.Finding.Choices = append(out.Finding.Choices, c.C)
		}
		out.Finding.Log = x.log
	}
	return out
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for i, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "loukoum") {
			keep = append(keep, l)
		}
		if i > 60 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// New prepares an execution context.
func New() *X { return &X{states: map[uint64]struct{}{}} }

// Counters returns what has been counted so far.
func (x *X) Counters() (transitions, checks int64, states map[uint64]struct{}) {
	return x.transitions, x.checks, x.states
}

// next computes the forced choices following those of trace in the search, or
// nil when the subtree under the first fixed choices is exhausted.
func next(trace []Choice, fixed, budget int) []int {
	costs := make([]int, len(trace)+1)
	for i, c := range trace {
		costs[i+1] = costs[i]
		if !c.Free && c.C > 0 {
			costs[i+1]++
		}
	}
	for i := len(trace) - 1; i >= fixed; i-- {
		c := trace[i]
		if c.C+1 >= c.N {
			continue
		}
		if !c.Free && costs[i]+1 > budget {
			continue
		}
		forced := make([]int, i+1)
		for j := 0; j < i; j++ {
			forced[j] = trace[j].C
		}
		forced[i] = c.C + 1
		return forced
	}
	return nil
}

// Frontier splits the choice tree in at least want subtrees (when it has them).
// visit is called for every execution made on the way.
func Frontier(x *X, name string, fn func(*X), budget, want int, visit func(Outcome) bool) [][]int {
	queue := [][]int{{}}
	var leaves [][]int
	for len(queue) > 0 && len(queue)+len(leaves) < want {
		p := queue[0]
		queue = queue[1:]
		out := Run(x, name, fn, p)
		if !visit(out) {
			return nil
		}
		if len(out.Trace) <= len(p) {
			leaves = append(leaves, p)
			continue
		}
		cost := 0
		for _, c := range out.Trace[:len(p)] {
			if !c.Free && c.C > 0 {
				cost++
			}
		}
		c := out.Trace[len(p)]
		for i := 0; i < c.N; i++ {
			if i > 0 && !c.Free && cost+1 > budget {
				break
			}
			q := append(append([]int{}, p...), i)
			queue = append(queue, q)
		}
	}
	return append(leaves, queue...)
}

// Explore runs every execution of the subtree under prefix.
func Explore(x *X, name string, fn func(*X), prefix []int, budget int, visit func(Outcome) bool) bool {
	forced := prefix
	for forced != nil {
		out := Run(x, name, fn, forced)
		if !visit(out) {
			return false
		}
		forced = next(out.Trace, len(prefix), budget)
	}
	return true
}
