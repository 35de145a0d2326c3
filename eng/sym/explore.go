package sym

import (
	"fmt"
	"os"
	"runtime/debug"
)

// Policy says what a run does at a symbolic comparison.
type Policy int

const (
	// Decide asks the solver: a side that is impossible under the path condition is
	// not taken; if both are possible the run forks.
	Decide Policy = iota
	// AssumeEqual follows the "equal" side and records the equation.
	AssumeEqual
	// Generic follows the "equal" side for identities only: other equalities hold for
	// exceptional values of the symbols (Schwartz-Zippel).
	Generic
)

type run struct {
	policy Policy
	prefix []int
	widths []int
	pos    int

	pc       []Formula
	fixed    map[string]int64
	chals    []string
	seenChal map[string]int
	Eqs      []Formula
}

var cur *run

// Path is one explored path.
type Path struct {
	PC     []Formula
	Fixed  map[string]int64
	Chals  []string
	Result any
	Panic  any
	Stack  string
}

func choose(n int, why string) int {
	if cur == nil {
		panic(Unsupported{"choice outside a run: " + why})
	}
	r := cur
	if r.pos < len(r.prefix) {
		k := r.prefix[r.pos]
		r.pos++
		return k
	}
	r.prefix = append(r.prefix, 0)
	r.widths = append(r.widths, n)
	r.pos++
	return 0
}

func (r *run) cmp(a, b *Poly) int {
	if r == nil {
		panic(Unsupported{"comparison of symbolic values outside a run"})
	}
	switch r.policy {
	case AssumeEqual:
		r.pc = append(r.pc, Eq(a, b))
		return 0
	case Generic:
		if Solve([]Formula{Ne(a, b)}, "branch ne (identity)").Status == "unsat" {
			return 0
		}
		r.pc = append(r.pc, Ne(a, b))
		return 1
	}
	// decided already on this prefix?
	if r.pos < len(r.prefix) {
		k := r.prefix[r.pos]
		r.pos++
		return r.take(k, a, b)
	}
	// an identity needs no path condition (and adds nothing to it)
	ne := Solve([]Formula{Ne(a, b)}, "branch ne (identity)")
	if ne.Status == "unsat" {
		r.prefix = append(r.prefix, 2)
		r.widths = append(r.widths, 1)
		r.pos++
		return r.take(2, a, b)
	}
	if len(r.pc) > 0 {
		ne = Solve(append(append([]Formula{}, r.pc...), Ne(a, b)), "branch ne")
	}
	if ne.Status == "unsat" {
		r.prefix = append(r.prefix, 0)
		r.widths = append(r.widths, 1)
		r.pos++
		return r.take(0, a, b)
	}
	eq := Solve(append(append([]Formula{}, r.pc...), Eq(a, b)), "branch eq")
	if eq.Status == "unsat" {
		r.prefix = append(r.prefix, 1)
		r.widths = append(r.widths, 1)
		r.pos++
		return r.take(1, a, b)
	}
	if ne.Status == "unknown" || eq.Status == "unknown" {
		Stats.Unknown++
	}
	// the unequal side first
	r.prefix = append(r.prefix, 3)
	r.widths = append(r.widths, 5)
	r.pos++
	return r.take(3, a, b)
}

func (r *run) take(k int, a, b *Poly) int {
	switch k {
	case 2:
		return 0
	case 3:
		k = 1
	case 4:
		k = 0
	}
	if k == 0 {
		r.pc = append(r.pc, Eq(a, b))
		return 0
	}
	r.pc = append(r.pc, Ne(a, b))
	return 1
}

// Assume adds an assumption to the current path.
func Assume(f Formula) { cur.pc = append(cur.pc, f) }

// With runs f under another policy.
func With(policy Policy, f func()) {
	if cur == nil {
		f()
		return
	}
	old := cur.policy
	cur.policy = policy
	defer func() { cur.policy = old }()
	f()
}

// PC is the current path condition.
func PC() []Formula { return cur.pc }

// Choose forks over n alternatives.
func Choose(n int) int {
	if Conc != nil {
		return 0
	}
	return choose(n, "harness")
}

// CompareUnder decides a comparison under the current policy (for stubs).
func CompareUnder(a, b *Poly) bool {
	if ca, ok := a.IsConst(); ok {
		if cb, ok := b.IsConst(); ok {
			return ca == cb
		}
	}
	return cur.cmp(a, b) == 0
}

// StopAt, if set, ends an exploration after a path of interest.
var StopAt func(p *Path) bool

// Explore runs f over all its paths (depth first, by re-execution), at most max paths.
func Explore(policy Policy, max int, f func() any) (paths []*Path, complete bool) {
	var prefix, widths []int
	for {
		if len(paths) >= max {
			return paths, false
		}
		cur = &run{policy: policy, prefix: append([]int(nil), prefix...), widths: append([]int(nil), widths...),
			fixed: map[string]int64{}, seenChal: map[string]int{}}
		seq = 0
		p := &Path{}
		func() {
			defer func() {
				if e := recover(); e != nil {
					p.Panic = e
					p.Stack = string(debug.Stack())
				}
			}()
			p.Result = f()
		}()
		p.PC, p.Fixed, p.Chals = cur.pc, cur.fixed, cur.chals
		paths = append(paths, p)
		if StopAt != nil && StopAt(p) {
			cur = nil
			return paths, true
		}
		Stats.Paths++
		prefix, widths = cur.prefix, cur.widths
		cur = nil
		for len(prefix) > 0 && (widths[len(prefix)-1] == 1 || prefix[len(prefix)-1]+1 >= widths[len(prefix)-1]) {
			prefix, widths = prefix[:len(prefix)-1], widths[:len(widths)-1]
		}
		if len(prefix) == 0 {
			return paths, true
		}
		prefix[len(prefix)-1]++
	}
}

// Debugf prints to stderr when VERIF_DEBUG is set.
func Debugf(f string, a ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}
