package hlib

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/sym"
)

// Pair is one equation an identity states.
type Pair struct {
	What      string
	Got, Want *sym.S
}

// Pairs lists equations.
type Pairs []Pair

// Add appends an equation.
func (ps *Pairs) Add(got, want *sym.S, f string, a ...any) {
	*ps = append(*ps, Pair{fmt.Sprintf(f, a...), sym.Of(got.P()), sym.Of(want.P())})
}

// AddVec appends equations of two vectors.
func (ps *Pairs) AddVec(got, want []*sym.S, f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(got) != len(want) {
		ps.Add(sym.Int(int64(len(got))), sym.Int(int64(len(want))), "%s: length", s)
		return
	}
	for i := range got {
		ps.Add(got[i], want[i], "%s [%d]", s, i)
	}
}

// Snapshot copies the values of a vector.
func Snapshot(v []*sym.S) []*sym.S {
	o := make([]*sym.S, len(v))
	for i := range v {
		o[i] = sym.Of(v[i].P())
	}
	return o
}

// Identity runs the code under test symbolically (build) and asks the solver for inputs
// for which one of the equations fails. A counterexample is run again on numbers.
func Identity(key string, build func() Pairs) {
	if !Want(key) {
		return
	}
	sym.Reset()
	paths, complete := sym.Explore(sym.Decide, 64, func() any { return build() })
	if !complete {
		Reduce("%s: path limit", key)
	}
	for _, p := range paths {
		R.Obligations++
		if p.Panic != nil {
			if u, ok := p.Panic.(sym.Unsupported); ok {
				Reduce("%s: %v", key, u)
				continue
			}
			r := sym.Solve(p.PC, key+" panicking path")
			if r.Status == "unsat" {
				R.Discharged++
				continue
			}
			sym.Debugf("%v\n%s\n", p.Panic, p.Stack)
			_, pan := sym.RunConcrete(&sym.Concrete{Model: r.Model}, func() any { return build() })
			if pan == nil {
				Reduce("%s: a panic (%v) that does not replay", key, p.Panic)
				continue
			}
			Violate(Violation{Key: key, Case: key, What: fmt.Sprintf("panic: %v", p.Panic), Model: Model(r.Model), Replay: fmt.Sprint(pan), Real: true})
			continue
		}
		ps := p.Result.(Pairs)
		var dis []sym.Formula
		for _, q := range ps {
			dis = append(dis, sym.Ne(q.Got.P(), q.Want.P()))
		}
		r := sym.Solve(append(append([]sym.Formula{}, p.PC...), sym.Or(dis...)), key)
		switch r.Status {
		case "unsat":
			R.Discharged++
			// vacuity and agreement with a concrete run
			w := sym.Solve(p.PC, key+" (reachability)")
			if w.Status != "sat" {
				Reduce("%s: no reachability witness", key)
				continue
			}
			R.Witnesses++
			m := spread(ps, w.Model, len(p.PC) == 0)
			if what, ok := differs(build, m); ok {
				Violate(Violation{Key: key, Case: key, What: "concrete run: " + what, Model: Model(m), Replay: what, Real: true})
				continue
			}
			R.Validated++
		case "sat":
			what, ok := differs(build, r.Model)
			if !ok {
				Reduce("%s: a counterexample that does not replay", key)
				continue
			}
			Violate(Violation{Key: key, Case: key, What: what, Model: Model(r.Model), Replay: what, Real: true})
		default:
			Reduce("%s: undecided", key)
		}
	}
}

// spread gives every free variable some value, so that the concrete run is not all zeros.
func spread(ps Pairs, m map[string]*big.Int, free bool) map[string]*big.Int {
	if !free {
		return m
	}
	o := map[string]*big.Int{}
	k := int64(3)
	for _, q := range ps {
		for _, v := range append(q.Got.P().Vars(), q.Want.P().Vars()...) {
			if o[v] == nil {
				o[v] = new(big.Int).Mod(big.NewInt(k*k*7919-k), sym.P)
				k++
			}
		}
	}
	return o
}

func differs(build func() Pairs, m map[string]*big.Int) (string, bool) {
	res, pan := sym.RunConcrete(&sym.Concrete{Model: m}, func() any { return build() })
	if pan != nil {
		return fmt.Sprintf("panic: %v", pan), true
	}
	for _, q := range res.(Pairs) {
		if !sym.EqualP(q.Got.P(), q.Want.P()) {
			return fmt.Sprintf("%s: got %s, want %s", q.What, q.Got, q.Want), true
		}
	}
	return "", false
}
