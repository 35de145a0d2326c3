// Completeness of Buckler: for every satisfying assignment, all prover randomness and all
// challenges, the verifier accepts the proof made by the prover.
package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/hlib"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

type outcome struct {
	ok  bool
	err string
}

// replay runs the same code on the numbers of the model: first with the challenges the
// transcript gives, then with the challenges of the model.
func replay(sc circ.Scenario, model map[string]*big.Int, chals []string) (string, bool) {
	for _, c := range []*sym.Concrete{{Model: model, Native: true}, {Model: model, Chals: chals}} {
		how := "challenges of the transcript"
		if !c.Native {
			how = "challenges of the model"
		}
		res, pan := sym.RunConcrete(c, func() any { return once(sc) })
		if pan != nil {
			return fmt.Sprintf("%s: panic: %v", how, pan), true
		}
		if o := res.(outcome); !o.ok {
			return fmt.Sprintf("%s: %s (accepted=%v)", how, o.err, o.ok), true
		}
	}
	return "the concrete run is accepted", false
}

func once(sc circ.Scenario) any {
	prv, vrf, err := buckler.Compile(sc.Rank, sc.Blank(), []byte("crs"))
	if err != nil {
		return outcome{false, "Compile: " + err.Error()}
	}
	full := sc.Sat()
	pf, err := prv.Prove(full)
	if err != nil {
		return outcome{false, "Prove: " + err.Error()}
	}
	return outcome{vrf.Verify(sc.Public(full), pf), ""}
}

func runCase(sc circ.Scenario, variant string) {
	name := hlib.Case("%s/rank%d/%s", sc.Name, sc.Rank, variant)
	if !hlib.Want(name) {
		return
	}
	sym.Reset()
	// a first rejecting or failing path is enough
	sym.StopAt = func(p *sym.Path) bool {
		o, _ := p.Result.(outcome)
		return !o.ok
	}
	defer func() { sym.StopAt = nil }()
	paths, complete := sym.Explore(sym.Decide, 400, func() any { return once(sc) })
	if !complete {
		hlib.Reduce("%s: path limit reached", name)
	}
	for i, p := range paths {
		hlib.R.Obligations++
		o, _ := p.Result.(outcome)
		if p.Panic == nil && o.ok {
			hlib.R.Discharged++
			if i == 0 {
				// the accepting path must be reachable
				r := sym.Solve(p.PC, name+" (reachability)")
				if r.Status != "sat" {
					hlib.Reduce("%s: no reachability witness", name)
					continue
				}
				hlib.R.Witnesses++
				for k, v := range p.Fixed {
					r.Model[k] = big.NewInt(v)
				}
				// the concrete run must end like the symbolic one
				if how, bad := replay(sc, r.Model, p.Chals); bad {
					hlib.Violate(hlib.Violation{Key: sc.Name + "/" + variant + "/concrete", Case: name, What: "concrete run of an accepted path is rejected", Model: hlib.Model(r.Model), Replay: how, Real: true})
				} else {
					hlib.R.Validated++
				}
			}
			continue
		}
		what := o.err
		if p.Panic != nil {
			if u, ok := p.Panic.(sym.Unsupported); ok {
				hlib.Reduce("%s: %v", name, u)
				continue
			}
			what = fmt.Sprintf("panic: %v", p.Panic)
		} else if what == "" {
			what = "honest proof rejected"
		}
		r := sym.Solve(p.PC, name+" rejecting path")
		if r.Status == "unsat" {
			hlib.R.Discharged++
			continue
		}
		if r.Status == "unknown" {
			hlib.Reduce("%s: rejecting path undecided", name)
			continue
		}
		sym.Debugf("%s\n", p.Stack)
		for k, v := range p.Fixed {
			r.Model[k] = big.NewInt(v)
		}
		v := hlib.Violation{Key: sc.Name + "/" + variant, Case: name, What: what, Model: hlib.Model(r.Model)}
		v.Replay, v.Real = replay(sc, r.Model, p.Chals)
		if !v.Real {
			hlib.Reduce("%s: a rejecting path that does not replay (%s)", name, what)
			continue
		}
		hlib.Violate(v)
	}
}

func main() {
	defer hlib.Write()
	hlib.R.Functions = []string{"buckler.Compile", "buckler.Prover.Prove", "buckler.Verifier.Verify", "math/bigpoly"}
	scs := circ.All()
	for _, b := range []uint64{2, 3, 4, 5} {
		scs = append(scs, circ.InfScenario(8, b, int(b)%8))
	}
	scs = append(scs, circ.TwoScenario(8, 4, 5), circ.TwoScenario(8, 9, 2), circ.TwiceScenario(8, 2, 3, 1))
	if hlib.Thorough() {
		scs = append(scs, circ.AllHeavy()...)
		for b := uint64(6); b <= 17; b++ {
			scs = append(scs, circ.InfScenario(8, b, int(b)%8))
		}
	}
	scs = append(scs, circ.Shapes(4, 0, map[bool]int{false: 40, true: 400}[hlib.Thorough()])...)
	for _, sc := range scs {
		for _, v := range rankVariants {
			setRank(v)
			runCase(sc, v)
		}
	}
}
