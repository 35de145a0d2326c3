//go:build zzideal

// Binding of the Buckler challenges: for every component of the public input and of the
// proof, the challenges drawn after it change with it; roles do not share challenges.
package main

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/hlib"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

type E = *sym.S

// delta is the change made to a component: a free non-zero value.
func delta() E { return sym.In("delta") }

func plus(x E) E { return new(sym.S).Add(x, delta()) }

// publicOf lists the public vectors of a circuit.
func publicOf(c buckler.Circuit[E]) (out []circ.PW) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type() == reflect.TypeOf(circ.PW{}) {
			if v.Len() > 0 {
				out = append(out, v.Interface().(circ.PW))
			}
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() && v.Elem().Kind() == reflect.Struct {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := range v.NumField() {
				if v.Type().Field(i).Type.Kind() != reflect.Interface {
					walk(v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			for i := range v.Len() {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(c))
	return
}

// change is one modification of the statement or the proof.
type change struct {
	name string
	pub  func(pw []circ.PW)            // modifies the public vectors
	part circ.Part                     // changes this part
	swap [2]int                        // swaps these commitments (if different)
	must func(role string, i int) bool // which challenges have to change
}

type setup struct {
	sc    circ.Scenario
	shape *circ.Shape
	vrf   *buckler.Verifier[E]
	full  buckler.Circuit[E]
	// first[part]: the honest part depends on no challenge
	first map[string]bool
}

func prepare(sc circ.Scenario) (*setup, error) {
	prv, vrf, err := buckler.Compile(sc.Rank, sc.Blank(), []byte("crs"))
	if err != nil {
		return nil, err
	}
	full := sc.Sat()
	pf, err := prv.Prove(full)
	if err != nil {
		return nil, err
	}
	s := &setup{sc: sc, shape: circ.ShapeOf(pf), vrf: vrf, full: full, first: map[string]bool{}}
	indep := func(ps ...*sym.Poly) bool {
		for _, p := range ps {
			for _, v := range p.Vars() {
				if len(v) > 3 && v[:3] == "ch:" {
					return false
				}
			}
		}
		return true
	}
	for k, c := range circ.Commitments(pf) {
		s.first[fmt.Sprintf("commitment %d", k)] = indep(c.Poly...)
	}
	v := reflect.ValueOf(pf).Elem()
	for _, n := range s.shape.Scalars {
		s.first[n] = indep(v.FieldByName(n).Interface().(E).P())
	}
	return s, nil
}

type obs struct {
	log   []*sym.Poly
	point *sym.Poly
}

// observe runs the verifier on an arbitrary proof with one change.
func (s *setup) observe(ch *change) obs {
	pub := s.sc.Public(s.sc.Sat())
	pws := publicOf(pub)
	for i, w := range pws {
		for j := range w {
			w[j] = sym.In(fmt.Sprintf("pub%d_%d", i, j))
		}
	}
	if ch.pub != nil {
		ch.pub(pws)
	}
	pf := s.shape.Fill(func(k int) *jindo.Commitment {
		if ch.swap[0] != ch.swap[1] && k == ch.swap[0] {
			k = ch.swap[1]
		} else if ch.swap[0] != ch.swap[1] && k == ch.swap[1] {
			k = ch.swap[0]
		}
		c := sym.In(fmt.Sprintf("com%d", k))
		if ch.part.Kind == "com" && ch.part.Idx == k {
			c = plus(c)
		}
		return &jindo.Commitment{Poly: []*sym.Poly{c.P()}}
	}, func(k int) E { return sym.In(fmt.Sprintf("ev%d", k)) },
		func(n string) E {
			x := sym.In("sc_" + n)
			if ch.part.Kind == "scalar" && ch.part.Name == n {
				x = plus(x)
			}
			return x
		})
	var o obs
	sym.ChalLog = &o.log
	jindo.OnVerify = func(x *sym.Poly, com []*jindo.Commitment, y []*sym.Poly) bool {
		o.point = x
		return true
	}
	defer func() { sym.ChalLog = nil; jindo.OnVerify = nil }()
	s.vrf.Verify(pub, pf)
	return o
}

func runCase(sc circ.Scenario, roles int) {
	name := hlib.Case("%s/rank%d", sc.Name, sc.Rank)
	if !hlib.Want(name) {
		return
	}
	sym.Reset()
	var s *setup
	all := func(f func() any) any {
		paths, _ := sym.Explore(sym.AssumeEqual, 1, f)
		if p := paths[0]; p.Panic != nil {
			sym.Debugf("%v %s\n", p.Panic, p.Stack)
			return fmt.Errorf("panic: %v", p.Panic)
		}
		return paths[0].Result
	}
	if r := all(func() any {
		var err error
		if s, err = prepare(sc); err != nil {
			return err
		}
		return nil
	}); r != nil {
		hlib.Reduce("%s: %v", name, r)
		return
	}
	var base obs
	var npub []int
	if r := all(func() any {
		base = s.observe(&change{})
		for _, w := range publicOf(sc.Public(sc.Sat())) {
			npub = append(npub, len(w))
		}
		return nil
	}); r != nil {
		hlib.Reduce("%s: %v", name, r)
		return
	}
	if base.point == nil {
		hlib.Violate(hlib.Violation{Key: sc.Name + "/no opening", Case: name, What: "the verifier checks no opening", Real: true})
		return
	}
	isPoint := func(p *sym.Poly) bool { return sym.EqualP(p, base.point) }
	// roles
	hlib.R.Obligations++
	distinct := map[string]bool{}
	for _, l := range base.log {
		for _, v := range l.Vars() {
			distinct[v] = true
		}
	}
	if len(distinct) < roles {
		hlib.Violate(hlib.Violation{Key: sc.Name + "/roles", Case: name, What: fmt.Sprintf("%d independent challenges are used where the protocol has %d roles", len(distinct), roles),
			Replay: fmt.Sprintf("Verify drew %d distinct challenges", len(distinct)), Real: true})
	} else {
		hlib.R.Discharged++
	}
	var chs []*change
	early := func(role string, i int) bool { return true }
	for i, n := range npub {
		for j := range n {
			chs = append(chs, &change{name: fmt.Sprintf("public value %d[%d]", i, j), must: early, pub: func(pw []circ.PW) { pw[i][j] = plus(pw[i][j]) }})
			if j > 0 {
				chs = append(chs, &change{name: fmt.Sprintf("public values %d[%d,%d] swapped", i, j-1, j), must: early, pub: func(pw []circ.PW) { pw[i][j], pw[i][j-1] = pw[i][j-1], pw[i][j] }})
			}
		}
		if i > 0 {
			chs = append(chs, &change{name: fmt.Sprintf("public vectors %d,%d swapped", i-1, i), must: early, pub: func(pw []circ.PW) {
				for j := range pw[i] {
					pw[i][j], pw[i-1][j] = pw[i-1][j], pw[i][j]
				}
			}})
		}
	}
	pointOnly := func(role string, i int) bool { return role == "point" }
	mustOf := func(n string) func(string, int) bool {
		if s.first[n] {
			return early
		}
		return pointOnly
	}
	for _, p := range s.shape.Parts() {
		if p.Kind != "eval" {
			chs = append(chs, &change{name: p.Name, part: p, must: mustOf(p.Name)})
		}
		if p.Kind == "com" && p.Idx > 0 {
			a, b := fmt.Sprintf("commitment %d", p.Idx-1), p.Name
			m := pointOnly
			if s.first[a] || s.first[b] {
				m = early
			}
			chs = append(chs, &change{name: a + " and " + b + " swapped", swap: [2]int{p.Idx - 1, p.Idx}, must: m})
		}
	}
	for _, ch := range chs {
		var o obs
		if r := all(func() any { o = s.observe(ch); return nil }); r != nil {
			hlib.Reduce("%s: %s: %v", name, ch.name, r)
			continue
		}
		if len(o.log) != len(base.log) {
			hlib.Reduce("%s: %s: the number of challenges varies", name, ch.name)
			continue
		}
		for i := range base.log {
			role := "batch"
			if isPoint(base.log[i]) {
				role = "point"
			}
			if !ch.must(role, i) {
				continue
			}
			hlib.R.Obligations++
			// is there a change of the component that changes the challenge?
			r := sym.Solve([]sym.Formula{sym.Ne(delta().P(), sym.ConstInt(0)), sym.Ne(base.log[i], o.log[i])}, name+": "+ch.name)
			switch r.Status {
			case "sat":
				hlib.R.Discharged++
				continue
			case "unknown":
				hlib.Reduce("%s: %s: unknown", name, ch.name)
				continue
			}
			// no change of the component changes the challenge: show it on numbers
			get := func(c *change, d int64) (*sym.Poly, any) {
				m := map[string]*big.Int{"delta": big.NewInt(d)}
				for j, v := range sym.NamesOf("in") {
					if m[v] == nil {
						m[v] = big.NewInt(int64(17*j + 5))
					}
				}
				res, pan := sym.RunConcrete(&sym.Concrete{Model: m, Native: true, ForceEqual: true}, func() any {
					s2, err := prepare(sc)
					if err != nil {
						return err
					}
					return s2.observe(c)
				})
				if pan != nil {
					return nil, pan
				}
				if o, ok := res.(obs); ok && i < len(o.log) {
					return o.log[i], nil
				}
				return nil, fmt.Sprint(res)
			}
			x, e1 := get(&change{}, 0)
			y, e2 := get(ch, 12345)
			v := hlib.Violation{Key: fmt.Sprintf("%s/%s/%s", sc.Name, ch.name, role), Case: name,
				What: fmt.Sprintf("challenge %d (%s) does not depend on %s", i, role, ch.name), Model: map[string]string{"delta": "12345"}}
			if e1 == nil && e2 == nil && sym.EqualP(x, y) {
				v.Real = true
				v.Replay = "two runs of Verify on numbers that differ in this component draw the same challenge"
				hlib.Violate(v)
			} else {
				hlib.Reduce("%s: %s: does not replay (%v %v)", name, ch.name, e1, e2)
			}
		}
	}
	// agreement with numbers: every discharged change also changes the numeric challenge
	m := map[string]*big.Int{"delta": big.NewInt(3)}
	for j, v := range sym.NamesOf("in") {
		if m[v] == nil {
			m[v] = big.NewInt(int64(17*j + 5))
		}
	}
	for _, ch := range chs {
		res, pan := sym.RunConcrete(&sym.Concrete{Model: m, Native: true, ForceEqual: true}, func() any {
			s2, err := prepare(sc)
			if err != nil {
				return err
			}
			return [2]obs{s2.observe(&change{}), s2.observe(ch)}
		})
		if pan != nil {
			continue
		}
		if o, ok := res.([2]obs); ok && len(o[0].log) == len(o[1].log) {
			good := true
			for i := range o[0].log {
				role := "batch"
				if sym.EqualP(o[0].log[i], o[0].point) {
					role = "point"
				}
				if ch.must(role, i) && sym.EqualP(o[0].log[i], o[1].log[i]) {
					good = false
				}
			}
			if good {
				hlib.R.Validated++
			}
		}
		if !hlib.Thorough() {
			break
		}
	}
}

// projection: the random projection of the approximate norm bound depends on the first round.
func runProjection(n int) {
	sc := circ.ApproxScenario(n, 1)
	name := hlib.Case("%s/rank%d/projection", sc.Name, n)
	if !hlib.Want(name) {
		return
	}
	sym.Reset()
	equations := func(tag int) (eqs []*sym.Poly, coms int, err error) {
		sym.ChalFn = func(k int) *sym.Poly { return sym.ConstInt(int64(1000003 + 7919*k)) }
		defer func() { sym.ChalFn = nil }()
		paths, _ := sym.Explore(sym.AssumeEqual, 1, func() any {
			_, vrf, err := buckler.Compile(sc.Rank, sc.Blank(), []byte("crs"))
			if err != nil {
				return err
			}
			prv, _, _ := buckler.Compile(8, circ.InfScenario(8, 1, 0).Blank(), []byte("crs"))
			_ = prv
			shape := &circ.Shape{HasOpen: true, Scalars: []string{"LinCheckMaskSum", "SumCheckMaskSum"}}
			shape.Coms, shape.Evals = vrf.JindoParams.Batch(), vrf.JindoParams.Batch()
			coms = shape.Coms
			pf := shape.Fill(func(k int) *jindo.Commitment {
				c := &jindo.Commitment{Tag: fmt.Sprint(k)}
				if k == tag {
					c.Tag += "'"
				}
				return c
			}, func(k int) E { return sym.In(fmt.Sprintf("ev%d", k)) }, func(n string) E { return sym.In("sc_" + n) })
			jindo.OnVerify = func(*sym.Poly, []*jindo.Commitment, []*sym.Poly) bool { return true }
			defer func() { jindo.OnVerify = nil }()
			vrf.Verify(sc.Public(nil), pf)
			for _, f := range sym.PC() {
				eqs = append(eqs, sym.SubP(f.A, f.B))
			}
			return nil
		})
		if p := paths[0]; p.Panic != nil {
			return nil, 0, fmt.Errorf("panic: %v", p.Panic)
		} else if e, ok := p.Result.(error); ok {
			return nil, 0, e
		}
		return
	}
	a, coms, e1 := equations(-1)
	b, _, e2 := equations(0) // the commitment of the declared witness
	if e1 != nil || e2 != nil || len(a) != len(b) || len(a) == 0 {
		hlib.Reduce("%s: %v %v (%d, %d equations)", name, e1, e2, len(a), len(b))
		return
	}
	_ = coms
	hlib.R.Obligations++
	var ne []sym.Formula
	for i := range a {
		ne = append(ne, sym.Ne(a[i], b[i]))
	}
	// with all other challenges equal, some evaluations tell the two equations apart
	switch r := sym.Solve([]sym.Formula{sym.Or(ne...)}, name); r.Status {
	case "sat":
		hlib.R.Discharged++
	case "unsat":
		hlib.Violate(hlib.Violation{Key: "projection", Case: name, What: "the random projection does not depend on the commitment of the projected witness",
			Replay: "two runs of Verify with different first-round commitments use the same projection", Real: true})
	default:
		hlib.Reduce("%s: unknown", name)
	}
}

func main() {
	defer hlib.Write()
	hlib.R.Functions = []string{"buckler.Verifier.Verify", "buckler.Prover.Prove", "gnark-crypto/fiat-shamir Transcript"}
	n := 4
	if hlib.Thorough() {
		n = 8
	}
	roles := map[string]int{"arith": 2, "linear": 3, "sumcheck(5,3)": 2, "sumcheck(0,0)": 2, "mix": 5}
	for _, sc := range circ.Sound(n) {
		r, ok := roles[sc.Name]
		if !ok {
			r = 2
			if sc.Name[0] == 't' { // two-norm: also a sum
				r = 3
			}
		}
		runCase(sc, r)
	}
	runProjection(2048)
}
