//go:build zzideal

// Soundness of Buckler over an ideal polynomial commitment: the equations the verifier
// enforces, for random challenges, imply the declared relation on the committed witnesses.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/hlib"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

type E = *sym.S

func newE() E { return new(sym.S) }

// info is what does not depend on symbols: the shape, and which part precedes what.
type info struct {
	*circ.Shape
	rank  int // committed rank
	basis [][]*sym.Poly
	// bound[part][j]: the j-th challenge of the verifier depends on the part
	bound map[string][]bool
	late  map[string]bool // parts free to depend on some challenge other than the point
	nchal int
	hmax  int // extra coefficients of a witness-like commitment
}

type call struct {
	x   *sym.Poly
	com []*jindo.Commitment
	y   []*sym.Poly
}

// verifyOnce runs the verifier and records the opening checks and the challenges.
func verifyOnce(vrf *buckler.Verifier[E], pub buckler.Circuit[E], pf *buckler.Proof[E], hook bool) (ok bool, calls []call, log []*sym.Poly) {
	sym.ChalLog = &log
	jindo.OnVerify = func(x *sym.Poly, com []*jindo.Commitment, y []*sym.Poly) bool {
		calls = append(calls, call{x, com, y})
		return hook
	}
	defer func() { sym.ChalLog = nil; jindo.OnVerify = nil }()
	ok = vrf.Verify(pub, pf)
	return
}

// gather finds the shape of the proof and the order of its parts.
func gather(sc circ.Scenario, hmax int) (in *info, err error) {
	prv, vrf, e := buckler.Compile(sc.Rank, sc.Blank(), []byte("crs"))
	if e != nil {
		return nil, e
	}
	full := sc.Sat()
	pf, e := prv.Prove(full)
	if e != nil {
		return nil, e
	}
	n := sc.Rank
	in = &info{Shape: circ.ShapeOf(pf), rank: prv.JindoParams.Rank(), bound: map[string][]bool{}, late: map[string]bool{}, hmax: hmax}
	tr := bigpoly.NewCyclicTransformer[E](n)
	in.basis = circ.SlotBasis(n, func(o, v []E) { tr.InvNTTTo(o, v) })
	coms := circ.Commitments(pf)
	for _, c := range coms {
		in.Len = append(in.Len, len(c.Poly))
	}
	// the commitment of each declared witness
	used := map[int]bool{}
	for d, w := range circ.Witnesses(full) {
		found := -1
		order := []int{d}
		for k := range coms {
			order = append(order, k)
		}
		for _, k := range order {
			if found < 0 && k < len(coms) && !used[k] && isEncoding(in, coms[k], w) {
				found = k
				used[k] = true
			}
		}
		if found < 0 {
			return nil, fmt.Errorf("no commitment of the honest proof encodes declared witness %d", d)
		}
		in.Decl = append(in.Decl, found)
	}
	// which challenge depends on which part
	probe := func(part circ.Part) *buckler.Proof[E] {
		return in.Fill(func(k int) *jindo.Commitment {
			c := &jindo.Commitment{Tag: fmt.Sprintf("probe%d", k)}
			if part.Kind == "com" && part.Idx == k {
				c.Tag += "'"
			}
			return c
		}, func(k int) E {
			if part.Kind == "eval" && part.Idx == k {
				return sym.Adv(fmt.Sprintf("probe_e%d'", k))
			}
			return sym.Adv(fmt.Sprintf("probe_e%d", k))
		}, func(s string) E {
			if part.Kind == "scalar" && part.Name == s {
				return sym.Adv("probe_" + s + "'")
			}
			return sym.Adv("probe_" + s)
		})
	}
	pub := sc.Public(full)
	ok, calls, base := verifyOnce(vrf, pub, probe(circ.Part{}), true)
	if !ok {
		return nil, fmt.Errorf("the verifier rejects whatever the equations")
	}
	in.nchal = len(base)
	point := map[string]bool{}
	for _, c := range calls {
		for _, v := range c.x.Vars() {
			point[v] = true
		}
	}
	for _, part := range in.Parts() {
		_, _, log := verifyOnce(vrf, pub, probe(part), true)
		if len(log) != len(base) {
			return nil, fmt.Errorf("the number of challenges varies")
		}
		b := make([]bool, len(base))
		for j := range base {
			b[j] = !sym.EqualP(log[j], base[j])
			vs := base[j].Vars()
			if !b[j] && !(len(vs) == 1 && point[vs[0]]) {
				in.late[part.Name] = true
			}
		}
		in.bound[part.Name] = b
	}
	return in, nil
}

// isEncoding tells whether c encodes w.
func isEncoding(in *info, c *jindo.Commitment, w []E) bool {
	n := len(in.basis)
	if len(c.Poly) < n {
		return false
	}
	want := make([]*sym.Poly, n)
	for j := range n {
		want[j] = sym.ConstInt(0)
		for i := range w {
			want[j] = sym.AddP(want[j], sym.MulP(w[i].P(), in.basis[i][j]))
		}
	}
	for j, p := range c.Poly {
		want[j%n] = sym.SubP(want[j%n], p)
	}
	for j := range want {
		if !want[j].IsZero() {
			return false
		}
	}
	return true
}

// vname names the unknowns of the parts.
func (in *info) proof(wit []circ.W) *buckler.Proof[E] {
	n := len(in.basis)
	declOf := map[int]int{}
	for d, k := range in.Decl {
		declOf[k] = d
	}
	return in.Fill(func(k int) *jindo.Commitment {
		c := &jindo.Commitment{Tag: fmt.Sprint(k), Poly: make([]*sym.Poly, in.rank)}
		if in.late[fmt.Sprintf("commitment %d", k)] || !in.early(k) {
			for j := range c.Poly {
				c.Poly[j] = sym.NewVar(fmt.Sprintf("l%d_%d", k, j), "adv")
			}
			if d, ok := declOf[k]; ok {
				// a declared witness that may depend on challenges: keep it as slots
				c.Poly = in.slots(k, wit[d], n)
			}
			return c
		}
		if d, ok := declOf[k]; ok {
			c.Poly = in.slots(k, wit[d], n)
		} else {
			s := make([]E, n)
			for i := range s {
				s[i] = sym.Adv(fmt.Sprintf("s%d_%d", k, i))
			}
			c.Poly = in.slots(k, s, n)
		}
		return c
	}, func(k int) E { return sym.Adv(fmt.Sprintf("e%d", k)) },
		func(s string) E { return sym.Adv("sc_" + s) })
}

// early parts precede every challenge but the evaluation point.
func (in *info) early(k int) bool { return !in.late[fmt.Sprintf("commitment %d", k)] }

func (in *info) slots(k int, v []E, n int) []*sym.Poly {
	out := make([]*sym.Poly, in.rank)
	for j := range out {
		out[j] = sym.ConstInt(0)
		if j < n {
			for i := range v {
				out[j] = sym.AddP(out[j], sym.MulP(v[i].P(), in.basis[i][j]))
			}
		}
	}
	m := in.rank - n
	if k < len(in.Len) && in.Len[k] == n+1 && in.hmax < m {
		m = in.hmax
	}
	for j := range m {
		h := sym.NewVar(fmt.Sprintf("h%d_%d", k, j), "adv")
		out[j] = sym.SubP(out[j], h)
		out[j+n] = sym.AddP(out[j+n], h)
	}
	return out
}

// declAt is the declared witness of a commitment.
func (in *info) declAt(k int) int {
	for d, x := range in.Decl {
		if x == k {
			return d
		}
	}
	return -1
}

func evalAt(p []*sym.Poly, x *sym.Poly) *sym.Poly {
	acc := sym.ConstInt(0)
	for i := len(p) - 1; i >= 0; i-- {
		acc = sym.AddP(sym.MulP(acc, x), p[i])
	}
	return acc
}

// system is what the verifier enforces.
type system struct {
	Eqs     []*sym.Poly // all equations, polynomials in every unknown and challenge
	Post    []*sym.Poly // equations an adversary may solve after the point is known
	Log     []*sym.Poly
	point   map[string]bool
	unbound map[int]bool // commitments the point does not depend on
	free    []string     // evaluations the adversary may choose
}

func extract(in *info, sc circ.Scenario) (*system, error) {
	_, vrf, e := buckler.Compile(sc.Rank, sc.Blank(), []byte("crs"))
	if e != nil {
		return nil, e
	}
	pub, wit, _ := sc.Free()
	pf := in.proof(wit)
	ok, calls, log := verifyOnce(vrf, pub, pf, true)
	if !ok {
		return nil, fmt.Errorf("the verifier rejects whatever the equations")
	}
	s := &system{Log: log, point: map[string]bool{}, unbound: map[int]bool{}}
	pos := map[string]int{}
	for j, l := range log {
		if v, ok := l.VarInfo(); ok {
			pos[v.Name] = j
		}
	}
	sub := map[string]*sym.Poly{}
	var raw []*sym.Poly
	for _, c := range calls {
		for _, v := range c.x.Vars() {
			s.point[v] = true
		}
		for i, y := range c.y {
			var k int
			fmt.Sscan(c.com[i].Tag, &k)
			known := true
			for _, v := range c.x.Vars() {
				if j, ok := pos[v]; !ok || !in.bound[fmt.Sprintf("commitment %d", k)][j] {
					known = false
				}
			}
			if !known {
				s.unbound[k] = true
				continue // the commitment may be made after the point is known
			}
			val := evalAt(c.com[i].Poly, c.x)
			if v, ok := y.VarInfo(); ok && strings.HasPrefix(v.Name, "e") && sub[v.Name] == nil {
				sub[v.Name] = val
			} else {
				raw = append(raw, sym.SubP(y, val))
			}
		}
	}
	for _, f := range sym.PC() {
		if f.Op != "eq" {
			return nil, fmt.Errorf("the path condition is not a conjunction of equations")
		}
		raw = append(raw, sym.SubP(f.A, f.B))
	}
	fr := map[string]bool{}
	for _, q := range raw {
		q = sym.Subst(q, sub)
		if q.IsZero() {
			continue
		}
		post := false
		for _, v := range q.Vars() {
			if strings.HasPrefix(v, "e") {
				fr[v] = true
				post = true
			}
			if strings.HasPrefix(v, "sc_") {
				for p := range s.point {
					if j, ok := pos[p]; ok && q.Has(p) && !in.bound[v[3:]][j] {
						post = true
					}
				}
			}
		}
		if post {
			s.Post = append(s.Post, q)
		} else {
			s.Eqs = append(s.Eqs, q)
		}
	}
	for v := range fr {
		s.free = append(s.free, v)
	}
	sort.Strings(s.free)
	return s, nil
}

// isLate selects the unknowns that may depend on challenges.
func (in *info) isLate(v sym.Var) bool {
	if v.Kind != "adv" {
		return false
	}
	if strings.HasPrefix(v.Name, "l") {
		return true
	}
	if strings.HasPrefix(v.Name, "sc_") {
		return in.late[v.Name[3:]]
	}
	return false
}

// lateWit tells whether some declared or auxiliary slot unknown may depend on challenges.
func (in *info) lateWit() bool {
	for _, k := range in.Decl {
		if !in.early(k) {
			return true
		}
	}
	return false
}

// pointCoeffs splits by the powers of the evaluation point.
func (s *system) pointCoeffs(eqs []*sym.Poly) []*sym.Poly {
	var out []*sym.Poly
	for _, q := range eqs {
		m := q.CoeffsIn(func(v sym.Var) bool { return s.point[v.Name] })
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if !m[k].IsZero() {
				out = append(out, m[k])
			}
		}
	}
	return out
}

func splitChals(eqs []*sym.Poly) []*sym.Poly {
	var out []*sym.Poly
	for _, q := range eqs {
		m := q.CoeffsIn(func(v sym.Var) bool { return v.Kind == "chal" })
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if !m[k].IsZero() {
				out = append(out, m[k])
			}
		}
	}
	return out
}

// chalConst substitutes pseudo-random numbers for the challenges.
func chalConst(eqs []*sym.Poly, seed int, keep func(string) bool) []*sym.Poly {
	sub := map[string]*sym.Poly{}
	for i, n := range sym.NamesOf("chal") {
		if keep == nil || !keep(n) {
			x := new(big.Int).Exp(big.NewInt(int64(1000003+7919*seed+104729*i)), big.NewInt(31), sym.P)
			sub[n] = sym.ConstBig(x)
		}
	}
	var out []*sym.Poly
	for _, q := range eqs {
		if r := sym.Subst(q, sub); !r.IsZero() {
			out = append(out, r)
		}
	}
	return out
}

func isH(v sym.Var) bool { return v.Kind == "adv" && strings.HasPrefix(v.Name, "h") }

// reduceEqs computes what the equations say about the early unknowns.
func reduceEqs(in *info, s *system) (eqs []*sym.Poly, how string) {
	co := s.pointCoeffs(s.Eqs)
	if el, ok := sym.Eliminate(co, in.isLate); ok {
		return sym.RREFBy(splitChals(el), isH), "symbolic challenges"
	}
	// late unknowns with challenge-dependent coefficients: several challenge instances
	var all []*sym.Poly
	for t := range 12 {
		el, ok := sym.Eliminate(chalConst(co, t, nil), in.isLate)
		if !ok {
			return chalConst(co, 0, nil), "one challenge instance, late unknowns kept"
		}
		all = append(all, el...)
		if in.lateWit() {
			break // the witness may depend on the challenges: one instance only
		}
	}
	return sym.RREFBy(all, isH), "challenge instances"
}

// core returns the equations that share a monomial with the goal, and those needed to
// constrain the unknowns they bring in.
func core(eqs []*sym.Poly, goal []sym.Formula) []sym.Formula {
	gv, gm := map[string]bool{}, map[string]bool{}
	var mark func(f sym.Formula)
	mark = func(f sym.Formula) {
		if f.A != nil {
			for _, p := range []*sym.Poly{f.A, f.B} {
				for _, v := range p.Vars() {
					gv[v] = true
				}
				for k := range p.CoeffsIn(func(sym.Var) bool { return true }) {
					if k != "" {
						gm[k] = true
					}
				}
			}
		}
		for _, x := range f.Sub {
			mark(x)
		}
	}
	for _, f := range goal {
		mark(f)
	}
	used := make([]bool, len(eqs))
	ext := map[string]bool{}
	var out []sym.Formula
	take := func(i int) {
		used[i] = true
		for _, v := range eqs[i].Vars() {
			if !gv[v] {
				ext[v] = true
			}
		}
		out = append(out, sym.Eq(eqs[i], sym.ConstInt(0)))
	}
	for i, q := range eqs {
		for k := range q.CoeffsIn(func(sym.Var) bool { return true }) {
			if gm[k] {
				take(i)
				break
			}
		}
	}
	for again := true; again; {
		again = false
		for i, q := range eqs {
			if used[i] {
				continue
			}
			for _, v := range q.Vars() {
				if ext[v] {
					take(i)
					again = true
					break
				}
			}
		}
	}
	return out
}

// component returns the equations connected to the variables of f.
func component(eqs []*sym.Poly, f []sym.Formula) []sym.Formula {
	in := map[string]bool{}
	var mark func(f sym.Formula)
	mark = func(f sym.Formula) {
		if f.A != nil {
			for _, v := range append(f.A.Vars(), f.B.Vars()...) {
				in[v] = true
			}
		}
		for _, x := range f.Sub {
			mark(x)
		}
	}
	for _, x := range f {
		mark(x)
	}
	used := make([]bool, len(eqs))
	var out []sym.Formula
	for again := true; again; {
		again = false
		for i, q := range eqs {
			if used[i] {
				continue
			}
			vs := q.Vars()
			hit := len(vs) == 0
			for _, v := range vs {
				hit = hit || in[v]
			}
			if hit {
				used[i], again = true, true
				for _, v := range vs {
					in[v] = true
				}
				out = append(out, sym.Eq(q, sym.ConstInt(0)))
			}
		}
	}
	return out
}

func runCase(sc circ.Scenario, variant string, hmax int) {
	name := hlib.Case("%s/rank%d/%s/h%d", sc.Name, sc.Rank, variant, hmax)
	if !hlib.Want(name) {
		return
	}
	sym.Reset()
	var in *info
	var ss *system
	paths, _ := sym.Explore(sym.AssumeEqual, 1, func() any {
		var err error
		in, err = gather(sc, hmax)
		if err != nil {
			return err
		}
		return nil
	})
	if p := paths[0]; p.Panic != nil || p.Result != nil {
		sym.Debugf("%s\n", p.Stack)
		hlib.Reduce("%s: %v %v", name, p.Panic, p.Result)
		return
	}
	paths, _ = sym.Explore(sym.AssumeEqual, 1, func() any {
		var err error
		ss, err = extract(in, sc)
		if err != nil {
			return err
		}
		return nil
	})
	if p := paths[0]; p.Panic != nil || p.Result != nil {
		sym.Debugf("%s\n", p.Stack)
		hlib.Reduce("%s: %v %v", name, p.Panic, p.Result)
		return
	}
	_, _, rels := sc.Free()
	eqs, how := reduceEqs(in, ss)
	if in.lateWit() {
		how += "; witness commitments that do not precede every challenge"
	}
	sym.Debugf("%s: %d equations, %d post, %d reduced (%s)\n", name, len(ss.Eqs), len(ss.Post), len(eqs), how)
	var noH []*sym.Poly
	for _, q := range eqs {
		has := false
		for _, v := range q.Vars() {
			if strings.HasPrefix(v, "h") {
				has = true
			}
		}
		if !has {
			noH = append(noH, q)
		}
	}
	zeroH := map[string]*sym.Poly{}
	for _, v := range sym.NamesOf("adv") {
		if strings.HasPrefix(v, "h") {
			zeroH[v] = sym.ConstInt(0)
		}
	}
	var eqs0 []*sym.Poly
	for _, q := range eqs {
		if r := sym.Subst(q, zeroH); !r.IsZero() {
			eqs0 = append(eqs0, r)
		}
	}
	// an honest assignment satisfies the equations (they are not contradictory)
	var all []sym.Formula
	for _, q := range eqs0 {
		all = append(all, sym.Eq(q, sym.ConstInt(0)))
	}
	zero, model := true, map[string]*big.Int{}
	for _, f := range all {
		zero = zero && f.Holds(map[string]*big.Int{})
	}
	if zero {
		hlib.R.Witnesses++
	} else if w := sym.Solve(all, name+" (reachability)"); w.Status == "sat" {
		hlib.R.Witnesses++
		model = w.Model
	} else {
		hlib.Reduce("%s: the equations are not shown satisfiable", name)
		model = nil
	}
	if model != nil && len(ss.Post) == 0 {
		// any solution of the equations must be a proof the real verifier accepts
		if how, ok := replay(in, sc, ss, nil, model); ok {
			hlib.R.Validated++
		} else {
			hlib.Reduce("%s: a solution of the extracted equations is not an accepted proof (%s)", name, how)
		}
	}
	if len(ss.Post) > 0 {
		// equations with values the adversary chooses last: whatever they say is decided on replay
		how += fmt.Sprintf("; %d equations with unbound values", len(ss.Post))
	}
	fails := 0
	for _, r := range rels {
		hlib.R.Obligations++
		goal := append([]sym.Formula{sym.Ne(r.P, sym.ConstInt(0))}, r.Side...)
		res := sym.Result{Status: "sat"}
		if near := core(noH, goal); len(near) > 0 {
			res = sym.Solve(append(near, goal...), name+": "+r.Name)
		}
		var q []sym.Formula
		if res.Status != "unsat" {
			q = append(component(noH, goal), goal...)
			res = sym.Solve(q, name+": "+r.Name+" (component)")
		}
		if res.Status == "unsat" {
			hlib.R.Discharged++
			continue
		}
		if fails > 3 || hlib.Enough() || (fails > 1 && len(hlib.R.Violations) > 3) {
			continue // reported already
		}
		fails++
		why := ""
		done := false
		for _, set := range [][]*sym.Poly{eqs0, eqs} {
			q = append(component(set, goal), goal...)
			for _, p := range set {
				q = append(q, sym.Eq(p, sym.ConstInt(0)))
			}
			res = sym.Solve(q, name+": "+r.Name+" (all equations)")
			if res.Status != "sat" {
				continue
			}
			how2, ok := replay(in, sc, ss, &r, res.Model)
			why = how2
			if ok {
				hlib.Violate(hlib.Violation{Key: sc.Name + "/" + strings.Split(r.Name, " slot")[0], Case: name,
					What: "the verifier accepts a proof for witnesses with not (" + r.Name + "): " + how, Model: hlib.Model(res.Model), Replay: how2, Real: true})
				done = true
				break
			}
		}
		if !done && res.Status == "unsat" {
			hlib.R.Discharged++
		} else if !done {
			hlib.Reduce("%s: %s: %s (%s)", name, r.Name, res.Status, why)
		}
	}
}

// replay builds the adversarial proof on numbers, with the challenges of the real hash.
func replay(in *info, sc circ.Scenario, ss *system, r *circ.Rel, model map[string]*big.Int) (string, bool) {
	m := map[string]*big.Int{}
	for k, v := range model {
		m[k] = v
	}
	type outcome struct {
		ok  bool
		err error
		log []*sym.Poly
		x   *sym.Poly
		com []*jindo.Commitment
	}
	run := func(hook bool) (outcome, any) {
		res, pan := sym.RunConcrete(&sym.Concrete{Model: m, Native: true, ForceEqual: hook}, func() any {
			_, vrf, e := buckler.Compile(sc.Rank, sc.Blank(), []byte("crs"))
			if e != nil {
				return outcome{err: e}
			}
			pub, wit, _ := sc.Free()
			pf := in.proof(wit)
			ok, calls, log := verifyOnce(vrf, pub, pf, hook)
			o := outcome{ok: ok, log: log}
			if len(calls) > 0 {
				o.x, o.com = calls[0].x, calls[0].com
			}
			return o
		})
		if pan != nil {
			return outcome{}, pan
		}
		return res.(outcome), nil
	}
	consts := func(log []*sym.Poly) map[string]*sym.Poly {
		sub := map[string]*sym.Poly{}
		for j, l := range ss.Log {
			if v, ok := l.VarInfo(); ok && j < len(log) {
				sub[v.Name] = log[j]
			}
		}
		return sub
	}
	fixed := func(v sym.Var) bool { return v.Kind != "chal" }
	// 1: challenges other than the point
	o, pan := run(true)
	if pan != nil || o.err != nil || len(o.log) != len(ss.Log) {
		return fmt.Sprintf("stage 1: %v %v", pan, o.err), false
	}
	sub := consts(o.log)
	for p := range ss.point {
		delete(sub, p)
	}
	for _, kind := range []string{"in", "adv"} {
		for _, v := range sym.NamesOf(kind) {
			if in.isLate(sym.Var{Name: v, Kind: kind}) || strings.HasPrefix(v, "e") || strings.HasPrefix(v, "probe") {
				continue
			}
			if in.lateWit() && !strings.HasPrefix(v, "p") {
				continue
			}
			x := m[v]
			if x == nil {
				x = new(big.Int)
				m[v] = x
			}
			sub[v] = sym.ConstBig(x)
		}
	}
	_ = fixed
	var left []*sym.Poly
	for _, q := range ss.pointCoeffs(ss.Eqs) {
		if c := sym.Subst(q, sub); !c.IsZero() {
			left = append(left, c)
		}
	}
	if len(left) > 0 {
		sol, ok := sym.SolveLinear(left)
		if !ok || in.lateWit() {
			var fs []sym.Formula
			for _, q := range left {
				fs = append(fs, sym.Eq(q, sym.ConstInt(0)))
			}
			if in.lateWit() && r != nil {
				fs = append(fs, sym.Ne(sym.Subst(r.P, sub), sym.ConstInt(0)))
				fs = append(fs, r.Side...)
			}
			res := sym.Solve(fs, "replay: messages after the challenges")
			if res.Status != "sat" {
				return "no messages fit the actual challenges", false
			}
			sol = res.Model
		}
		for k, v := range sol {
			m[k] = v
		}
	}
	// 2: the point, and the evaluations
	o, pan = run(true)
	if pan != nil || len(o.log) != len(ss.Log) {
		return fmt.Sprintf("stage 2: %v", pan), false
	}
	if o.x != nil {
		for k := range o.com {
			e := evalAt(o.com[k].Poly, o.x)
			c, ok := e.IsConst()
			if !ok {
				return "stage 2: not a number", false
			}
			m[fmt.Sprintf("e%d", k)] = c.Big()
		}
	}
	if len(ss.Post) > 0 {
		sub := consts(o.log)
		for _, kind := range []string{"in", "adv"} {
			for _, v := range sym.NamesOf(kind) {
				isFree := strings.HasPrefix(v, "sc_")
				for _, f := range ss.free {
					isFree = isFree || f == v
				}
				if isFree {
					delete(sub, v)
					continue
				}
				x := m[v]
				if x == nil {
					x = new(big.Int)
				}
				sub[v] = sym.ConstBig(x)
			}
		}
		var fs []sym.Formula
		for _, q := range append(append([]*sym.Poly{}, ss.Post...), ss.Eqs...) {
			if c := sym.Subst(q, sub); !c.IsZero() {
				fs = append(fs, sym.Eq(c, sym.ConstInt(0)))
			}
		}
		res := sym.Solve(fs, "replay: values after the point")
		if res.Status != "sat" {
			return "no evaluations fit the actual point", false
		}
		for k, v := range res.Model {
			m[k] = v
		}
		// commitments made after the point: the constant polynomial with the claimed value
		for k := range o.com {
			if !ss.unbound[k] {
				continue
			}
			e := m[fmt.Sprintf("e%d", k)]
			if d := in.declAt(k); d >= 0 {
				_, wit, _ := sc.Free()
				for _, x := range wit[d] {
					if v, ok := x.P().VarInfo(); ok {
						m[v.Name] = e
					}
				}
				continue
			}
			for j := range in.rank {
				m[fmt.Sprintf("l%d_%d", k, j)] = new(big.Int)
				m[fmt.Sprintf("h%d_%d", k, j)] = new(big.Int)
			}
			m[fmt.Sprintf("l%d_0", k)] = e
			for i := range in.basis {
				m[fmt.Sprintf("s%d_%d", k, i)] = e
			}
		}
	}
	// the declared relation is violated
	if r != nil && r.P.Eval(m).Sign() == 0 {
		for _, s := range r.Side {
			if !s.Holds(m) {
				return "the relation holds on the final values", false
			}
		}
		return "the relation holds on the final values", false
	}
	o, pan = run(false)
	if pan != nil {
		return fmt.Sprintf("final: %v", pan), false
	}
	if !o.ok {
		return "the verifier rejects the constructed proof", false
	}
	return "Verify accepts the constructed proof (challenges of the real hash, numbers for every message)", true
}

var variants = []string{"exact", "roundup"}

func setRank(v string) {
	if v == "exact" {
		jindo.RankOf = func(t, b int) int { return t }
	} else {
		jindo.RankOf = func(t, b int) int { return t + 5 }
	}
}

func main() {
	defer hlib.Write()
	hlib.R.Functions = []string{"buckler.Compile", "buckler.Verifier.Verify", "buckler.Context constraint builders", "LinearChecker.TransposeTo", "buckler.Encoder"}
	sym.Timeout = 20
	scs := append(circ.Sound(4), circ.Shapes(4, 0, map[bool]int{false: 24, true: 200}[hlib.Thorough()])...)
	if hlib.Thorough() {
		sym.Timeout = 120
		scs = append(scs, circ.Sound(8)...)
	}
	for _, sc := range scs {
		for _, v := range variants {
			setRank(v)
			runCase(sc, v, 1)
			if hlib.Thorough() {
				runCase(sc, v, 3)
			}
		}
	}
	_ = newE
}
