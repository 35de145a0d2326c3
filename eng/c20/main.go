//go:build zzideal

// Blinding of Buckler proofs: what a proof shows in the clear is, for fixed challenges, a
// function of values that are uniform whatever the witness is.
package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/hlib"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

type E = *sym.S

// view is what a proof reveals, the public input, and what the verifier's equations say
// about the evaluations (symbols e0, e1, ...).
type view struct {
	Err   error
	Names []string
	Val   []*sym.Poly
	Pub   []*sym.Poly
	PC    []*sym.Poly
	Point *sym.Poly
	// Coms are the committed polynomials.
	Coms [][]*sym.Poly
	// Fork is what the prover found out about the witness on this path.
	Fork []sym.Formula
}

func publics(c buckler.Circuit[E]) (out []*sym.Poly) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type() == reflect.TypeOf(circ.PW{}) {
			for _, x := range v.Interface().(circ.PW) {
				out = append(out, x.P())
			}
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() && v.Elem().Kind() == reflect.Struct {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := range v.NumField() {
				if v.Type().Field(i).Type.Kind() != reflect.Interface {
					walk(v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			for i := range v.Len() {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(c))
	return
}

// reveal proves honestly and collects the view.
func reveal(sc circ.Scenario, equations, again bool) any {
	// challenges are fixed, hence what they are made from does not matter
	jindo.Freeze, jindo.Seq = true, 0
	prv, vrf, err := buckler.Compile(sc.Rank, sc.Blank(), []byte("crs"))
	if err != nil {
		return &view{Err: err}
	}
	full := sc.Sat()
	var pf *buckler.Proof[E]
	sym.With(sym.Decide, func() { pf, err = prv.Prove(full) })
	if err != nil {
		return &view{Err: err}
	}
	v := &view{Pub: publics(full)}
	if sym.Conc == nil {
		v.Fork = append(v.Fork, sym.PC()...)
	}
	for _, c := range circ.Commitments(pf) {
		v.Coms = append(v.Coms, c.Poly)
	}
	shape := circ.ShapeOf(pf)
	r := reflect.ValueOf(pf).Elem()
	take := func(pf *buckler.Proof[E], pre string) {
		r := reflect.ValueOf(pf).Elem()
		for _, n := range shape.Scalars {
			v.Names = append(v.Names, pre+n)
			v.Val = append(v.Val, r.FieldByName(n).Interface().(E).P())
		}
		for i := range r.NumField() {
			if l, ok := r.Field(i).Interface().([]E); ok {
				for k, e := range l {
					v.Names = append(v.Names, fmt.Sprintf("%se%d", pre, k))
					v.Val = append(v.Val, e.P())
				}
			}
		}
	}
	take(pf, "")
	if again {
		// another proof of the same witness by the same prover
		sym.With(sym.Decide, func() { pf, err = prv.Prove(full) })
		if err != nil {
			return &view{Err: err}
		}
		take(pf, "second ")
	}
	if equations {
		coms := circ.Commitments(pf)
		pf2 := shape.Fill(func(k int) *jindo.Commitment { return coms[k] },
			func(k int) E { return sym.Adv(fmt.Sprintf("e%d", k)) },
			func(n string) E { return r.FieldByName(n).Interface().(E) })
		jindo.OnVerify = func(x *sym.Poly, com []*jindo.Commitment, y []*sym.Poly) bool { v.Point = x; return true }
		vrf.Verify(sc.Public(full), pf2)
		jindo.OnVerify = nil
		for _, f := range sym.PC() {
			if f.Op == "eq" {
				v.PC = append(v.PC, sym.SubP(f.A, f.B))
			}
		}
	}
	return v
}

func challenge(seed, k int) *sym.Poly {
	x := new(big.Int).Exp(big.NewInt(int64(1000003+15485863*seed+7919*k)), big.NewInt(41), sym.P)
	return sym.ConstBig(x)
}

// nullspace returns the combinations of rows without any randomness: coefficient vectors.
func nullspace(rows []map[string]*sym.Poly) [][]*sym.Poly {
	// augment with one tag variable per row and eliminate
	cols := map[string]int{}
	var names []string
	for _, r := range rows {
		for k := range r {
			if _, ok := cols[k]; !ok {
				cols[k] = len(cols)
				names = append(names, k)
			}
		}
	}
	sort.Strings(names)
	var sys []*sym.Poly
	for i, r := range rows {
		p := sym.NewVar(fmt.Sprintf("row%d", i), "aux")
		for k, c := range r {
			p = sym.AddP(p, sym.MulP(c, sym.NewVar("col:"+k, "rand")))
		}
		sys = append(sys, p)
	}
	out, ok := sym.Eliminate(sys, func(v sym.Var) bool { return v.Kind == "rand" })
	if !ok {
		return nil
	}
	var res [][]*sym.Poly
	for _, p := range out {
		lam := make([]*sym.Poly, len(rows))
		for i := range lam {
			d := p.Degs(fmt.Sprintf("row%d", i))
			lam[i] = d[1]
			if lam[i] == nil {
				lam[i] = sym.ConstInt(0)
			}
		}
		res = append(res, lam)
	}
	return res
}

func runCase(sc circ.Scenario, variant string, seed int) {
	name := hlib.Case("%s/rank%d/%s/challenges%d", sc.Name, sc.Rank, variant, seed)
	if !hlib.Want(name) {
		return
	}
	sym.Reset()
	chal := func(k int) *sym.Poly { return challenge(seed, k) }
	again := variant == "again"
	if again {
		// the second proof has other challenges but the same point
		p1, _ := sym.Explore(sym.AssumeEqual, 1, func() any { return reveal(sc, false, false) })
		n := len(p1[0].Chals)
		sym.Reset()
		chal = func(k int) *sym.Poly {
			switch {
			case n == 0 || k < n:
				return challenge(seed, k)
			case k%n == n-1:
				return challenge(seed, n-1)
			}
			return challenge(seed+50, k)
		}
	}
	sym.ChalFn = chal
	defer func() { sym.ChalFn = nil; sym.RandFn = nil; jindo.OnVerify = nil }()
	if variant == "sparse" {
		sym.RandFn = sparse
	}
	paths, complete := sym.Explore(sym.AssumeEqual, 40, func() any { return reveal(sc, !again, again) })
	if !complete {
		hlib.R.Notes = append(hlib.R.Notes, name+": 40 of the values of the bounded coordinate pairs compared")
	}
	for _, p := range paths {
		if p.Panic != nil {
			hlib.Reduce("%s: panic %v", name, p.Panic)
			return
		}
		if e := p.Result.(*view).Err; e != nil {
			hlib.Reduce("%s: %v", name, e)
			return
		}
	}
	v := paths[0].Result.(*view)
	// the affine part of the view
	var idx []int
	var rows []map[string]*sym.Poly
	var rest []*sym.Poly
	var nonlin []int
	for i, x := range v.Val {
		lin, r, ok := x.Affine("rand", "in")
		if !ok {
			nonlin = append(nonlin, i)
			continue
		}
		idx = append(idx, i)
		rows = append(rows, lin)
		rest = append(rest, r)
	}
	null := nullspace(rows)
	rank := len(rows) - len(null)
	sym.Debugf("%s: %d values, %d affine, rank %d, %d combinations free of randomness, %d other, %d equations\n", name, len(v.Val), len(rows), rank, len(null), len(nonlin), len(v.PC))
	comb := func(v *view, lam []*sym.Poly) *sym.Poly {
		acc := sym.ConstInt(0)
		for j, i := range idx {
			acc = sym.AddP(acc, sym.MulP(lam[j], v.Val[i]))
		}
		return acc
	}
	// no combination of revealed values may tell two witnesses of one statement apart
	for c, lam := range null {
		hlib.R.Obligations++
		l := comb(v, lam)
		what := "a combination of"
		for j, i := range idx {
			if !lam[j].IsZero() {
				what += " " + v.Names[i]
			}
		}
		leak := func(m1, m2 map[string]*big.Int) {
			// replay: two proofs of each witness
			vals := make([]*sym.Poly, 4)
			for k, m := range []map[string]*big.Int{m1, m1, m2, m2} {
				res, pan := sym.RunConcrete(&sym.Concrete{Model: m, Seed: k * 101}, func() any { return reveal(sc, false, again) })
				if pan != nil {
					hlib.Reduce("%s: replay: %v", name, pan)
					return
				}
				if e := res.(*view).Err; e != nil {
					hlib.Reduce("%s: replay: %v", name, e)
					return
				}
				vals[k] = comb(res.(*view), lam)
			}
			if sym.EqualP(vals[0], vals[1]) && sym.EqualP(vals[2], vals[3]) && !sym.EqualP(vals[0], vals[2]) {
				hlib.Violate(hlib.Violation{Key: fmt.Sprintf("%s/%s", sc.Name, what), Case: name,
					What:  "the proof reveals " + what + " that does not depend on the prover's randomness but on the witness",
					Model: hlib.Model(m1), Replay: fmt.Sprintf("two proofs of one witness give %s, two of another %s", vals[0], vals[2]), Real: true})
			} else {
				hlib.Reduce("%s: %s: leak does not replay", name, what)
			}
		}
		// different values of the enumerated coordinates
		bad := false
		for _, p := range paths[1:] {
			l2 := comb(p.Result.(*view), lam)
			same := len(p.Result.(*view).Pub) == len(v.Pub) && len(p.Result.(*view).Fork) == 0
			for i := range v.Pub {
				same = same && sym.EqualP(v.Pub[i], p.Result.(*view).Pub[i])
			}
			if same && !sym.EqualP(l, l2) {
				m1, m2 := map[string]*big.Int{}, map[string]*big.Int{}
				for k, x := range paths[0].Fixed {
					m1[k] = new(big.Int).Mod(big.NewInt(x), sym.P)
				}
				for k, x := range p.Fixed {
					m2[k] = new(big.Int).Mod(big.NewInt(x), sym.P)
				}
				leak(m1, m2)
				bad = true
				break
			}
		}
		if bad {
			continue
		}
		fs := []sym.Formula{sym.Ne(l, sym.Prime(l, "in", "'"))}
		for _, x := range v.Pub {
			fs = append(fs, sym.Eq(x, sym.Prime(x, "in", "'")))
		}
		r := sym.Solve(fs, fmt.Sprintf("%s: combination %d", name, c))
		switch r.Status {
		case "unsat":
			hlib.R.Discharged++
		case "sat":
			m1, m2 := map[string]*big.Int{}, map[string]*big.Int{}
			for k, x := range r.Model {
				if k[len(k)-1] == '\'' {
					m2[k[:len(k)-1]] = x
				} else {
					m1[k] = x
				}
			}
			leak(m1, m2)
		default:
			hlib.Reduce("%s: %s: unknown", name, what)
		}
	}
	forks(sc, name, paths, again)
	// every other value is determined by the affine ones and the public input
	if len(nonlin) > 0 && !again {
		hlib.R.Obligations++
		var fs, ne []sym.Formula
		sub := map[string]*sym.Poly{}
		for _, i := range nonlin {
			x := sym.NewVar(v.Names[i]+"'", "adv")
			sub[v.Names[i]] = x
			ne = append(ne, sym.Ne(sym.NewVar(v.Names[i], "adv"), x))
		}
		for _, q := range v.PC {
			fs = append(fs, sym.Eq(q, sym.ConstInt(0)), sym.Eq(sym.Subst(q, sub), sym.ConstInt(0)))
		}
		r := sym.Solve(append(fs, sym.Or(ne...)), name+": values determined by the verifier's equations")
		switch r.Status {
		case "unsat":
			hlib.R.Discharged++
		default:
			hlib.Reduce("%s: values that depend on products of witness and randomness are not determined by the others (%s)", name, r.Status)
		}
	}
	// masks (committed polynomials made of randomness only) hide every slot
	if variant != "sparse" && !again {
		for k, m := range v.Coms {
			same := len(m) > sc.Rank+1 // not a witness that happens to be constant
			for _, p := range paths[1:] {
				o := p.Result.(*view).Coms[k]
				same = same && len(o) == len(m)
				for j := 0; same && j < len(m); j++ {
					same = sym.EqualP(o[j], m[j])
				}
			}
			if !same {
				continue
			}
			maskUniform(sc, name, k, m)
		}
	}
	// the affine values are jointly uniform: independence for every point outside the domain
	if seed == 0 && !again {
		uniform(sc, name, len(paths[0].Chals), null, idx)
	}
	sym.ChalFn = chal
	// numbers: a concrete proof has the predicted values
	m := map[string]*big.Int{}
	for k, x := range paths[0].Fixed {
		m[k] = new(big.Int).Mod(big.NewInt(x), sym.P)
	}
	sym.RandFn = nil
	res, pan := sym.RunConcrete(&sym.Concrete{Model: m, Seed: 9}, func() any { return reveal(sc, false, again) })
	if pan == nil && res.(*view).Err == nil && len(res.(*view).Val) == len(v.Val) {
		good := true
		for _, lam := range null {
			a := comb(res.(*view), lam)
			b := sym.Subst(comb(v, lam), zeros(m))
			good = good && sym.EqualP(a, b)
		}
		if good {
			hlib.R.Validated++
		} else {
			hlib.Reduce("%s: a concrete proof differs from the symbolic one", name)
		}
	}
}

// forks: the prover must not blind some witnesses less than others. A combination of the
// values that is free of randomness on one path is so on every path.
func forks(sc circ.Scenario, name string, paths []*sym.Path, again bool) {
	v := paths[0].Result.(*view)
	for _, p := range paths[1:] {
		w := p.Result.(*view)
		if len(w.Fork) == 0 || len(w.Val) != len(v.Val) {
			continue
		}
		var idx []int
		var rows []map[string]*sym.Poly
		for i, x := range w.Val {
			if lin, _, ok := x.Affine("rand", "in"); ok {
				idx = append(idx, i)
				rows = append(rows, lin)
			}
		}
		comb := func(v *view, lam []*sym.Poly) *sym.Poly {
			acc := sym.ConstInt(0)
			for j, i := range idx {
				acc = sym.AddP(acc, sym.MulP(lam[j], v.Val[i]))
			}
			return acc
		}
		for _, lam := range nullspace(rows) {
			hlib.R.Obligations++
			l := comb(v, lam)
			if lin, _, ok := l.Affine("rand", "in"); ok && len(lin) == 0 {
				hlib.R.Discharged++
				continue
			}
			// both paths for one statement
			fs := append([]sym.Formula{}, v.Fork...)
			for _, f := range w.Fork {
				fs = append(fs, sym.MapF(f, func(q *sym.Poly) *sym.Poly { return sym.Prime(q, "in", "'") }))
			}
			for _, x := range v.Pub {
				fs = append(fs, sym.Eq(x, sym.Prime(x, "in", "'")))
			}
			r := sym.Solve(fs, name+": witnesses of both paths")
			if r.Status == "unsat" {
				hlib.R.Discharged++
				continue
			}
			if r.Status != "sat" {
				hlib.Reduce("%s: witnesses of two paths: unknown", name)
				continue
			}
			m1, m2 := map[string]*big.Int{}, map[string]*big.Int{}
			for k, x := range r.Model {
				if k[len(k)-1] == '\'' {
					m2[k[:len(k)-1]] = x
				} else {
					m1[k] = x
				}
			}
			vals := make([]*sym.Poly, 4)
			for k, m := range []map[string]*big.Int{m1, m1, m2, m2} {
				res, pan := sym.RunConcrete(&sym.Concrete{Model: m, Seed: k * 101}, func() any { return reveal(sc, false, again) })
				if pan != nil || res.(*view).Err != nil {
					hlib.Reduce("%s: replay of a path: %v", name, pan)
					return
				}
				vals[k] = comb(res.(*view), lam)
			}
			what := "a combination of"
			for j, i := range idx {
				if !lam[j].IsZero() {
					what += " " + v.Names[i]
				}
			}
			if !sym.EqualP(vals[0], vals[1]) && sym.EqualP(vals[2], vals[3]) {
				hlib.Violate(hlib.Violation{Key: fmt.Sprintf("%s/blinding of some witnesses", sc.Name), Case: name,
					What:  "the prover blinds some witnesses less than others: " + what + " is the same in all proofs of them",
					Model: hlib.Model(m2), Replay: fmt.Sprintf("two proofs of one witness give %s, %s; of another with the same statement %s twice", vals[0], vals[1], vals[2]), Real: true})
				return
			}
			hlib.Reduce("%s: %s: difference between paths does not replay", name, what)
		}
	}
}

// maskUniform: what is left of a mask modulo X^n-1, apart from its constant, is uniform.
func maskUniform(sc circ.Scenario, name string, k int, m []*sym.Poly) {
	n := sc.Rank
	rows := make([]map[string]*sym.Poly, n)
	for i := range rows {
		acc := sym.ConstInt(0)
		for j := i; j < len(m); j += n {
			acc = sym.AddP(acc, m[j])
		}
		lin, rest, ok := acc.Affine("rand", "in")
		if !ok || !rest.IsZero() {
			return // not a mask
		}
		rows[i] = lin
	}
	hlib.R.Obligations++
	sums := map[string]*sym.Poly{}
	var some, fs []sym.Formula
	for i := 1; i < n; i++ {
		l := sym.NewVar(fmt.Sprintf("lam%d", i), "adv")
		some = append(some, sym.Ne(l, sym.ConstInt(0)))
		for r, c := range rows[i] {
			if sums[r] == nil {
				sums[r] = sym.ConstInt(0)
			}
			sums[r] = sym.AddP(sums[r], sym.MulP(l, c))
		}
	}
	for _, s := range sums {
		fs = append(fs, sym.Eq(s, sym.ConstInt(0)))
	}
	what := fmt.Sprintf("commitment %d", k)
	r := sym.Solve(append(fs, sym.Or(some...)), name+": dependent slots of the mask in "+what)
	switch r.Status {
	case "unsat":
		hlib.R.Discharged++
	case "sat":
		// replay: the combination is the same in two proofs
		var vals []*sym.Poly
		for seed := range 2 {
			res, pan := sym.RunConcrete(&sym.Concrete{Seed: 1000 + seed}, func() any { return reveal(sc, false, false) })
			if pan != nil || res.(*view).Err != nil || k >= len(res.(*view).Coms) {
				break
			}
			acc := sym.ConstInt(0)
			for j, x := range res.(*view).Coms[k] {
				if l := r.Model[fmt.Sprintf("lam%d", j%n)]; l != nil && j%n != 0 {
					acc = sym.AddP(acc, sym.MulP(sym.ConstBig(l), x))
				}
			}
			vals = append(vals, acc)
		}
		if len(vals) == 2 && sym.EqualP(vals[0], vals[1]) {
			hlib.Violate(hlib.Violation{Key: fmt.Sprintf("%s/mask %d", sc.Name, k), Case: name,
				What: "the mask of " + what + " does not hide every slot: a combination of its slots is the same in every proof", Model: hlib.Model(r.Model),
				Replay: fmt.Sprintf("in two proofs it is %s", vals[0]), Real: true})
		} else {
			hlib.Reduce("%s: %s: dependent slots do not replay", name, what)
		}
	default:
		hlib.Reduce("%s: %s: unknown", name, what)
	}
}

func zeros(m map[string]*big.Int) map[string]*sym.Poly {
	o := map[string]*sym.Poly{}
	for _, n := range sym.NamesOf("in") {
		o[n] = sym.ConstInt(0)
	}
	for k, v := range m {
		o[k] = sym.ConstBig(v)
	}
	return o
}

// uniform asks for a point outside the domain at which some values become dependent.
func uniform(sc circ.Scenario, name string, nchal int, null [][]*sym.Poly, idx []int) {
	hlib.R.Obligations++
	var point *sym.Poly
	sym.ChalFn = func(k int) *sym.Poly {
		if k == nchal-1 {
			point = sym.NewVar("point", "chal")
			return point
		}
		return challenge(0, k)
	}
	paths, _ := sym.Explore(sym.AssumeEqual, 1, func() any { return reveal(sc, false, false) })
	p := paths[0]
	if p.Panic != nil || p.Result.(*view).Err != nil || point == nil {
		hlib.Reduce("%s: symbolic point: %v", name, p.Panic)
		return
	}
	v := p.Result.(*view)
	// drop one value per known dependency
	drop := map[int]bool{}
	for _, lam := range null {
		for j := len(lam) - 1; j >= 0; j-- {
			if !lam[j].IsZero() && !drop[j] {
				drop[j] = true
				break
			}
		}
	}
	sums := map[string]*sym.Poly{}
	var some []sym.Formula
	for j, i := range idx {
		if drop[j] {
			continue
		}
		lin, _, ok := v.Val[i].Affine("rand", "in")
		if !ok {
			hlib.Reduce("%s: %s is not affine for a symbolic point", name, v.Names[i])
			return
		}
		l := sym.NewVar(fmt.Sprintf("lam%d", j), "adv")
		some = append(some, sym.Ne(l, sym.ConstInt(0)))
		for k, c := range lin {
			if sums[k] == nil {
				sums[k] = sym.ConstInt(0)
			}
			sums[k] = sym.AddP(sums[k], sym.MulP(l, c))
		}
	}
	if len(some) == 0 {
		hlib.R.Discharged++
		return
	}
	fs := []sym.Formula{sym.Ne(sym.PowP(point, int32(sc.Rank)), sym.ConstInt(1)), sym.Ne(point, sym.ConstInt(0)), sym.Or(some...)}
	for _, s := range sums {
		fs = append(fs, sym.Eq(s, sym.ConstInt(0)))
	}
	r := sym.Solve(fs, name+": dependent for some point")
	switch r.Status {
	case "unsat":
		hlib.R.Discharged++
	default:
		hlib.Reduce("%s: independence for every point: %s", name, r.Status)
	}
}

// sparse keeps only some random values symbolic: those drawn first (one for each witness)
// and a sample of the masks. The others are fixed numbers, so the proof is shown to be blind
// already by the symbolic ones.
func sparse(k int) *sym.Poly {
	if k <= 40 || k%401 == 0 {
		return nil
	}
	return challenge(77, k)
}

func main() {
	defer hlib.Write()
	hlib.R.Functions = []string{"buckler.Prover.Prove", "buckler.Encoder.RandEncodeTo", "buckler.Prover.sumCheckMask", "buckler.Verifier.Verify"}
	// the approximate norm bound commits witnesses in a second round, at this rank only
	jindo.RankOf = func(t, b int) int { return t + 5 }
	for i, b := range []uint64{1, 2} {
		if i == 0 || hlib.Thorough() {
			runCase(circ.ApproxBits(2048, b), "sparse", 1)
		}
	}
	ns := []int{4}
	seeds := 2
	if hlib.Thorough() {
		ns, seeds = []int{4, 8}, 4
	}
	for _, n := range ns {
		scs := circ.Sound(n)
		if n == 4 {
			scs = append(scs, circ.Shapes(n, 0, map[bool]int{false: 12, true: 100}[hlib.Thorough()])...)
		}
		for _, sc := range scs {
			for _, v := range []string{"exact", "roundup"} {
				if v == "exact" {
					jindo.RankOf = func(t, b int) int { return t }
				} else {
					jindo.RankOf = func(t, b int) int { return t + 5 }
				}
				for s := range seeds {
					runCase(sc, v, s)
				}
				if v == "exact" {
					runCase(sc, "again", 5)
				}
			}
		}
	}
}
