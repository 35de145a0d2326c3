package sym

import (
	"math/big"
	"sort"
)

// Degs groups p by the exponent of one variable.
func (p *Poly) Degs(name string) map[int32]*Poly {
	id, ok := tab.byName[name]
	acc := map[int32]map[int32]Fe{}
	for _, t := range p.t {
		var rest []ve
		var e int32
		for _, x := range tab.monos[t.m] {
			if ok && x.v == id {
				e = x.e
			} else {
				rest = append(rest, x)
			}
		}
		if acc[e] == nil {
			acc[e] = map[int32]Fe{}
		}
		m := internMono(rest)
		acc[e][m] = feAdd(acc[e][m], t.c)
	}
	out := map[int32]*Poly{}
	for k, v := range acc {
		if q := fromMap(v); !q.IsZero() {
			out[k] = q
		}
	}
	return out
}

// Sorted returns the values of Degs in increasing exponent.
func Sorted(m map[int32]*Poly) []*Poly {
	var ks []int
	for k := range m {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var out []*Poly
	for _, k := range ks {
		out = append(out, m[int32(k)])
	}
	return out
}

func coeffAt(p *Poly, m int32) Fe {
	i := sort.Search(len(p.t), func(i int) bool { return p.t[i].m >= m })
	if i < len(p.t) && p.t[i].m == m {
		return p.t[i].c
	}
	return Fe{}
}

// RREF reduces a set of polynomials, as vectors over their monomials.
func RREF(eqs []*Poly) []*Poly {
	var rows []*Poly
	var piv []int32
	for _, p := range eqs {
		for i, r := range rows {
			if c := coeffAt(p, piv[i]); !c.IsZero() {
				p = AddP(p, ScaleP(r, feNeg(c)))
			}
		}
		if p.IsZero() {
			continue
		}
		// the pivot: the monomial of the largest id
		l := p.t[len(p.t)-1]
		p = ScaleP(p, feInv(l.c))
		for i, r := range rows {
			if c := coeffAt(r, l.m); !c.IsZero() {
				rows[i] = AddP(r, ScaleP(p, feNeg(c)))
			}
		}
		rows = append(rows, p)
		piv = append(piv, l.m)
	}
	return rows
}

// split separates the part of p that is linear in the selected variables (with constant
// coefficients) from the rest; ok is false if they occur otherwise.
func split(p *Poly, sel func(Var) bool) (lin map[int32]Fe, ok bool) {
	lin = map[int32]Fe{}
	for _, t := range p.t {
		m := tab.monos[t.m]
		n := 0
		for _, x := range m {
			if sel(tab.vars[x.v]) {
				n++
			}
		}
		if n == 0 {
			continue
		}
		if len(m) != 1 || m[0].e != 1 {
			return nil, false
		}
		lin[m[0].v] = t.c
	}
	return lin, true
}

// Eliminate returns generators of the linear combinations of eqs that do not contain the
// selected variables, which must occur linearly with constant coefficients.
func Eliminate(eqs []*Poly, sel func(Var) bool) (free []*Poly, ok bool) {
	rows := append([]*Poly(nil), eqs...)
	for {
		// find a row with a selected variable
		pi := -1
		var pv int32
		var pc Fe
		for i, r := range rows {
			lin, ok := split(r, sel)
			if !ok {
				return nil, false
			}
			if len(lin) > 0 {
				pi = i
				first := true
				for v, c := range lin {
					if first || v < pv {
						pv, pc, first = v, c, false
					}
				}
				break
			}
		}
		if pi < 0 {
			return rows, true
		}
		pr := ScaleP(rows[pi], feInv(pc))
		rows = append(rows[:pi:pi], rows[pi+1:]...)
		mono := internMono([]ve{{pv, 1}})
		for i, r := range rows {
			if c := coeffAt(r, mono); !c.IsZero() {
				rows[i] = AddP(r, ScaleP(pr, feNeg(c)))
			}
		}
		var keep []*Poly
		for _, r := range rows {
			if !r.IsZero() {
				keep = append(keep, r)
			}
		}
		rows = keep
	}
}

// SolveLinear solves a system of affine equations; variables that stay free become zero.
func SolveLinear(eqs []*Poly) (map[string]*big.Int, bool) {
	rows := RREF(eqs)
	// RREF may have taken the constant monomial as a pivot: unsolvable
	sol := map[string]*big.Int{}
	for _, r := range rows {
		l := r.t[len(r.t)-1]
		if l.m == 0 {
			return nil, false
		}
		m := tab.monos[l.m]
		if len(m) != 1 || m[0].e != 1 {
			return nil, false
		}
		// the other variables of the row are free (zero): value = -constant
		sol[tab.vars[m[0].v].Name] = feNeg(coeffAt(r, 0)).Big()
	}
	return sol, true
}

// Names of the variables currently declared, by kind.
func NamesOf(kind string) []string {
	var out []string
	for _, v := range tab.vars {
		if v.Kind == kind {
			out = append(out, v.Name)
		}
	}
	return out
}

// Root returns a primitive n-th root of unity (n a power of two).
func Root(n int) *big.Int {
	e := new(big.Int).Div(new(big.Int).Sub(P, big.NewInt(1)), big.NewInt(int64(n)))
	for x := int64(2); ; x++ {
		g := new(big.Int).Exp(big.NewInt(x), e, P)
		if n == 1 || new(big.Int).Exp(g, big.NewInt(int64(n/2)), P).Cmp(big.NewInt(1)) != 0 {
			return g
		}
	}
}

// ConstBig is the constant polynomial of x.
func ConstBig(x *big.Int) *Poly { return ConstPoly(FeFromBig(x)) }

// RREFBy is RREF with pivots taken among the monomials with a selected variable first:
// the rows without one generate all combinations without them.
func RREFBy(eqs []*Poly, sel func(Var) bool) []*Poly {
	cls := map[int32]bool{}
	isSel := func(m int32) bool {
		if v, ok := cls[m]; ok {
			return v
		}
		r := false
		for _, x := range tab.monos[m] {
			if sel(tab.vars[x.v]) {
				r = true
			}
		}
		cls[m] = r
		return r
	}
	var rows []*Poly
	var piv []int32
	for _, p := range eqs {
		for i, r := range rows {
			if c := coeffAt(p, piv[i]); !c.IsZero() {
				p = AddP(p, ScaleP(r, feNeg(c)))
			}
		}
		if p.IsZero() {
			continue
		}
		l := p.t[len(p.t)-1]
		for i := len(p.t) - 1; i >= 0; i-- {
			if isSel(p.t[i].m) {
				l = p.t[i]
				break
			}
		}
		p = ScaleP(p, feInv(l.c))
		for i, r := range rows {
			if c := coeffAt(r, l.m); !c.IsZero() {
				rows[i] = AddP(r, ScaleP(p, feNeg(c)))
			}
		}
		rows = append(rows, p)
		piv = append(piv, l.m)
	}
	return rows
}

// Prime renames the variables of the given kind (adding a suffix, keeping rules).
func Prime(p *Poly, kind, suffix string) *Poly {
	sub := map[string]*Poly{}
	for _, n := range p.Vars() {
		v := tab.vars[tab.byName[n]]
		if v.Kind == kind {
			sub[n] = NewVarRule(n+suffix, kind, v.Deg, v.To)
		}
	}
	if len(sub) == 0 {
		return p
	}
	return Subst(p, sub)
}

// Affine splits p into coefficients of the variables of one kind and the rest; ok is
// false if they occur non-linearly or with coefficients containing variables of kind bad.
func (p *Poly) Affine(kind, bad string) (lin map[string]*Poly, rest *Poly, ok bool) {
	acc := map[string]map[int32]Fe{}
	rm := map[int32]Fe{}
	for _, t := range p.t {
		var others []ve
		name := ""
		hasBad := false
		for _, x := range tab.monos[t.m] {
			va := &tab.vars[x.v]
			switch {
			case va.Kind == kind:
				if name != "" || x.e != 1 {
					return nil, nil, false
				}
				name = va.Name
			default:
				hasBad = hasBad || va.Kind == bad
				others = append(others, x)
			}
		}
		if name == "" {
			rm[t.m] = t.c
			continue
		}
		if hasBad {
			return nil, nil, false
		}
		if acc[name] == nil {
			acc[name] = map[int32]Fe{}
		}
		m := internMono(others)
		acc[name][m] = feAdd(acc[name][m], t.c)
	}
	lin = map[string]*Poly{}
	for k, v := range acc {
		if q := fromMap(v); !q.IsZero() {
			lin[k] = q
		}
	}
	return lin, fromMap(rm), true
}
