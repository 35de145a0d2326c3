package main

import (
	"math/big"
	"math/rand"
	"sort"
)

// guess looks for a model by evaluation at a few points, before the solver is asked: where
// most values satisfy a query, finding one of them takes the solver long when the terms
// are large. A model found here is exact; none is found for what is unsatisfiable.
type guess struct {
	u    *U
	r    *rand.Rand
	kind int
	last map[string]*big.Int
	val  map[int]*big.Int
	bad  bool
}

func (g *guess) atom(id int) *big.Int {
	if v, ok := g.val[id]; ok {
		return v
	}
	if g.bad {
		return b0
	}
	u := g.u
	a := u.atoms[id]
	var v *big.Int
	switch a.kind {
	case 'v':
		if b, ok := u.bal[id]; ok {
			v = new(big.Int).Mod(g.term(b.red), b.Q)
			if new(big.Int).Lsh(v, 1).Cmp(b.Q) > 0 {
				v.Sub(v, b.Q)
			}
		} else if t, ok := u.rems[id]; ok {
			v = new(big.Int).Mod(g.term(t.t), t.m)
		} else {
			v = g.free(a)
		}
	case 'f':
		v = floorDiv(g.term(a.num), a.m)
	case 'i':
		if g.f(a.cond) {
			v = g.term(a.a)
		} else {
			v = g.term(a.b)
		}
	case 'q':
		switch a.op {
		case 'o':
			v = new(big.Int).Or(g.term(a.xa), g.term(a.xb))
		case 'x':
			v = new(big.Int).Xor(g.term(a.xa), g.term(a.xb))
		default:
			v = g.term(a.num)
		}
	case 's':
		n := g.term(a.num)
		if n.Sign() < 0 {
			g.bad = true
			return b0
		}
		v = new(big.Int).Sqrt(n)
	default:
		g.bad = true
		return b0
	}
	if v.Cmp(a.lo) < 0 || v.Cmp(a.hi) > 0 {
		g.bad = true
	}
	g.val[id] = v
	return v
}

func (g *guess) free(a *Atom) *big.Int {
	clamp := func(x *big.Int) *big.Int { return maxB(a.lo, minB(a.hi, x)) }
	switch g.kind {
	case 0:
		if x, ok := g.last[a.name]; ok && x != nil {
			return clamp(x)
		}
		return clamp(b0)
	case 1:
		return clamp(b0)
	case 2:
		return clamp(b1)
	case 3:
		return a.hi
	case 4:
		return a.lo
	case 5:
		return clamp(bi(g.r.Int63n(40) - 20))
	}
	w := new(big.Int).Sub(a.hi, a.lo)
	w.Add(w, b1)
	x := new(big.Int).Rand(g.r, w)
	return x.Add(x, a.lo)
}

func (g *guess) term(t *Term) *big.Int {
	s := new(big.Int)
	p := new(big.Int)
	for _, m := range t.ms {
		p.Set(m.c)
		for _, a := range m.atoms {
			p.Mul(p, g.atom(a))
		}
		s.Add(s, p)
	}
	return s
}

func (g *guess) f(f *F) bool {
	switch f.op {
	case 't':
		return true
	case 'l':
		return g.term(f.t).Sign() <= 0
	case 'e':
		return g.term(f.t).Sign() == 0
	case '!':
		return !g.f(f.sub[0])
	case '&':
		for _, s := range f.sub {
			if !g.f(s) {
				return false
			}
		}
		return true
	case '|':
		for _, s := range f.sub {
			if g.f(s) {
				return true
			}
		}
		return false
	}
	g.bad = true
	return false
}

// try evaluates a candidate.
func (g *guess) try(fs []*F, order []int) bool {
	for i := len(fs) - 1; i >= 0; i-- {
		if !g.f(fs[i]) || g.bad {
			return false
		}
	}
	for _, id := range order {
		if g.atom(id); g.bad {
			return false
		}
	}
	return true
}

// guess returns the values of the variables of a model, if one is met. The goal is the
// last formula.
func (s *Solver) guess(fs []*F, order []int) map[int]*big.Int {
	for _, id := range order {
		if s.u.atoms[id].kind == 'd' {
			return nil
		}
	}
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 8; k++ {
		g := &guess{u: s.u, r: r, kind: k, last: s.last, val: map[int]*big.Int{}}
		if g.try(fs, order) {
			return g.val
		}
	}
	// one variable of the goal is another than in the last model
	var ids []int
	for id := range s.atomsOf(fs[len(fs)-1]) {
		a := s.u.atoms[id]
		_, bal := s.u.bal[id]
		_, rem := s.u.rems[id]
		if a.kind == 'v' && !bal && !rem {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for k := 0; k < 48 && len(ids) > 0; k++ {
		id := ids[r.Intn(len(ids))]
		if len(ids) <= 24 {
			id = ids[k/2%len(ids)]
		}
		a := s.u.atoms[id]
		g := &guess{u: s.u, r: r, kind: 0, last: s.last, val: map[int]*big.Int{}}
		x := maxB(a.lo, minB(a.hi, b1))
		if k%2 == 1 {
			w := new(big.Int).Sub(a.hi, a.lo)
			x = w.Add(w.Rand(r, w.Add(w, b1)), a.lo)
		} else if l := s.last[a.name]; l != nil && l.Cmp(x) == 0 {
			x = maxB(a.lo, b0)
		}
		g.val[id] = x
		if g.try(fs, order) {
			return g.val
		}
	}
	return nil
}
