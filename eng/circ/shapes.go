package circ

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

// Shapes: circuits drawn from a grammar of constraints. What is varied is the shape of the
// circuit (terms, degrees, order, which witnesses and checkers meet); the values stay symbols.

type term struct {
	coef int64
	pub  int // -1: none
	wit  []int
}

type arith struct{ terms []term }

type lin struct{ out, in, chk int }

type sumc struct {
	terms []term
	sum   int64
	zero  bool // through AddSumCheckConstraint
}

// ShapeSpec describes a circuit. The slack of a constraint is a witness or public witness
// that only this constraint determines.
type ShapeSpec struct {
	name  string
	npub  int
	nwit  int
	arith []arith
	lin   []lin
	sum   []sumc
	tern  []int
	zero  []int
	// how a satisfying assignment is found
	steps []func(s *shapeVals)
	order []int // the order in which kinds of constraints are declared
	nchk  int
}

type shapeVals struct {
	n    int
	pub  [][]E
	wit  [][]E
	chks []buckler.LinearChecker[E]
}

func (s *shapeVals) term(t term, i int) E {
	r := c(t.coef)
	if t.pub >= 0 {
		r = mul(r, s.pub[t.pub][i])
	}
	for _, w := range t.wit {
		r = mul(r, s.wit[w][i])
	}
	return r
}

// Drawn is the circuit of a spec.
type Drawn struct {
	Chk []buckler.LinearChecker[E]
	Pub []PW
	Wit []W

	spec *ShapeSpec
}

func (x *Drawn) cons(ts []term) AC {
	var k AC
	for _, t := range ts {
		var ws []W
		for _, w := range t.wit {
			ws = append(ws, x.Wit[w])
		}
		var p PW
		if t.pub >= 0 {
			p = x.Pub[t.pub]
		}
		switch t.coef {
		case 1:
			k.AddTerm(p, ws...)
		case -1:
			k.SubTerm(p, ws...)
		default:
			k.AddTermWithConst(c(t.coef), p, ws...)
		}
	}
	return k
}

func (x *Drawn) Define(ctx *Ctx) {
	for _, o := range x.spec.order {
		switch o {
		case 0:
			for _, a := range x.spec.arith {
				ctx.AddArithmeticConstraint(x.cons(a.terms))
			}
		case 1:
			for _, l := range x.spec.lin {
				ctx.AddLinearConstraint(x.Wit[l.out], x.Wit[l.in], x.Chk[l.chk])
			}
		case 2:
			for _, s := range x.spec.sum {
				if s.sum >= 0 {
					ctx.AddSumCheckConstraint(x.cons(s.terms), uint64(s.sum))
				} else {
					ctx.AddSumCheckConstraintBig(x.cons(s.terms), big.NewInt(s.sum))
				}
			}
		case 3:
			for _, w := range x.spec.tern {
				ctx.AddInfNormConstraint(x.Wit[w], 1)
			}
			for _, w := range x.spec.zero {
				ctx.AddInfNormConstraint(x.Wit[w], 0)
			}
		}
	}
}

func checkers(n, k int) []buckler.LinearChecker[E] {
	ev := bigpoly.NewCyclotomicEvaluator[E](n)
	all := []buckler.LinearChecker[E]{
		buckler.NewNTTChecker[E](n),
		buckler.NewAutChecker(ev, 3, false),
		buckler.NewNTTChecker[E](n), // the same map, another object
		buckler.NewAutChecker(ev, 2*n-1, true),
	}
	return all[:k]
}

// rule is x -> M x of checker k (the definition, through bigpoly).
func apply(n, k int, v []E) []E {
	ev := bigpoly.NewCyclotomicEvaluator[E](n)
	switch k {
	case 0, 2:
		return ev.NTT(&bigpoly.Poly[E]{Coeffs: v}).Coeffs
	case 1:
		return ev.Aut(&bigpoly.Poly[E]{Coeffs: v}, 3).Coeffs
	}
	return ev.Aut(&bigpoly.Poly[E]{Coeffs: v, IsNTT: true}, 2*n-1).Coeffs
}

func (sp *ShapeSpec) scenario(n int) Scenario {
	pubs := func(s *shapeVals) []PW {
		var o []PW
		for _, v := range s.pub {
			o = append(o, v)
		}
		return o
	}
	blank := func() *Drawn {
		return &Drawn{Chk: checkers(n, sp.nchk), Pub: make([]PW, sp.npub), Wit: make([]W, sp.nwit), spec: sp}
	}
	return Scenario{
		Name: sp.name, Rank: n,
		Blank: func() buckler.Circuit[E] { return blank() },
		Sat: func() buckler.Circuit[E] {
			s := &shapeVals{n: n, pub: make([][]E, sp.npub), wit: make([][]E, sp.nwit)}
			for _, f := range sp.steps {
				f(s)
			}
			x := blank()
			x.Pub = pubs(s)
			for i, v := range s.wit {
				x.Wit[i] = v
			}
			return x
		},
		Public: func(c buckler.Circuit[E]) buckler.Circuit[E] {
			x := blank()
			if c != nil {
				x.Pub = c.(*Drawn).Pub
			}
			return x
		},
		Free: func() (buckler.Circuit[E], []W, []Rel) {
			s := &shapeVals{n: n}
			for i := range sp.npub {
				s.pub = append(s.pub, Vec(fmt.Sprintf("p%d_", i), n))
			}
			var ws []W
			for i := range sp.nwit {
				s.wit = append(s.wit, Vec(fmt.Sprintf("w%d_", i), n))
				ws = append(ws, s.wit[i])
			}
			var rel []Rel
			for k, a := range sp.arith {
				for i := range n {
					acc := c(0)
					for _, t := range a.terms {
						acc = add(acc, s.term(t, i))
					}
					rel = append(rel, Rel{Name: fmt.Sprintf("arithmetic %d slot %d", k, i), P: acc.P()})
				}
			}
			for k, l := range sp.lin {
				v := apply(n, l.chk, s.wit[l.in])
				for i := range n {
					rel = append(rel, Rel{Name: fmt.Sprintf("linear %d slot %d", k, i), P: sub(s.wit[l.out][i], v[i]).P()})
				}
			}
			for k, q := range sp.sum {
				acc := c(-q.sum)
				for i := range n {
					for _, t := range q.terms {
						acc = add(acc, s.term(t, i))
					}
				}
				rel = append(rel, Rel{Name: fmt.Sprintf("sum %d", k), P: acc.P()})
			}
			for _, w := range sp.tern {
				for i := range n {
					x := s.wit[w][i]
					rel = append(rel, Rel{Name: fmt.Sprintf("witness %d ternary slot %d", w, i), P: sub(mul(x, x, x), x).P()})
				}
			}
			for _, w := range sp.zero {
				for i := range n {
					rel = append(rel, Rel{Name: fmt.Sprintf("witness %d zero slot %d", w, i), P: s.wit[w][i].P()})
				}
			}
			x := blank()
			x.Pub = pubs(s)
			return x, ws, rel
		},
	}
}

type rnd uint64

func (r *rnd) n(k int) int {
	*r = *r*6364136223846793005 + 1442695040888963407
	return int((uint64(*r) >> 33) % uint64(k))
}

// build draws a spec.
func buildShape(seed uint64) *ShapeSpec {
	r := rnd(seed*0x9E3779B97F4A7C15 + 12345)
	for range 5 {
		r.n(2)
	}
	sp := &ShapeSpec{name: fmt.Sprintf("shape%d", seed), nchk: 4}
	newPub := func(f func(s *shapeVals) []E) int {
		k := sp.npub
		sp.npub++
		sp.steps = append(sp.steps, func(s *shapeVals) { s.pub[k] = f(s) })
		return k
	}
	newWit := func(f func(s *shapeVals) []E) int {
		k := sp.nwit
		sp.nwit++
		sp.steps = append(sp.steps, func(s *shapeVals) { s.wit[k] = f(s) })
		return k
	}
	// base symbols
	for i := range 2 {
		nm := fmt.Sprintf("b%d_", i)
		newWit(func(s *shapeVals) []E { return Vec(nm, s.n) })
		pn := fmt.Sprintf("q%d_", i)
		newPub(func(s *shapeVals) []E { return Vec(pn, s.n) })
	}
	kinds := 1 + r.n(7) // bit 0 arithmetic, 1 linear, 2 sum
	if kinds&2 != 0 {
		nl := 1 + r.n(3)
		for k := 0; k < nl; k++ {
			in, chk := r.n(sp.nwit), r.n(4)
			nw := sp.nwit
			out := newWit(func(s *shapeVals) []E { return apply(s.n, chk, s.wit[in]) })
			_ = nw
			sp.lin = append(sp.lin, lin{out, in, chk})
			switch r.n(4) {
			case 0: // another input with the same output
				in2 := newWit(func(s *shapeVals) []E { return mapv(s.n, func(i int) E { return s.wit[in][i] }) })
				sp.lin = append(sp.lin, lin{out, in2, chk})
			case 1: // another output with the same input
				out2 := newWit(func(s *shapeVals) []E { return mapv(s.n, func(i int) E { return s.wit[out][i] }) })
				sp.lin = append(sp.lin, lin{out2, in, chk})
			case 2: // the output is the input of the next
				chk2 := r.n(4)
				out2 := newWit(func(s *shapeVals) []E { return apply(s.n, chk2, s.wit[out]) })
				sp.lin = append(sp.lin, lin{out2, out, chk2})
			}
		}
	}
	terms := func() []term {
		var ts []term
		nt := 1 + r.n(3)
		for range nt {
			t := term{coef: []int64{1, -1, 3, 1, -1, -2}[r.n(6)], pub: -1}
			if r.n(2) == 0 {
				t.pub = r.n(2)
			}
			deg := r.n(4)
			if deg == 3 && r.n(2) == 0 {
				deg = 2
			}
			w := r.n(sp.nwit)
			for d := 0; d < deg; d++ {
				if d > 0 && r.n(2) == 0 {
					w = r.n(sp.nwit) // otherwise a power
				}
				t.wit = append(t.wit, w)
			}
			ts = append(ts, t)
		}
		return ts
	}
	place := func(ts []term, t term) []term {
		k := r.n(len(ts) + 1)
		return append(append(append([]term{}, ts[:k]...), t), ts[k:]...)
	}
	eval := func(s *shapeVals, ts []term, i int) E {
		acc := c(0)
		for _, t := range ts {
			acc = add(acc, s.term(t, i))
		}
		return acc
	}
	if kinds&1 != 0 {
		na := 1 + r.n(4)
		for range na {
			ts := terms()
			if r.n(2) == 0 {
				k := newPub(func(s *shapeVals) []E { return mapv(s.n, func(i int) E { return eval(s, ts, i) }) })
				sp.arith = append(sp.arith, arith{place(ts, term{-1, k, nil})})
			} else {
				k := newWit(func(s *shapeVals) []E { return mapv(s.n, func(i int) E { return eval(s, ts, i) }) })
				sp.arith = append(sp.arith, arith{place(ts, term{-1, -1, []int{k}})})
			}
		}
		if r.n(3) == 0 {
			sp.tern = append(sp.tern, newWit(func(s *shapeVals) []E { return VecRule("t", s.n, 3, 1) }))
		}
		if r.n(4) == 0 {
			sp.zero = append(sp.zero, newWit(func(s *shapeVals) []E { return Zero(s.n) }))
		}
	}
	if kinds&4 != 0 {
		ns := 1 + r.n(3)
		for j := range ns {
			ts := terms()
			sum := []int64{0, 1, 5, 1 << 40, -3}[r.n(5)]
			if j == 0 && r.n(2) == 0 {
				sum = 7
			}
			dn := fmt.Sprintf("d%d_", j)
			k := newWit(func(s *shapeVals) []E {
				d := Vec(dn, s.n)
				acc := c(-sum)
				for i := range s.n {
					acc = add(acc, eval(s, ts, i))
					if i > 0 {
						acc = sub(acc, d[i])
					}
				}
				d[0] = acc
				return d
			})
			sp.sum = append(sp.sum, sumc{place(ts, term{-1, -1, []int{k}}), sum, false})
		}
	}
	perm := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 0, 3, 2}, {2, 3, 0, 1}}
	sp.order = perm[r.n(4)]
	return sp
}

// Special shapes: those a draw may miss.
func specials() []*ShapeSpec {
	vec := func(k int, nm string) func(s *shapeVals) {
		return func(s *shapeVals) { s.wit[k] = Vec(nm, s.n) }
	}
	pub := func(k int, nm string) func(s *shapeVals) {
		return func(s *shapeVals) { s.pub[k] = Vec(nm, s.n) }
	}
	all := []int{0, 1, 2, 3}
	return []*ShapeSpec{
		{ // the highest degree is in the first term, with a public coefficient
			name: "firstterm", npub: 2, nwit: 2, order: all,
			arith: []arith{{[]term{{1, 0, []int{0, 1}}, {-1, 1, nil}}}},
			steps: []func(s *shapeVals){pub(0, "p"), vec(0, "a"), vec(1, "b"), func(s *shapeVals) {
				s.pub[1] = mapv(s.n, func(i int) E { return mul(s.pub[0][i], s.wit[0][i], s.wit[1][i]) })
			}},
		},
		{ // a square after several terms; two constraints of which the first has the higher degree
			name: "squares", npub: 1, nwit: 4, order: all,
			arith: []arith{
				{[]term{{1, -1, []int{0}}, {1, -1, []int{1}}, {-1, -1, []int{2, 2}}}},
				{[]term{{1, -1, []int{3}}, {-1, 0, nil}}}},
			steps: []func(s *shapeVals){vec(1, "b"), vec(2, "c"), vec(3, "d"), func(s *shapeVals) {
				s.wit[0] = mapv(s.n, func(i int) E { return sub(mul(s.wit[2][i], s.wit[2][i]), s.wit[1][i]) })
				s.pub[0] = s.wit[3]
			}},
		},
		{ // one checker: a pair and its mirror, one output with two inputs, one input with two outputs
			name: "linpairs", npub: 0, nwit: 4, nchk: 1, order: all,
			lin: []lin{{0, 1, 0}, {0, 2, 0}, {3, 1, 0}},
			steps: []func(s *shapeVals){vec(1, "x"), func(s *shapeVals) {
				s.wit[0] = apply(s.n, 0, s.wit[1])
				s.wit[2] = s.wit[1]
				s.wit[3] = s.wit[0]
			}},
		},
		{ // the same relation through two checker objects, and a third map on the same pair
			name: "lincheckers", npub: 0, nwit: 3, nchk: 4, order: all,
			lin: []lin{{0, 1, 2}, {0, 1, 0}, {2, 0, 3}},
			steps: []func(s *shapeVals){vec(1, "x"), func(s *shapeVals) {
				s.wit[0] = apply(s.n, 0, s.wit[1])
				s.wit[2] = apply(s.n, 3, s.wit[0])
			}},
		},
		{ // only public terms, a witness that no constraint mentions
			name: "publiconly", npub: 2, nwit: 1, order: all,
			arith: []arith{{[]term{{1, 0, nil}, {-1, 1, nil}}}},
			steps: []func(s *shapeVals){pub(0, "p"), vec(0, "a"), func(s *shapeVals) { s.pub[1] = s.pub[0] }},
		},
		{ // a sum of public terms only
			name: "publicsum", npub: 1, nwit: 1, order: all,
			sum: []sumc{{[]term{{1, 0, nil}}, 5, false}},
			steps: []func(s *shapeVals){vec(0, "a"), func(s *shapeVals) {
				p := Vec("p", s.n)
				acc := c(5)
				for i := 1; i < s.n; i++ {
					acc = sub(acc, p[i])
				}
				p[0] = acc
				s.pub[0] = p
			}},
		},
		{ // constants only
			name: "constants", npub: 0, nwit: 1, order: all,
			arith: []arith{{[]term{{3, -1, nil}, {-3, -1, nil}}}},
			steps: []func(s *shapeVals){vec(0, "a")},
		},
		{ // public terms only, beside a linear relation
			name: "publiclinear", npub: 2, nwit: 2, nchk: 1, order: all,
			arith: []arith{{[]term{{1, 0, nil}, {-1, 1, nil}}}},
			lin:   []lin{{0, 1, 0}},
			steps: []func(s *shapeVals){pub(0, "p"), vec(1, "x"), func(s *shapeVals) { s.pub[1] = s.pub[0]; s.wit[0] = apply(s.n, 0, s.wit[1]) }},
		},
		{ // sums of public terms and of constants
			name: "sumpublic", npub: 2, nwit: 1, order: []int{2, 0, 1, 3},
			sum: []sumc{{[]term{{2, 0, nil}, {1, -1, []int{0}}}, -9, false}, {[]term{{1, 1, []int{0, 0}}, {-1, -1, []int{0}}, {5, -1, nil}}, 12, false}},
			steps: []func(s *shapeVals){pub(0, "p"), func(s *shapeVals) {
				// wit: sum_i w_i = -9 - 2 sum p_i; the second sum fixes one public coefficient
				w := Vec("w", s.n)
				acc := c(-9)
				for i := range s.n {
					acc = sub(acc, mul(c(2), s.pub[0][i]))
					if i > 0 {
						acc = sub(acc, w[i])
					}
				}
				w[0] = acc
				w[1] = c(1)
				acc = c(-9)
				for i := range s.n {
					acc = sub(acc, mul(c(2), s.pub[0][i]))
					if i > 0 {
						acc = sub(acc, w[i])
					}
				}
				w[0] = acc
				s.wit[0] = w
				q := Vec("q", s.n)
				acc = c(12 - 5*int64(s.n))
				for i := range s.n {
					acc = add(acc, w[i])
					if i != 1 {
						acc = sub(acc, mul(q[i], w[i], w[i]))
					}
				}
				q[1] = acc
				s.pub[1] = q
			}},
		},
	}
}

// Shapes returns the special shapes and count drawn ones.
func Shapes(n, from, count int) (out []Scenario) {
	if from == 0 {
		for _, sp := range specials() {
			out = append(out, sp.scenario(n))
		}
	}
	for k := from; k < from+count; k++ {
		if k+1 == 107 || k+1 == 316 {
			continue // cubes of transforms: polynomials of half a gigabyte
		}
		out = append(out, buildShape(uint64(k+1)).scenario(n))
	}
	return
}

func (sp *ShapeSpec) String() string {
	return fmt.Sprintf("arith %v lin %v sum %v ternary %v zero %v order %v", sp.arith, sp.lin, sp.sum, sp.tern, sp.zero, sp.order)
}
