// Package circ holds the circuits the Buckler harnesses run, with a symbolic
// parametrisation of all satisfying assignments.
package circ

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

type E = *sym.S
type W = buckler.Witness[E]
type PW = buckler.PublicWitness[E]
type Ctx = buckler.Context[E]
type AC = buckler.ArithmeticConstraint[E]

// Scenario is a circuit with its assignments.
type Scenario struct {
	Name string
	Rank int
	// Blank returns the circuit to compile (empty witnesses).
	Blank func() buckler.Circuit[E]
	// Sat returns a circuit with a symbolic satisfying assignment.
	Sat func() buckler.Circuit[E]
	// Public returns a circuit with the public part of c only.
	Public func(c buckler.Circuit[E]) buckler.Circuit[E]
	// Free returns a circuit whose public witnesses are free symbols, the vectors of the
	// declared secret witnesses in declaration order (free symbols), and the relation:
	// one polynomial per declared constraint (and slot) that must vanish.
	Free func() (pub buckler.Circuit[E], wit []W, rel []Rel)
	// Heavy scenarios run in the thorough tier only.
	Heavy bool
}

// Rel is one equation of the declared relation (Side: definitions P relies on).
type Rel struct {
	Name string
	P    *sym.Poly
	Side []sym.Formula
}

// Witnesses lists the secret vectors of a circuit in declaration order.
func Witnesses(c buckler.Circuit[E]) (out []W) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type() == reflect.TypeOf(W{}) {
			out = append(out, v.Interface().(W))
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() && v.Elem().Kind() == reflect.Struct && v.Elem().Type().PkgPath() != "" && !strings.Contains(v.Elem().Type().PkgPath(), "zzverif") {
				return
			}
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := range v.NumField() {
				walk(v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			for i := range v.Len() {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(c))
	return
}

// within is the polynomial that vanishes exactly at the values of [-b, b].
func within(x E, b int64) E {
	r := c(1)
	for v := -b; v <= b; v++ {
		r = mul(r, sub(x, c(v)))
	}
	return r
}

// below is the polynomial that vanishes exactly at 0..b.
func below(x E, b int64) E {
	r := c(1)
	for v := int64(0); v <= b; v++ {
		r = mul(r, sub(x, c(v)))
	}
	return r
}

// normRel states that the squared norm of v is at most b.
func normRel(name string, v []E, b int64) Rel {
	s := c(0)
	for _, x := range v {
		s = add(s, mul(x, x))
	}
	q := sym.In("norm_" + name)
	return Rel{Name: fmt.Sprintf("|%s|^2 <= %d", name, b), P: below(q, b).P(), Side: []sym.Formula{sym.Eq(q.P(), s.P())}}
}

// Vec returns n fresh input symbols.
func Vec(name string, n int) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = sym.In(fmt.Sprintf("%s%d", name, i))
	}
	return v
}

// VecRule returns n fresh symbols with the rule v^deg = v^to.
func VecRule(name string, n int, deg, to int32) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = sym.Of(sym.NewVarRule(fmt.Sprintf("%s%d", name, i), "in", deg, to))
	}
	return v
}

// Zero returns n zeros.
func Zero(n int) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = sym.Int(0)
	}
	return v
}

func c(x int64) E  { return sym.Int(x) }
func add(a, b E) E { return new(sym.S).Add(a, b) }
func sub(a, b E) E { return new(sym.S).Sub(a, b) }
func mul(a ...E) E {
	r := sym.Int(1)
	for _, x := range a {
		r.Mul(r, x)
	}
	return r
}
func mapv(n int, f func(i int) E) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = f(i)
	}
	return v
}

// ---- arithmetic with public coefficients ------------------------------------------

type Arith struct {
	P0, P1 PW
	A, B   W
	Sub    ArithSub
	List   []W
}

type ArithSub struct {
	C  W
	P2 [1]PW
}

func (a *Arith) Define(ctx *Ctx) {
	// C = A*B
	var k1 AC
	k1.AddTerm(nil, a.A, a.B)
	k1.SubTerm(nil, a.Sub.C)
	ctx.AddArithmeticConstraint(k1)
	// P1 = P0*A + 3*B
	var k2 AC
	k2.AddTermWithConst(c(1), a.P1)
	k2.AddTermWithConst(c(-1), a.P0, a.A)
	k2.AddTermWithConst(c(-3), nil, a.B)
	ctx.AddArithmeticConstraint(k2)
	// List[0] = P2*A*B - List[1] + 7
	var k3 AC
	k3.AddTerm(nil, a.List[0])
	k3.SubTerm(a.Sub.P2[0], a.A, a.B)
	k3.AddTerm(nil, a.List[1])
	k3.AddTermWithConst(c(-7), nil)
	ctx.AddArithmeticConstraint(k3)
}

func blankArith() *Arith { return &Arith{List: make([]W, 2)} }

func arithScenario(n int) Scenario {
	return Scenario{
		Name: "arith", Rank: n,
		Blank: func() buckler.Circuit[E] { return blankArith() },
		Sat: func() buckler.Circuit[E] {
			p0, p2, a, b, l1 := Vec("p0_", n), Vec("p2_", n), Vec("a", n), Vec("b", n), Vec("l1_", n)
			return &Arith{
				P0: p0, P1: mapv(n, func(i int) E { return add(mul(p0[i], a[i]), mul(c(3), b[i])) }),
				A: a, B: b,
				Sub:  ArithSub{C: mapv(n, func(i int) E { return mul(a[i], b[i]) }), P2: [1]PW{p2}},
				List: []W{mapv(n, func(i int) E { return add(sub(mul(p2[i], a[i], b[i]), l1[i]), c(7)) }), l1},
			}
		},
		Public: func(x buckler.Circuit[E]) buckler.Circuit[E] {
			o := x.(*Arith)
			return &Arith{P0: o.P0, P1: o.P1, Sub: ArithSub{P2: o.Sub.P2}, List: make([]W, 2)}
		},
		Free: func() (buckler.Circuit[E], []W, []Rel) {
			p0, p1, p2 := Vec("p0_", n), Vec("p1_", n), Vec("p2_", n)
			a, b, cc, l0, l1 := Vec("a", n), Vec("b", n), Vec("c", n), Vec("l0_", n), Vec("l1_", n)
			var rel []Rel
			for i := range n {
				rel = append(rel,
					Rel{Name: fmt.Sprintf("C=A*B slot %d", i), P: sub(mul(a[i], b[i]), cc[i]).P()},
					Rel{Name: fmt.Sprintf("P1=P0*A+3B slot %d", i), P: sub(p1[i], add(mul(p0[i], a[i]), mul(c(3), b[i]))).P()},
					Rel{Name: fmt.Sprintf("L0=P2*A*B-L1+7 slot %d", i), P: add(sub(l0[i], add(mul(p2[i], a[i], b[i]), c(7))), l1[i]).P()})
			}
			return &Arith{P0: p0, P1: p1, Sub: ArithSub{P2: [1]PW{p2}}, List: make([]W, 2)}, []W{a, b, cc, l0, l1}, rel
		},
	}
}

// ---- linear relations --------------------------------------------------------------

type Lin struct {
	NTT, AutC, AutN buckler.LinearChecker[E]

	X, Y       W
	XN, XA, XB W
	YN         W
}

func (l *Lin) Define(ctx *Ctx) {
	ctx.AddLinearConstraint(l.XN, l.X, l.NTT)
	ctx.AddLinearConstraint(l.XA, l.X, l.AutC)
	ctx.AddLinearConstraint(l.XB, l.XN, l.AutN)
	ctx.AddLinearConstraint(l.YN, l.Y, l.NTT)
}

func newLin(n int) *Lin {
	ev := bigpoly.NewCyclotomicEvaluator[E](n)
	return &Lin{
		NTT:  buckler.NewNTTChecker[E](n),
		AutC: buckler.NewAutChecker(ev, 5, false),
		AutN: buckler.NewAutChecker(ev, 3, true),
	}
}

func linScenario(n int) Scenario {
	return Scenario{
		Name: "linear", Rank: n,
		Blank: func() buckler.Circuit[E] { return newLin(n) },
		Sat: func() buckler.Circuit[E] {
			l := newLin(n)
			ev := bigpoly.NewCyclotomicEvaluator[E](n)
			x, y := Vec("x", n), Vec("y", n)
			l.X, l.Y = x, y
			px, py := &bigpoly.Poly[E]{Coeffs: x}, &bigpoly.Poly[E]{Coeffs: y}
			xn := ev.NTT(px)
			l.XN = xn.Coeffs
			l.YN = ev.NTT(py).Coeffs
			l.XA = ev.Aut(px, 5).Coeffs
			l.XB = ev.Aut(xn, 3).Coeffs
			return l
		},
		Public: func(x buckler.Circuit[E]) buckler.Circuit[E] { return newLin(n) },
		Free: func() (buckler.Circuit[E], []W, []Rel) {
			ev := bigpoly.NewCyclotomicEvaluator[E](n)
			x, y, xn, xa, xb, yn := Vec("x", n), Vec("y", n), Vec("xn", n), Vec("xa", n), Vec("xb", n), Vec("yn", n)
			px, py, pxn := &bigpoly.Poly[E]{Coeffs: x}, &bigpoly.Poly[E]{Coeffs: y}, &bigpoly.Poly[E]{Coeffs: xn, IsNTT: true}
			w1, w2, w3, w4 := ev.NTT(px).Coeffs, ev.Aut(px, 5).Coeffs, ev.Aut(pxn, 3).Coeffs, ev.NTT(py).Coeffs
			var rel []Rel
			for i := range n {
				rel = append(rel,
					Rel{Name: fmt.Sprintf("XN=NTT(X) slot %d", i), P: sub(xn[i], w1[i]).P()},
					Rel{Name: fmt.Sprintf("XA=Aut5(X) slot %d", i), P: sub(xa[i], w2[i]).P()},
					Rel{Name: fmt.Sprintf("XB=Aut3(XN) slot %d", i), P: sub(xb[i], w3[i]).P()},
					Rel{Name: fmt.Sprintf("YN=NTT(Y) slot %d", i), P: sub(yn[i], w4[i]).P()})
			}
			return newLin(n), []W{x, y, xn, xa, xb, yn}, rel
		},
	}
}

// ---- sumchecks ---------------------------------------------------------------------

type Sum struct {
	S0, S1 uint64
	P      PW
	A, B   W
	D      W
}

func (s *Sum) Define(ctx *Ctx) {
	// sum A*B = S0
	var k AC
	k.AddTerm(nil, s.A, s.B)
	ctx.AddSumCheckConstraint(k, s.S0)
	// sum P*A - D = S1
	var k2 AC
	k2.AddTerm(s.P, s.A)
	k2.SubTerm(nil, s.D)
	ctx.AddSumCheckConstraint(k2, s.S1)
}

func sumScenario(n int, s0, s1 uint64) Scenario {
	return Scenario{
		Name: fmt.Sprintf("sumcheck(%d,%d)", s0, s1), Rank: n,
		Blank: func() buckler.Circuit[E] { return &Sum{S0: s0, S1: s1} },
		Sat: func() buckler.Circuit[E] {
			p, a, b, d := Vec("p", n), Vec("a", n), Vec("b", n), Vec("d", n)
			b[n-1] = c(1)
			acc := c(int64(s0))
			for i := 0; i < n-1; i++ {
				acc = sub(acc, mul(a[i], b[i]))
			}
			a[n-1] = acc
			acc = c(-int64(s1))
			for i := 0; i < n; i++ {
				acc = add(acc, mul(p[i], a[i]))
				if i > 0 {
					acc = sub(acc, d[i])
				}
			}
			d[0] = acc
			return &Sum{S0: s0, S1: s1, P: p, A: a, B: b, D: d}
		},
		Public: func(x buckler.Circuit[E]) buckler.Circuit[E] {
			o := x.(*Sum)
			return &Sum{S0: s0, S1: s1, P: o.P}
		},
		Free: func() (buckler.Circuit[E], []W, []Rel) {
			p, a, b, d := Vec("p", n), Vec("a", n), Vec("b", n), Vec("d", n)
			r0, r1 := c(-int64(s0)), c(-int64(s1))
			for i := range n {
				r0 = add(r0, mul(a[i], b[i]))
				r1 = add(r1, sub(mul(p[i], a[i]), d[i]))
			}
			return &Sum{S0: s0, S1: s1, P: p}, []W{a, b, d}, []Rel{
				{fmt.Sprintf("sum A*B = %d", s0), r0.P(), nil}, {fmt.Sprintf("sum P*A-D = %d", s1), r1.P(), nil}}
		},
	}
}

// ---- everything at once ------------------------------------------------------------

type Mix struct {
	NTT buckler.LinearChecker[E]
	P   PW
	T   W // ternary
	TN  W // its transform
	Z   W // zero
	U   W // free; sum T*U = 9
}

func (m *Mix) Define(ctx *Ctx) {
	ctx.AddInfNormConstraint(m.T, 1)
	ctx.AddInfNormConstraint(m.Z, 0)
	ctx.AddLinearConstraint(m.TN, m.T, m.NTT)
	var k AC
	k.AddTerm(nil, m.T, m.U)
	ctx.AddSumCheckConstraint(k, 9)
	var k2 AC // P = TN*TN + U
	k2.AddTerm(m.P)
	k2.SubTerm(nil, m.TN, m.TN)
	k2.SubTerm(nil, m.U)
	ctx.AddArithmeticConstraint(k2)
}

func mixScenario(n int) Scenario {
	return Scenario{
		Name: "mix", Rank: n,
		Blank: func() buckler.Circuit[E] { return &Mix{NTT: buckler.NewNTTChecker[E](n)} },
		Sat: func() buckler.Circuit[E] {
			ev := bigpoly.NewCyclotomicEvaluator[E](n)
			t, u := VecRule("t", n, 3, 1), Vec("u", n)
			t[0] = c(1)
			acc := c(9)
			for i := 1; i < n; i++ {
				acc = sub(acc, mul(t[i], u[i]))
			}
			u[0] = acc
			tn := ev.NTT(&bigpoly.Poly[E]{Coeffs: t}).Coeffs
			return &Mix{NTT: buckler.NewNTTChecker[E](n), T: t, TN: tn, Z: Zero(n), U: u,
				P: mapv(n, func(i int) E { return add(mul(tn[i], tn[i]), u[i]) })}
		},
		Public: func(x buckler.Circuit[E]) buckler.Circuit[E] {
			return &Mix{NTT: buckler.NewNTTChecker[E](n), P: x.(*Mix).P}
		},
		Free: func() (buckler.Circuit[E], []W, []Rel) {
			ev := bigpoly.NewCyclotomicEvaluator[E](n)
			p, t, tn, z, u := Vec("p", n), Vec("t", n), Vec("tn", n), Vec("z", n), Vec("u", n)
			w := ev.NTT(&bigpoly.Poly[E]{Coeffs: t}).Coeffs
			s := c(-9)
			var rel []Rel
			for i := range n {
				s = add(s, mul(t[i], u[i]))
				rel = append(rel,
					Rel{Name: fmt.Sprintf("T ternary slot %d", i), P: sub(mul(t[i], t[i], t[i]), t[i]).P()},
					Rel{Name: fmt.Sprintf("Z zero slot %d", i), P: z[i].P()},
					Rel{Name: fmt.Sprintf("TN=NTT(T) slot %d", i), P: sub(tn[i], w[i]).P()},
					Rel{Name: fmt.Sprintf("P=TN*TN+U slot %d", i), P: sub(p[i], add(mul(tn[i], tn[i]), u[i])).P()})
			}
			rel = append(rel, Rel{Name: "sum T*U = 9", P: s.P()})
			return &Mix{NTT: buckler.NewNTTChecker[E](n), P: p}, []W{t, tn, z, u}, rel
		},
	}
}

// ---- norm bounds ---------------------------------------------------------------------

type Inf struct {
	Bound uint64
	A     W
	B     W
	Both  bool
}

func (x *Inf) Define(ctx *Ctx) {
	ctx.AddInfNormConstraint(x.A, x.Bound)
	if x.Both {
		ctx.AddInfNormConstraint(x.B, x.Bound+1)
	}
	var k AC // something that uses B
	k.AddTerm(nil, x.B)
	k.SubTerm(nil, x.B)
	ctx.AddArithmeticConstraint(k)
}

func rng(b int64) []int64 {
	var d []int64
	for i := -b; i <= b; i++ {
		d = append(d, i)
	}
	return d
}

// InfScenario has, at each coordinate in turn, every value of the range.
func InfScenario(n int, bound uint64, coord int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("infnorm(%d)@%d", bound, coord), Rank: n,
		Blank: func() buckler.Circuit[E] { return &Inf{Bound: bound, Both: true} },
		Sat: func() buckler.Circuit[E] {
			a, b := Zero(n), Zero(n)
			for i := range n {
				a[i] = c(int64(i)%int64(2*bound+1) - int64(bound))
				b[i] = c(int64(bound+1) - int64(i)%int64(2*bound+3))
			}
			nm := fmt.Sprintf("a%d", coord)
			a[coord] = sym.InDomain(nm, rng(int64(bound)))
			return &Inf{Bound: bound, Both: true, A: a, B: b}
		},
		Public: func(x buckler.Circuit[E]) buckler.Circuit[E] { return &Inf{Bound: bound, Both: true} },
		Free: func() (buckler.Circuit[E], []W, []Rel) {
			a, b := Vec("a", n), Vec("b", n)
			var rel []Rel
			for i := range n {
				rel = append(rel, Rel{Name: fmt.Sprintf("|A[%d]| <= %d", i, bound), P: within(a[i], int64(bound)).P()},
					Rel{Name: fmt.Sprintf("|B[%d]| <= %d", i, bound+1), P: within(b[i], int64(bound)+1).P()})
			}
			return &Inf{Bound: bound, Both: true}, []W{a, b}, rel
		},
	}
}

// Twice has two bounds of each kind on one witness.
type Twice struct {
	B0, B1 uint64
	A      W
}

func (x *Twice) Define(ctx *Ctx) {
	ctx.AddInfNormConstraint(x.A, x.B0)
	ctx.AddSqTwoNormConstraint(x.A, x.B0*x.B0+3)
	ctx.AddInfNormConstraint(x.A, x.B1)
	ctx.AddSqTwoNormConstraint(x.A, x.B1*x.B1+2)
}

// TwiceScenario has one coordinate in [-b0, b0] (b0 <= b1).
func TwiceScenario(n int, b0, b1 uint64, coord int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("twicebounded(%d,%d)@%d", b0, b1, coord), Rank: n,
		Blank: func() buckler.Circuit[E] { return &Twice{B0: b0, B1: b1} },
		Sat: func() buckler.Circuit[E] {
			a := Zero(n)
			a[(coord+2)%n] = c(-1)
			nm := fmt.Sprintf("a%d", coord)
			a[coord] = sym.InDomain(nm, rng(int64(b0)))
			return &Twice{B0: b0, B1: b1, A: a}
		},
		Public: func(x buckler.Circuit[E]) buckler.Circuit[E] { return &Twice{B0: b0, B1: b1} },
		Free: func() (buckler.Circuit[E], []W, []Rel) {
			a := Vec("a", n)
			var rel []Rel
			for i := range n {
				rel = append(rel, Rel{Name: fmt.Sprintf("|A[%d]| <= %d", i, b0), P: within(a[i], int64(b0)).P()})
			}
			return &Twice{B0: b0, B1: b1}, []W{a}, append(rel, normRel("A", a, int64(b0*b0+3)), normRel("A", a, int64(b1*b1+2)))
		},
	}
}

type Two struct {
	B0, B1 uint64
	A, B   W
}

func (x *Two) Define(ctx *Ctx) {
	ctx.AddSqTwoNormConstraint(x.A, x.B0)
	ctx.AddSqTwoNormConstraint(x.B, x.B1)
}

func isqrt(x int64) int64 {
	r := int64(0)
	for (r+1)*(r+1) <= x {
		r++
	}
	return r
}

// TwoScenario has two witnesses with squared norm bounds; one coordinate of each varies.
func TwoScenario(n int, b0, b1 uint64) Scenario {
	return Scenario{
		Name: fmt.Sprintf("twonorm(%d,%d)", b0, b1), Rank: n,
		Blank: func() buckler.Circuit[E] { return &Two{B0: b0, B1: b1} },
		Sat: func() buckler.Circuit[E] {
			a, b := Zero(n), Zero(n)
			a[1] = sym.InDomain("a1", rng(isqrt(int64(b0))))
			b[0] = sym.InDomain("b0", rng(isqrt(int64(b1)-1)))
			b[n-1] = c(1)
			return &Two{B0: b0, B1: b1, A: a, B: b}
		},
		Public: func(x buckler.Circuit[E]) buckler.Circuit[E] { return &Two{B0: b0, B1: b1} },
		Free: func() (buckler.Circuit[E], []W, []Rel) {
			a, b := Vec("a", n), Vec("b", n)
			return &Two{B0: b0, B1: b1}, []W{a, b}, []Rel{normRel("A", a, int64(b0)), normRel("B", b, int64(b1))}
		},
	}
}

type Approx struct {
	Bound uint64
	A     W
}

func (x *Approx) Define(ctx *Ctx) { ctx.AddApproxInfNormConstraint(x.A, x.Bound) }

// ApproxScenario needs a rank of at least 128 * bits(rank*bound).
func ApproxScenario(n int, bound uint64) Scenario {
	return Scenario{
		Name: fmt.Sprintf("approxinf(%d)", bound), Rank: n, Heavy: true,
		Blank: func() buckler.Circuit[E] { return &Approx{Bound: bound} },
		Sat: func() buckler.Circuit[E] {
			a := Zero(n)
			for i := range n {
				a[i] = c(int64(i*i)%int64(2*bound+1) - int64(bound))
			}
			return &Approx{Bound: bound, A: a}
		},
		Public: func(x buckler.Circuit[E]) buckler.Circuit[E] { return &Approx{Bound: bound} },
	}
}

// ApproxBits is the approximate norm scenario with two witnesses of which one coordinate
// takes every value of the bound.
func ApproxBits(n int, bound uint64) Scenario {
	sc := ApproxScenario(n, bound)
	sc.Sat = func() buckler.Circuit[E] {
		a := Zero(n)
		for i := range n {
			a[i] = c(int64(i*i)%int64(2*bound+1) - int64(bound))
		}
		a[3] = sym.InDomain("a3", rng(int64(bound)))
		return &Approx{Bound: bound, A: a}
	}
	return sc
}

// All returns the scenarios of the arithmetic/linear/sum family.
func All() []Scenario {
	return []Scenario{arithScenario(8), linScenario(8), sumScenario(8, 0, 0), sumScenario(8, 5, 3), mixScenario(8)}
}

// AllHeavy adds larger ranks.
func AllHeavy() []Scenario {
	return []Scenario{arithScenario(16), linScenario(16), linScenario(32), sumScenario(16, 1, 1<<40)}
}

// Sound returns the scenarios with a relation (Free).
func Sound(n int) []Scenario {
	out := []Scenario{arithScenario(n), linScenario(n), sumScenario(n, 5, 3), sumScenario(n, 0, 0), mixScenario(n)}
	for _, b := range []uint64{1, 2, 3, 4, 5} {
		out = append(out, InfScenario(n, b, 0))
	}
	return append(out, TwoScenario(n, 4, 5), TwoScenario(n, 3, 1), TwiceScenario(n, 2, 3, 1))
}
