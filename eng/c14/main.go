// Polynomial operations compute their definition under every aliasing of their arguments.
package main

import (
	"fmt"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/hlib"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

type E = *sym.S
type Poly = bigpoly.Poly[E]

func vec(name string, n int) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = sym.In(fmt.Sprintf("%s%d", name, i))
	}
	return v
}

func mul(a, b E) E { return new(sym.S).Mul(a, b) }
func add(a, b E) E { return new(sym.S).Add(a, b) }
func sub(a, b E) E { return new(sym.S).Sub(a, b) }

type ops interface {
	Add(a, b *Poly) *Poly
	AddTo(o, a, b *Poly)
	Sub(a, b *Poly) *Poly
	SubTo(o, a, b *Poly)
	Neg(a *Poly) *Poly
	NegTo(o, a *Poly)
	ScalarMul(a *Poly, c E) *Poly
	ScalarMulTo(o, a *Poly, c E)
	ScalarMulAddTo(o, a *Poly, c E)
	ScalarMulSubTo(o, a *Poly, c E)
	Mul(a, b *Poly) *Poly
	MulTo(o, a, b *Poly)
	MulAddTo(o, a, b *Poly)
	MulSubTo(o, a, b *Poly)
	NewPoly(isNTT bool) *Poly
	Rank() int
}

// op3 is an operation o = f(o, a, b) slot by slot.
type op3 struct {
	name    string
	nttOnly bool
	unary   bool
	run     func(e ops, o, a, b *Poly, c E)
	ret     func(e ops, a, b *Poly, c E) *Poly
	spec    func(o, a, b, c E) E
}

var table = []op3{
	{"add", false, false, func(e ops, o, a, b *Poly, c E) { e.AddTo(o, a, b) }, func(e ops, a, b *Poly, c E) *Poly { return e.Add(a, b) }, func(o, a, b, c E) E { return add(a, b) }},
	{"sub", false, false, func(e ops, o, a, b *Poly, c E) { e.SubTo(o, a, b) }, func(e ops, a, b *Poly, c E) *Poly { return e.Sub(a, b) }, func(o, a, b, c E) E { return sub(a, b) }},
	{"neg", false, true, func(e ops, o, a, b *Poly, c E) { e.NegTo(o, a) }, func(e ops, a, b *Poly, c E) *Poly { return e.Neg(a) }, func(o, a, b, c E) E { return sub(sym.Int(0), a) }},
	{"scalarmul", false, true, func(e ops, o, a, b *Poly, c E) { e.ScalarMulTo(o, a, c) }, func(e ops, a, b *Poly, c E) *Poly { return e.ScalarMul(a, c) }, func(o, a, b, c E) E { return mul(a, c) }},
	{"scalarmuladd", false, true, func(e ops, o, a, b *Poly, c E) { e.ScalarMulAddTo(o, a, c) }, nil, func(o, a, b, c E) E { return add(o, mul(a, c)) }},
	{"scalarmulsub", false, true, func(e ops, o, a, b *Poly, c E) { e.ScalarMulSubTo(o, a, c) }, nil, func(o, a, b, c E) E { return sub(o, mul(a, c)) }},
	{"mul", true, false, func(e ops, o, a, b *Poly, c E) { e.MulTo(o, a, b) }, func(e ops, a, b *Poly, c E) *Poly { return e.Mul(a, b) }, func(o, a, b, c E) E { return mul(a, b) }},
	{"muladd", true, false, func(e ops, o, a, b *Poly, c E) { e.MulAddTo(o, a, b) }, nil, func(o, a, b, c E) E { return add(o, mul(a, b)) }},
	{"mulsub", true, false, func(e ops, o, a, b *Poly, c E) { e.MulSubTo(o, a, b) }, nil, func(o, a, b, c E) E { return sub(o, mul(a, b)) }},
}

// partitions of {o, a, b} into equal objects
var aliasings = [][3]int{{0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 0, 0}}

func flagged(ps *hlib.Pairs, ok bool, f string, a ...any) {
	x := int64(1)
	if ok {
		x = 0
	}
	ps.Add(sym.Int(x), sym.Int(0), f, a...)
}

func main() {
	defer hlib.Write()
	hlib.R.Functions = []string{"bigpoly.CyclicEvaluator and CyclotomicEvaluator: Add, Sub, Neg, ScalarMul, ScalarMulAddTo, ScalarMulSubTo, Mul, MulAddTo, MulSubTo", "bigpoly.CyclicEvaluator.QuoRemByVanishing", "bigpoly.Poly.Evaluate", "bigpoly.Poly.CopyFrom", "bigpoly.Poly.Clear", "bigpoly.Poly.Marshal", "bignum.Exp"}
	top := 32
	if hlib.Thorough() {
		top = 128
	}
	hlib.R.Bounds = []string{fmt.Sprintf("evaluator ranks 2..%d (powers of two), copy ranks 1..%d (all), division: ranks 2..%d by every N up to the rank", top, top+1, top/2), "every aliasing of the output and the two operands"}
	for _, kind := range []string{"cyclic", "cyclotomic"} {
		for n := 2; n <= top; n *= 2 {
			mk := func() ops {
				if kind == "cyclic" {
					return bigpoly.NewCyclicEvaluator[E](n)
				}
				return bigpoly.NewCyclotomicEvaluator[E](n)
			}
			for _, op := range table {
				for _, ntt := range []bool{false, true} {
					if op.nttOnly && !ntt {
						continue
					}
					hlib.Identity(fmt.Sprintf("%s/%d/%s/%v", kind, n, op.name, ntt), func() (ps hlib.Pairs) {
						e := mk()
						c := sym.In("c")
						for _, al := range aliasings {
							objs := make([]*Poly, 3)
							get := func(i int) *Poly {
								if objs[al[i]] == nil {
									objs[al[i]] = &Poly{Coeffs: vec(fmt.Sprintf("x%d_", al[i]), n), IsNTT: ntt}
								}
								return objs[al[i]]
							}
							o, a, b := get(0), get(1), get(2)
							ko, ka, kb := hlib.Snapshot(o.Coeffs), hlib.Snapshot(a.Coeffs), hlib.Snapshot(b.Coeffs)
							op.run(e, o, a, b, c)
							for i := range o.Coeffs {
								ps.Add(o.Coeffs[i], op.spec(ko[i], ka[i], kb[i], c), "%s aliasing %v slot %d", op.name, al, i)
							}
							if a != o {
								ps.AddVec(a.Coeffs, ka, "%s aliasing %v: first operand preserved", op.name, al)
							}
							if b != o {
								ps.AddVec(b.Coeffs, kb, "%s aliasing %v: second operand preserved", op.name, al)
							}
							flagged(&ps, o.IsNTT == ntt && a.IsNTT == ntt && b.IsNTT == ntt, "%s: domain flags", op.name)
						}
						ps.Add(c, sym.In("c"), "scalar preserved")
						// the evaluator may be used for something else in between
						for k := 0; op.ret != nil && k < 2; k++ {
							a, b := &Poly{Coeffs: vec("a", n), IsNTT: ntt}, &Poly{Coeffs: vec("b", n), IsNTT: ntt}
							o := op.ret(e, a, b, c)
							for i := range o.Coeffs {
								ps.Add(o.Coeffs[i], op.spec(nil, sym.In(fmt.Sprintf("a%d", i)), sym.In(fmt.Sprintf("b%d", i)), c), "%s (new) slot %d", op.name, i)
							}
							flagged(&ps, o.IsNTT == ntt && len(o.Coeffs) == n, "%s (new): domain flag and rank", op.name)
							w := e.NewPoly(true)
							e.MulAddTo(w, w, w)
						}
						return
					})
				}
			}
		}
	}
	for n := 2; n <= top/2; n *= 2 {
		hlib.Identity(fmt.Sprintf("quorem/%d", n), func() (ps hlib.Pairs) {
			e := bigpoly.NewCyclicEvaluator[E](n)
			for N := 1; N <= n; N++ {
				p := &Poly{Coeffs: vec("p", n)}
				quo, rem := e.QuoRemByVanishing(p, N)
				ps.AddVec(p.Coeffs, vec("p", n), "division by X^%d-1: input preserved", N)
				// p = quo * (X^N - 1) + rem over the polynomials, deg rem < N
				full := make([]E, n+N)
				for i := range full {
					full[i] = sym.Int(0)
				}
				for i := range n {
					full[i+N] = add(full[i+N], quo.Coeffs[i])
					full[i] = sub(full[i], quo.Coeffs[i])
					full[i] = add(full[i], rem.Coeffs[i])
					if i >= N {
						ps.Add(rem.Coeffs[i], sym.Int(0), "division by X^%d-1: remainder degree %d", N, i)
					}
				}
				for i := range full {
					w := sym.Int(0)
					if i < n {
						w = p.Coeffs[i]
					}
					ps.Add(full[i], w, "division by X^%d-1: coefficient %d", N, i)
				}
				flagged(&ps, !quo.IsNTT && !rem.IsNTT, "division: domain flags")
			}
			return
		})
	}
	for n := 1; n <= top+1; n++ {
		hlib.Identity(fmt.Sprintf("poly/%d", n), func() (ps hlib.Pairs) {
			p := &Poly{Coeffs: vec("p", n)}
			if n <= 24 {
				x := sym.In("x")
				w, pw := sym.Int(0), sym.Int(1)
				for i := range n {
					w = add(w, mul(p.Coeffs[i], pw))
					pw = mul(pw, x)
				}
				ps.Add(p.Evaluate(x), w, "Evaluate")
				ps.Add(x, sym.In("x"), "Evaluate preserves the point")
				ps.Add(bignum.Exp(x, uint64(n)), pw, "Exp")
				ps.Add(bignum.Exp(x, 0), sym.Int(1), "Exp 0")
				ps.Add(x, sym.In("x"), "Exp preserves its base")
			}
			for _, ntt := range []bool{false, true} {
				q := &Poly{Coeffs: vec("q", n), IsNTT: !ntt}
				p.IsNTT = ntt
				q.CopyFrom(p)
				ps.AddVec(q.Coeffs, vec("p", n), "CopyFrom")
				flagged(&ps, q.IsNTT == ntt && p.IsNTT == ntt, "CopyFrom: domain flag")
				q.Coeffs[n-1].Add(q.Coeffs[n-1], sym.Int(1))
				q.Coeffs[0].Add(q.Coeffs[0], sym.Int(1))
				ps.AddVec(p.Coeffs, vec("p", n), "CopyFrom shares nothing")
				q.Clear()
				for i := range n {
					ps.Add(q.Coeffs[i], sym.Int(0), "Clear %d", i)
				}
				ps.AddVec(p.Coeffs, vec("p", n), "operand preserved")
			}
			z := bigpoly.NewPoly[E](n, true)
			flagged(&ps, z.IsNTT && z.Rank() == n && len(z.Coeffs) == n, "NewPoly")
			for i := range n {
				ps.Add(z.Coeffs[i], sym.Int(0), "NewPoly is zero")
			}
			return
		})
	}
}
