// The transforms are inverse ring isomorphisms given by evaluation at the roots.
package main

import (
	"fmt"

	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/hlib"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

type E = *sym.S

func vec(name string, n int) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = sym.In(fmt.Sprintf("%s%d", name, i))
	}
	return v
}

func blank(n int) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = sym.In(fmt.Sprintf("stale%d", i))
	}
	return v
}

func mul(a, b E) E { return new(sym.S).Mul(a, b) }
func add(a, b E) E { return new(sym.S).Add(a, b) }

func pow(x E, e int) E {
	r := sym.Int(1)
	for ; e > 0; e-- {
		r.Mul(r, x)
	}
	return r
}

type transformer interface {
	FwdNTTTo(vOut, v []E)
	InvNTTTo(vOut, v []E)
}

type evaluator interface {
	NTT(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	InvNTT(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NTTTo(q, p *bigpoly.Poly[E])
	InvNTTTo(q, p *bigpoly.Poly[E])
	Mul(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
}

func main() {
	defer hlib.Write()
	hlib.R.Functions = []string{"bigpoly.NewCyclicTransformer", "bigpoly.NewCyclotomicTransformer", "FwdNTTTo", "InvNTTTo", "nttInPlace (reference and unrolled)", "inttInPlace (reference and unrolled)", "bigpoly.CyclicEvaluator", "bigpoly.CyclotomicEvaluator", "NTT", "InvNTT", "Mul"}
	lin, prod := 64, 16
	if hlib.Thorough() {
		lin, prod = 256, 64
	}
	hlib.R.Bounds = []string{fmt.Sprintf("ranks 2..%d for the transforms, 2..%d for products; the field modulus is fixed", lin, prod)}
	for _, kind := range []string{"cyclic", "negacyclic"} {
		sign := int64(1)
		if kind == "negacyclic" {
			sign = -1
		}
		newT := func(n int) transformer {
			if sign == 1 {
				return bigpoly.NewCyclicTransformer[E](n)
			}
			return bigpoly.NewCyclotomicTransformer[E](n)
		}
		newE := func(n int) evaluator {
			if sign == 1 {
				return bigpoly.NewCyclicEvaluator[E](n)
			}
			return bigpoly.NewCyclotomicEvaluator[E](n)
		}
		for n := 2; n <= lin; n *= 2 {
			points := func(t transformer) []E {
				x := make([]E, n)
				for i := range x {
					x[i] = sym.Int(0)
				}
				x[1] = sym.Int(1)
				o := blank(n)
				t.FwdNTTTo(o, x)
				return o
			}
			hlib.Identity(fmt.Sprintf("%s/%d/roots", kind, n), func() (ps hlib.Pairs) {
				pt := points(newT(n))
				for j := range pt {
					ps.Add(pow(pt[j], n), sym.Int(sign), "point %d is a root of X^%d-(%d)", j, n, sign)
					for k := 0; k < j; k++ {
						// distinct: pt[j] - pt[k] has an inverse
						d := new(sym.S).Sub(pt[j], pt[k])
						ps.Add(mul(d, new(sym.S).Inverse(d)), sym.Int(1), "points %d and %d differ", j, k)
					}
				}
				return
			})
			hlib.Identity(fmt.Sprintf("%s/%d/forward", kind, n), func() (ps hlib.Pairs) {
				t := newT(n)
				pt := points(t)
				v, out := vec("v", n), blank(n)
				keep := hlib.Snapshot(v)
				t.FwdNTTTo(out, v)
				ps.AddVec(v, keep, "input preserved")
				for j := range out {
					w, pw := sym.Int(0), sym.Int(1)
					for i := range v {
						w = add(w, mul(v[i], pw))
						pw = mul(pw, pt[j])
					}
					ps.Add(out[j], w, "slot %d is the value at its root", j)
				}
				return
			})
			hlib.Identity(fmt.Sprintf("%s/%d/roundtrip", kind, n), func() (ps hlib.Pairs) {
				t := newT(n)
				v, f, b := vec("v", n), blank(n), blank(n)
				t.FwdNTTTo(f, v)
				keep := hlib.Snapshot(f)
				t.InvNTTTo(b, f)
				ps.AddVec(f, keep, "input preserved")
				ps.AddVec(b, v, "inverse(forward(v))")
				t.InvNTTTo(f, hlib.Snapshot(v))
				t.FwdNTTTo(b, f)
				ps.AddVec(b, v, "forward(inverse(v))")
				// in place
				w := hlib.Snapshot(v)
				t.FwdNTTTo(w, w)
				ps.AddVec(w, keep, "forward in place")
				t.InvNTTTo(w, w)
				ps.AddVec(w, v, "inverse in place")
				return
			})
			hlib.Identity(fmt.Sprintf("%s/%d/evaluator", kind, n), func() (ps hlib.Pairs) {
				t, e := newT(n), newE(n)
				v, f := vec("v", n), blank(n)
				t.FwdNTTTo(f, v)
				p := &bigpoly.Poly[E]{Coeffs: hlib.Snapshot(v)}
				q := e.NTT(p)
				ps.AddVec(q.Coeffs, f, "NTT")
				ps.AddVec(p.Coeffs, v, "NTT preserves its input")
				r := e.InvNTT(q)
				ps.AddVec(r.Coeffs, v, "InvNTT")
				ps.AddVec(q.Coeffs, f, "InvNTT preserves its input")
				e.NTTTo(p, p)
				ps.AddVec(p.Coeffs, f, "NTTTo in place")
				e.InvNTTTo(p, p)
				ps.AddVec(p.Coeffs, v, "InvNTTTo in place")
				flag := int64(0)
				if !q.IsNTT || r.IsNTT || p.IsNTT {
					flag = 1
				}
				ps.Add(sym.Int(flag), sym.Int(0), "domain flags")
				return
			})
			if n <= prod {
				hlib.Identity(fmt.Sprintf("%s/%d/product", kind, n), func() (ps hlib.Pairs) {
					e := newE(n)
					a, b := vec("a", n), vec("b", n)
					c := e.InvNTT(e.Mul(e.NTT(&bigpoly.Poly[E]{Coeffs: a}), e.NTT(&bigpoly.Poly[E]{Coeffs: b})))
					w := make([]E, n)
					for i := range w {
						w[i] = sym.Int(0)
					}
					for i := range a {
						for j := range b {
							x := mul(a[i], b[j])
							if i+j >= n {
								x = mul(x, sym.Int(sign))
							}
							w[(i+j)%n] = add(w[(i+j)%n], x)
						}
					}
					ps.AddVec(c.Coeffs, w, "ring product")
					return
				})
			}
		}
	}
}
