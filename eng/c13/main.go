// Linear checkers: the transpose is the adjoint, the forward map is the declared one;
// automorphisms map X to X^k.
package main

import (
	"fmt"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/hlib"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

type E = *sym.S

func vec(name string, n int) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = sym.In(fmt.Sprintf("%s%d", name, i))
	}
	return v
}

func dot(a, b []E) E {
	r := sym.Int(0)
	for i := range a {
		r.Add(r, new(sym.S).Mul(a[i], b[i]))
	}
	return r
}

// adjoint states <T v, u> = <v, T' u>, that inputs are preserved and stale outputs do not matter.
func adjoint(ps *hlib.Pairs, c buckler.LinearChecker[E], n int, want func(v []E) []E) {
	v, u := vec("v", n), vec("u", n)
	tv, tu := vec("stalev", n), vec("staleu", n)
	kv, ku := hlib.Snapshot(v), hlib.Snapshot(u)
	c.TransformTo(tv, v)
	ps.AddVec(v, kv, "TransformTo preserves its input")
	ps.AddVec(tv, want(hlib.Snapshot(kv)), "forward map")
	c.TransposeTo(tu, u)
	ps.AddVec(u, ku, "TransposeTo preserves its input")
	ps.Add(dot(tv, ku), dot(kv, tu), "adjoint")
	// a second use gives the same
	tu2 := vec("staleu2_", n)
	c.TransposeTo(tu2, u)
	ps.AddVec(tu2, tu, "TransposeTo repeated")
}

// autSpec is p(X^k) mod X^n + 1.
func autSpec(p []E, k int) []E {
	n := len(p)
	o := make([]E, n)
	for i := range o {
		o[i] = sym.Int(0)
	}
	for i := range p {
		e := ((i*k)%(2*n) + 2*n) % (2 * n)
		if e < n {
			o[e].Add(o[e], p[i])
		} else {
			o[e-n].Sub(o[e-n], p[i])
		}
	}
	return o
}

func main() {
	defer hlib.Write()
	hlib.R.Functions = []string{"buckler.NewNTTChecker", "buckler.NewAutChecker", "LinearChecker.TransformTo", "LinearChecker.TransposeTo", "bigpoly.CyclotomicEvaluator.Aut", "bigpoly.CyclotomicEvaluator.AutTo"}
	ntt, aut := 32, 16
	if hlib.Thorough() {
		ntt, aut = 64, 32
	}
	hlib.R.Bounds = []string{fmt.Sprintf("transform checker: ranks 2..%d; automorphisms: ranks 2..%d, every odd index modulo 2N and some negative and large ones", ntt, aut)}
	for n := 2; n <= ntt; n *= 2 {
		hlib.Identity(fmt.Sprintf("nttchecker/%d", n), func() (ps hlib.Pairs) {
			ev := bigpoly.NewCyclotomicEvaluator[E](n)
			adjoint(&ps, buckler.NewNTTChecker[E](n), n, func(v []E) []E { return ev.NTT(&bigpoly.Poly[E]{Coeffs: v}).Coeffs })
			return
		})
	}
	for n := 2; n <= aut; n *= 2 {
		ks := []int{-1, -3, 2*n + 1, 6*n + 3, -4*n + 5}
		for k := 1; k < 2*n; k += 2 {
			ks = append(ks, k)
		}
		for _, k := range ks {
			hlib.Identity(fmt.Sprintf("aut/%d/%d", n, k), func() (ps hlib.Pairs) {
				ev := bigpoly.NewCyclotomicEvaluator[E](n)
				v := vec("p", n)
				want := autSpec(v, k)
				p := &bigpoly.Poly[E]{Coeffs: hlib.Snapshot(v)}
				q := ev.Aut(p, k)
				ps.AddVec(q.Coeffs, want, "coefficient form")
				ps.AddVec(p.Coeffs, v, "input preserved")
				f := ev.NTT(p)
				kf := hlib.Snapshot(f.Coeffs)
				fq := ev.Aut(f, k)
				ps.AddVec(f.Coeffs, kf, "input preserved (transformed)")
				ps.AddVec(ev.InvNTT(fq).Coeffs, want, "transformed form")
				ev.AutTo(p, p, k)
				ps.AddVec(p.Coeffs, want, "in place")
				ev.AutTo(f, f, k)
				ps.AddVec(f.Coeffs, fq.Coeffs, "in place (transformed)")
				// into a used polynomial of the other domain
				d := &bigpoly.Poly[E]{Coeffs: vec("stale", n), IsNTT: true}
				ev.AutTo(d, &bigpoly.Poly[E]{Coeffs: hlib.Snapshot(v)}, k)
				ps.AddVec(d.Coeffs, want, "into a used polynomial")
				flag := int64(0)
				if q.IsNTT || !fq.IsNTT || d.IsNTT || p.IsNTT || !f.IsNTT {
					flag = 1
				}
				ps.Add(sym.Int(flag), sym.Int(0), "domain flags")
				return
			})
			for _, isNTT := range []bool{false, true} {
				hlib.Identity(fmt.Sprintf("autchecker/%d/%d/%v", n, k, isNTT), func() (ps hlib.Pairs) {
					ev := bigpoly.NewCyclotomicEvaluator[E](n)
					adjoint(&ps, buckler.NewAutChecker(ev, k, isNTT), n, func(v []E) []E {
						if isNTT {
							p := ev.InvNTT(&bigpoly.Poly[E]{Coeffs: v, IsNTT: true})
							return ev.NTT(&bigpoly.Poly[E]{Coeffs: autSpec(p.Coeffs, k)}).Coeffs
						}
						return autSpec(v, k)
					})
					return
				})
			}
		}
	}
}
