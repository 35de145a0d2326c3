package bigpoly

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/fe"
	"github.com/sp301415/ringo-snark/zzverif/v"
)

// ZZC15: every coefficient becomes a nearest integer to its scaled value.
func ZZC15() {
	fe.P = new(big.Int).Lsh(big.NewInt(1), uint(v.Param("pbits")))
	fe.P.Add(fe.P, big.NewInt(int64(v.Param("poff"))))
	one := big.NewInt(1)
	var Q *big.Int
	if w := v.Param("qsym"); w > 0 {
		Q = v.Big("Q", one, new(big.Int).Lsh(one, uint(w)))
	} else {
		Q = new(big.Int).Lsh(one, uint(v.Param("qbits")))
		Q.Add(Q, big.NewInt(int64(v.Param("qoff"))))
	}
	r := v.Param("rank")
	ev := NewCyclotomicEvaluator[*fe.E](r)
	in := make([]*big.Int, r)
	keep := make([]*big.Int, r)
	for i := range in {
		in[i] = big.NewInt(int64(3 * i))
		if i == v.Param("at") {
			m := new(big.Int).Mul(Q, big.NewInt(2))
			if v.Param("qsym") > 0 {
				m.Lsh(one, uint(v.Param("qsym")+1))
			}
			in[i] = v.Big("c", new(big.Int).Neg(m), m)
		}
		keep[i] = new(big.Int).Set(in[i])
	}
	qk := new(big.Int).Set(Q)
	out := ev.NewPoly(true)
	for i := range out.Coeffs {
		out.Coeffs[i].SetBigInt(v.Big("before", new(big.Int), new(big.Int).Sub(fe.P, one)))
	}
	ev.ModSwitchTo(out, in, Q)
	v.Assert(Q.Cmp(qk) == 0, "the modulus is left alone")
	v.Assert(!out.IsNTT, "the result is in coefficient form")
	mod := new(big.Int).Mul(Q, fe.P)
	for i := range in {
		v.Assert(in[i].Cmp(keep[i]) == 0, "the input is left alone")
		d := new(big.Int).Mul(in[i], fe.P)
		o := out.Coeffs[i].BigInt(new(big.Int))
		d.Sub(d, o.Mul(o, Q))
		d.Mod(d, mod)
		lo := new(big.Int).Lsh(d, 1)
		hi := new(big.Int).Sub(mod, d)
		hi.Lsh(hi, 1)
		v.Assert(lo.Cmp(Q) <= 0 || hi.Cmp(Q) <= 0, "the coefficient is rounded to nearest")
	}
	v.Cover("done")
}
