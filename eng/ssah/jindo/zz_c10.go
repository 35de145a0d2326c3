package jindo

import (
	"math"
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/fe"
	"github.com/sp301415/ringo-snark/zzverif/v"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// zzKnown are the balanced coefficients of elements, by the place of their words.
var zzKnown map[*uint64][]*big.Int

// zzRecon stands for reconstructTo, decided on its own (C09).
func zzRecon(vOut []*big.Int, p ring.Poly) bool {
	if !v.Symbolic() || zzKnown == nil {
		return false
	}
	c, ok := zzKnown[&p.Coeffs[0][0]]
	if !ok {
		return false
	}
	for i := range c {
		vOut[i].Set(c[i])
	}
	return true
}

// ZZC10: the norm check decides by the sum of all squares. The bound counts up to
// one, and up to the precision of a double.
func ZZC10() {
	fe.P = big.NewInt(257)
	rns := zzRNS()
	rq := rns.ringQ
	ver := &Verifier[*fe.E]{params: Parameters{ringQ: rq}, rnsOut: rns}
	cnt := v.Param("polys")
	bound := math.Ldexp(float64(v.Param("mant")), v.Param("exp"))
	ps := make([]ring.Poly, cnt)
	zzKnown = map[*uint64][]*big.Int{}
	sum := new(big.Int)
	for a := range ps {
		ps[a] = rq.NewPoly()
		cs := make([]*big.Int, rq.N())
		for i := 0; i < rq.N(); i++ {
			at := a*rq.N() + i
			var c *big.Int
			switch {
			case v.Param("all") == 1 || at == v.Param("at") || at == v.Param("at2") || at == v.Param("at3"):
				if w := v.Param("wide"); w > 0 {
					h := new(big.Int).Lsh(big.NewInt(1), uint(w))
					c = v.Big("c", new(big.Int).Neg(h), h)
				} else {
					h := new(big.Int).Rsh(rq.Modulus(), 1)
					c = v.Big("c", new(big.Int).Neg(h), h)
				}
			case v.Param("rest") != 0:
				c = big.NewInt(int64(v.Param("rest")))
				if i%2 == 0 {
					c.Neg(c)
				}
			default:
				c = new(big.Int)
			}
			t := new(big.Int)
			for l := range ps[a].Coeffs {
				ps[a].Coeffs[l][i] = t.Mod(c, new(big.Int).SetUint64(rq.SubRings[l].Modulus)).Uint64()
			}
			sum.Add(sum, t.Mul(c, c))
			cs[i] = c
		}
		if v.Param("contract") == 1 {
			zzKnown[&ps[a].Coeffs[0][0]] = cs
		}
	}
	keep := make([]*ring.Poly, cnt)
	for a := range ps {
		keep[a] = ps[a].CopyNew()
	}
	ok := ver.verifyNorm(rq, rns, ps, bound)
	// the bound minus and plus one, and a part in 2^50
	b := big.NewInt(int64(v.Param("mant")))
	if e := v.Param("exp"); e >= 0 {
		b.Lsh(b, uint(e))
	} else {
		b.Rsh(b, uint(-e))
	}
	slack := new(big.Int).Rsh(b, 50)
	slack.Add(slack, big.NewInt(1))
	lo := new(big.Int).Sub(b, slack)
	hi := new(big.Int).Add(b, slack)
	hi.Add(hi, big.NewInt(1))
	if lo.Sign() >= 0 {
		lo.Mul(lo, lo)
		v.Assert(ok || sum.Cmp(lo) > 0, "what is within the bound is accepted")
	}
	hi.Mul(hi, hi)
	v.Assert(!ok || sum.Cmp(hi) < 0, "what is beyond the bound is refused")
	for a := range ps {
		for l := range ps[a].Coeffs {
			for i := range ps[a].Coeffs[l] {
				v.Assert(ps[a].Coeffs[l][i] == keep[a].Coeffs[l][i], "the elements are left alone")
			}
		}
	}
	if ok {
		v.Cover("accepted")
	} else {
		v.Cover("refused")
	}
}
