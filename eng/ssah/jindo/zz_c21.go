package jindo

import (
	"math/big"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zzverif/fe"
	"github.com/sp301415/ringo-snark/zzverif/v"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// zzRun is one execution of the prover.
type zzRun struct {
	com  []*Commitment
	open []*Opening
	pf   *Proof
}

func zzNum(n int64) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return zzNum(n/10) + zzNum(n%10)
}

// zzTag names the randomness by what it is for: its deviation.
func zzTag(tag string) {
	fe.Random = "random" + tag
	b := int64(zzOr("noise", 100))
	csprng.ZZNoise = func(s float64) int64 {
		return v.I64("noise"+tag+zzNum(int64(s)), -b, b)
	}
}

func zzProve(t zzParties, tag string, x *fe.E, ps [][]*fe.E) (z zzRun) {
	zzTag(tag)
	for _, p := range ps {
		c, o := t.P.Commit(p)
		z.com, z.open = append(z.com, c), append(z.open, o)
	}
	if x != nil {
		zzChals = map[string][]int64{}
		_, z.pf = t.P.Evaluate(x, ps, z.com, z.open)
	}
	return z
}

// zzFlat are the coefficients of elements modulo a limb.
func zzFlat(r *ring.Ring, ps []ring.Poly, l int) (out []*big.Int) {
	for _, p := range ps {
		out = append(out, zzCoefs(r, p)[l]...)
	}
	return out
}

// zzBlind: what is free of the named randomness is the same for both.
func zzBlind(a, b []*big.Int, q *big.Int, msg string, names ...string) {
	for _, k := range v.Kernel(a, q, names) {
		x, y := new(big.Int), new(big.Int)
		t := new(big.Int)
		for i := range k {
			x.Add(x, t.Mul(k[i], a[i]))
			y.Add(y, t.Mul(k[i], b[i]))
		}
		v.Assert(x.Mod(x, q).Cmp(y.Mod(y, q)) == 0, msg)
	}
	v.Assert(len(a) == len(b), msg)
}

func zzBlindPolys(r *ring.Ring, a, b []ring.Poly, msg string, names ...string) {
	for l, q := range zzModuli(r) {
		zzBlind(zzFlat(r, a, l), zzFlat(r, b, l), new(big.Int).SetUint64(q), msg, names...)
	}
}

func zzDecodeAll(prm Parameters, ps []ring.Poly) (out []*big.Int) {
	for _, p := range ps {
		out = append(out, zzDecode(prm, prm.ringQ, zzCoefs(prm.ringQ, p))...)
	}
	return out
}

// zzWitnesses are polynomials of the same values at the point.
func zzWitnesses(prm Parameters, x *fe.E) (pa, pb [][]*fe.E) {
	for i := range prm.batch {
		n := v.Param("len")
		if i%2 == 1 {
			n = v.Param("len2")
		}
		a, b := zzVec("polyA", n), zzVec("polyB", n)
		if n > 0 && x != nil {
			// b[0] makes up for the others
			b[0] = fe.Of(new(big.Int))
			d := new(big.Int).Sub(zzEval(a, x), zzEval(b, x))
			b[0] = fe.Of(d)
		}
		pa, pb = append(pa, a), append(pb, b)
	}
	return pa, pb
}

// ZZC21: an opening is blinded.
func ZZC21() {
	t := zzSetup()
	zzChalSym, zzOrder = false, nil
	prm := t.P.params
	q := prm.ringQ
	x := fe.Of(big.NewInt(int64(v.Param("x") - 1)))
	pa, pb := zzWitnesses(prm, x)
	if v.Param("warm") == 1 {
		// the prover has been used before
		zzProve(t, "W", x, pb)
	}
	a := zzProve(t, "A", x, pa)
	b := zzProve(t, "B", x, pb)

	// the responses
	zzBlindPolys(q, a.pf.Encode[:1], b.pf.Encode[:1], "the responses of the first row are blinded", "noiseA7")
	zzBlindPolys(q, a.pf.Encode[1:], b.pf.Encode[1:], "the responses of the other rows are blinded", "noiseA5")
	zzBlindPolys(q, a.pf.MLWE, b.pf.MLWE, "the responses of the commitment randomness are blinded", "noiseA13")
	zzBlindPolys(q, a.pf.Partial, b.pf.Partial, "the partial evaluations are blinded", "noiseA3")
	// the values they encode
	zzBlind(zzDecodeAll(prm, append(append([]ring.Poly{}, a.pf.Encode...), a.pf.Partial...)),
		zzDecodeAll(prm, append(append([]ring.Poly{}, b.pf.Encode...), b.pf.Partial...)), fe.P, "the encoded values are blinded", "randomA")
	v.Cover("done")
}

// ZZC21Share: the randomness of columns, rows and commitments is not shared.
func ZZC21Share() {
	t := zzSetup()
	prm := t.P.params
	q, qo := prm.ringQ, prm.ringQOut
	pa, pb := zzWitnesses(prm, nil)
	a := zzProve(t, "A", nil, pa)
	b := zzProve(t, "B", nil, pb)
	type sorts struct{ first, first0, other, other0, rand, rand0, enc []ring.Poly }
	split := func(z zzRun) (s sorts) {
		for _, o := range z.open {
			for i := range o.Encode {
				if i == prm.cols {
					s.first0 = append(s.first0, o.Encode[i][0])
					s.other0 = append(s.other0, o.Encode[i][1:]...)
					s.rand0 = append(s.rand0, o.MLWE[i]...)
				} else {
					s.first = append(s.first, o.Encode[i][0])
					s.other = append(s.other, o.Encode[i][1:]...)
					s.rand = append(s.rand, o.MLWE[i]...)
				}
				s.enc = append(s.enc, o.Encode[i]...)
			}
		}
		return s
	}
	x, y := split(a), split(b)
	zzBlindPolys(q, x.first, y.first, "each encoding of a first row has its own noise", "noiseA3")
	zzBlindPolys(q, x.other, y.other, "each encoding of another row has its own noise", "noiseA2")
	zzBlindPolys(q, x.first0, y.first0, "each mask of a first row has its own noise", "noiseA7")
	zzBlindPolys(q, x.other0, y.other0, "each mask of another row has its own noise", "noiseA5")
	zzBlindPolys(q, x.rand, y.rand, "each commitment has its own randomness", "noiseA11")
	zzBlindPolys(q, x.rand0, y.rand0, "each mask has its own randomness", "noiseA13")

	// the inner commitments are computed from all of it
	qs := zzModuli(q)
	w := make([]uint64, len(qs))
	for _, o := range a.open {
		for i := range o.Encode {
			for j := 0; j < prm.inMSISRank; j++ {
				acc := zzZero(q)
				one := big.NewInt(1)
				for r := range o.Encode[i] {
					zzMac(acc, zzCoefs(q, t.P.ck.In[j][r]), zzCoefs(q, o.Encode[i][r]), one)
				}
				for r := 0; r < prm.mlweRank; r++ {
					zzMac(acc, zzCoefs(q, t.P.ck.MLWE[j][r]), zzCoefs(q, o.MLWE[i][r]), one)
				}
				zzLin(acc, zzCoefs(q, o.MLWE[i][prm.mlweRank+j]), one)
				p := zzToPoly(q, acc)
				got := zzCoefs(qo, o.InCommit[i*prm.inMSISRank+j])
				for c := 0; c < q.N(); c++ {
					for l := range qs {
						w[l] = p.Coeffs[l][c]
					}
					want := v.Balanced(w, qs)
					want.Rsh(want, uint(prm.logInCutOff))
					for l, m := range zzModuli(qo) {
						d := new(big.Int).Mod(want, new(big.Int).SetUint64(m))
						v.Assert(d.Cmp(got[l][c]) == 0, "the inner commitments hold the randomness")
					}
				}
			}
		}
	}
	v.Cover("done")
}
