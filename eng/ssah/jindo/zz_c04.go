package jindo

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/fe"
	"github.com/sp301415/ringo-snark/zzverif/v"
	"github.com/tuneinsight/lattigo/v6/ring"
)

type zzParties struct {
	P *Prover[*fe.E]
	V *Verifier[*fe.E]
}

func zzSetup() zzParties {
	zzField()
	return v.Setup("parties", func() zzParties {
		zzField()
		crs := []byte("common reference string")
		return zzParties{NewProver[*fe.E](zzParams(), crs), NewVerifier[*fe.E](zzParams(), crs)}
	})
}

// Challenges in the order of their first use: fixed ones or arbitrary ones.
var (
	zzChals   map[string][]int64
	zzOrder   [][]int64
	zzChalSym bool
)

// zzNewChal is the k-th challenge.
func zzNewChal(prm Parameters, k int64) (c []int64) {
	half := int64(prm.ChallengeBound() / 2)
	for i := 0; i < prm.ecd.exp; i++ {
		if zzChalSym {
			c = append(c, v.I64("chal", -half, half))
		} else {
			x := (3*k*k + 5*int64(i)*(k+1) + 7*k + 1) % (2*half + 1)
			c = append(c, x-half)
		}
	}
	return c
}

// zzChal stands for encodeChallengeTo, decided on its own (C08).
func zzChal(prm Parameters, r *ring.Ring, pOut ring.Poly, b []byte) bool {
	if zzChals == nil {
		return false
	}
	zzSee(b)
	c, ok := zzChals[string(b)]
	if !ok {
		k := len(zzChals)
		for k >= len(zzOrder) {
			zzOrder = append(zzOrder, zzNewChal(prm, int64(len(zzOrder))))
		}
		c = zzOrder[k]
		zzChals[string(b)] = c
	}
	pOut.Zero()
	for i, x := range c {
		setCoeffSigned(r, pOut, x, i*prm.slots)
	}
	r.MForm(pOut, pOut)
	r.NTT(pOut, pOut)
	return true
}

// zzNorm stands for verifyNorm, decided on its own (C10), where the elements are small for
// every value of the symbols.
func zzNorm(r *ring.Ring, rns *RNSReconstructor, p []ring.Poly, nm float64) (done, ok bool) {
	if zzBound {
		return true, false
	}
	if zzNormRec {
		return true, zzRecord(r, p, nm)
	}
	if !v.Symbolic() {
		return false, false
	}
	bound := big.NewInt(int64(nm))
	bound.Mul(bound, bound)
	sum := new(big.Int)
	cs := zzBigs(r.N(), "", nil)
	for _, x := range p {
		rns.reconstructTo(cs, x)
		for _, c := range cs {
			m := v.Most(c)
			sum.Add(sum, m.Mul(m, m))
		}
	}
	v.Show("norm", new(big.Int).Sqrt(sum).BitLen())
	ok = sum.Cmp(bound) < 0
	return ok, ok
}

func zzX() *fe.E {
	if k := v.Param("x"); k != 0 {
		return fe.Of(big.NewInt(int64(k) - 1))
	}
	return fe.Sym("x")
}

func zzEval(p []*fe.E, x *fe.E) *big.Int {
	s := new(big.Int)
	for i := len(p) - 1; i >= 0; i-- {
		s.Mul(s, x.BigInt(new(big.Int)))
		s.Add(s, p[i].BigInt(new(big.Int)))
	}
	return s.Mod(s, fe.P)
}

// ZZC04: what is committed is opened.
func ZZC04() {
	t := zzSetup()
	zzNoise()
	zzChals, zzChalSym = map[string][]int64{}, v.Param("symchal") == 1
	prm := t.P.params
	if v.Param("copy") == 1 {
		t.P = t.P.SafeCopy()
	}
	ps := make([][]*fe.E, prm.batch)
	com := make([]*Commitment, prm.batch)
	open := make([]*Opening, prm.batch)
	keep := make([][]*big.Int, prm.batch)
	x := zzX()
	for i := range ps {
		n := v.Param("len")
		if i%2 == 1 {
			n = v.Param("len2")
		}
		if v.Param("fixed") == 1 {
			ps[i] = make([]*fe.E, n)
			for j := range ps[i] {
				ps[i][j] = fe.Of(big.NewInt(int64(j*j*17 + 3*i + 5)))
			}
		} else {
			ps[i] = zzVec("poly", n)
		}
		for _, e := range ps[i] {
			keep[i] = append(keep[i], e.BigInt(new(big.Int)))
		}
		com[i], open[i] = t.P.Commit(ps[i])
	}
	xs := x.BigInt(new(big.Int))
	evals, pf := t.P.Evaluate(x, ps, com, open)
	v.Assert(len(evals) == prm.batch, "one value for each polynomial")
	for i := range ps {
		v.Assert(evals[i].BigInt(new(big.Int)).Cmp(zzEval(ps[i], x)) == 0, "the values are those of the polynomials")
		for j := range ps[i] {
			v.Assert(ps[i][j].BigInt(new(big.Int)).Cmp(keep[i][j]) == 0, "the polynomials are left alone")
		}
	}
	ok := t.V.Verify(x, com, evals, pf)
	v.Assert(ok, "an honest opening is accepted")
	v.Assert(x.BigInt(new(big.Int)).Cmp(xs) == 0, "the point is left alone")
	if v.Param("again") == 1 {
		// another opening of the same commitments, and the first one once more
		y := fe.Of(big.NewInt(3))
		evals2, pf2 := t.P.Evaluate(y, ps, com, open)
		v.Assert(t.V.Verify(y, com, evals2, pf2), "a second opening is accepted")
		v.Assert(t.V.Verify(x, com, evals, pf), "the first opening is accepted again")
	}
	v.Cover("done")
}

// ZZC04Refuse: what does not fit is refused.
func ZZC04Refuse() {
	t := zzSetup()
	zzNoise()
	prm := t.P.params
	long := zzVec("poly", prm.rank+1)
	v.Assert(v.MustPanic(func() { t.P.Commit(long) }), "polynomials beyond the rank are refused")
	v.Assert(v.MustPanic(func() {
		t.P.Evaluate(fe.Of(big.NewInt(1)), make([][]*fe.E, prm.batch+1), make([]*Commitment, prm.batch+1), make([]*Opening, prm.batch+1))
	}), "other batch sizes are refused")
	v.Assert(v.MustPanic(func() {
		t.P.Evaluate(fe.Of(big.NewInt(1)), make([][]*fe.E, prm.batch), make([]*Commitment, prm.batch+1), make([]*Opening, prm.batch))
	}), "unequal numbers are refused")
	v.Cover("done")
}
