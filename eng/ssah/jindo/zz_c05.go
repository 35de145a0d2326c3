package jindo

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/fe"
	"github.com/sp301415/ringo-snark/zzverif/v"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// zzNormRec makes the norm check (decided on its own, C10) record what it is asked, with
// an arbitrary answer.
var zzNormRec bool

type zzAsked struct {
	mod string
	sum *big.Int
	nm  float64
	ok  bool
}

var zzRecs []zzAsked

func zzModuli(r *ring.Ring) []uint64 {
	var qs []uint64
	for _, s := range r.SubRings {
		qs = append(qs, s.Modulus)
	}
	return qs
}

// zzSq is the sum of the squares of the balanced coefficients.
func zzSq(r *ring.Ring, ps []ring.Poly) *big.Int {
	qs := zzModuli(r)
	sum := new(big.Int)
	w := make([]uint64, len(qs))
	for _, p := range ps {
		for i := 0; i < r.N(); i++ {
			for l := range qs {
				w[l] = p.Coeffs[l][i]
			}
			b := v.Balanced(w, qs)
			sum.Add(sum, new(big.Int).Mul(b, b))
		}
	}
	return sum
}

func zzRecord(r *ring.Ring, ps []ring.Poly, nm float64) bool {
	ok := v.Bool("small")
	zzRecs = append(zzRecs, zzAsked{r.Modulus().String(), zzSq(r, ps), nm, ok})
	return ok
}

// zzPoly has arbitrary coefficients; c are its residues by limb.
func zzPoly(r *ring.Ring, name string, sym bool, seed int64) (p ring.Poly, c [][]*big.Int) {
	p = r.NewPoly()
	for l, s := range r.SubRings {
		var row []*big.Int
		for i := 0; i < r.N(); i++ {
			var x uint64
			if sym {
				x = v.U64(name, 0, s.Modulus-1)
			} else {
				x = uint64(seed*seed*31+seed*int64(i)*7+int64(i*i)+3) % s.Modulus
			}
			p.Coeffs[l][i] = x
			row = append(row, new(big.Int).SetUint64(x))
		}
		c = append(c, row)
	}
	r.MForm(p, p)
	r.NTT(p, p)
	return p, c
}

// zzCoefs are the residues of an element in the internal form.
func zzCoefs(r *ring.Ring, p ring.Poly) (c [][]*big.Int) {
	w := r.NewPoly()
	r.IMForm(p, w)
	r.INTT(w, w)
	for l := range w.Coeffs {
		var row []*big.Int
		for i := range w.Coeffs[l] {
			row = append(row, new(big.Int).SetUint64(w.Coeffs[l][i]))
		}
		c = append(c, row)
	}
	return c
}

// zzConst is a small integer polynomial, the same for all limbs.
func zzConst(r *ring.Ring, c []*big.Int) (out [][]*big.Int) {
	for range r.SubRings {
		out = append(out, c)
	}
	return out
}

// zzNil are n zeros.
func zzNil(n int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	return out
}

func zzZero(r *ring.Ring) (c [][]*big.Int) {
	for range r.SubRings {
		c = append(c, zzNil(r.N()))
	}
	return c
}

// zzMac adds f times the negacyclic product of a and b.
func zzMac(acc, a, b [][]*big.Int, f *big.Int) {
	for l := range acc {
		n := len(acc[l])
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				t := new(big.Int).Mul(a[l][i], b[l][j])
				t.Mul(t, f)
				if i+j < n {
					acc[l][i+j].Add(acc[l][i+j], t)
				} else {
					acc[l][i+j-n].Sub(acc[l][i+j-n], t)
				}
			}
		}
	}
}

func zzLin(acc, a [][]*big.Int, f *big.Int) {
	for l := range acc {
		for i := range acc[l] {
			acc[l][i].Add(acc[l][i], new(big.Int).Mul(a[l][i], f))
		}
	}
}

func zzToPoly(r *ring.Ring, c [][]*big.Int) ring.Poly {
	p := r.NewPoly()
	t := new(big.Int)
	for l, s := range r.SubRings {
		for i := range c[l] {
			p.Coeffs[l][i] = t.Mod(c[l][i], new(big.Int).SetUint64(s.Modulus)).Uint64()
		}
	}
	return p
}

// zzDecode is the meaning of an element: the slots of its balanced coefficients.
func zzDecode(prm Parameters, r *ring.Ring, c [][]*big.Int) []*big.Int {
	out := zzNil(prm.slots)
	qs := zzModuli(r)
	w := make([]uint64, len(qs))
	b := big.NewInt(int64(prm.ecd.base))
	for i := range out {
		for j := prm.ecd.exp - 1; j >= 0; j-- {
			for l := range qs {
				w[l] = c[l][j*prm.slots+i].Uint64()
			}
			out[i].Mul(out[i], b)
			out[i].Add(out[i], v.Balanced(w, qs))
		}
	}
	return out
}

// zzDigits is the plain encoding of a constant in all slots' first place.
func zzDigits(prm Parameters, x *big.Int) []*big.Int {
	c := zzNil(prm.slots*prm.ecd.exp)
	b := big.NewInt(int64(prm.ecd.base))
	t := new(big.Int).Set(x)
	for j := 0; j < prm.ecd.exp; j++ {
		if j == prm.ecd.exp-1 {
			c[j*prm.slots].Set(t)
		} else {
			t.DivMod(t, b, c[j*prm.slots])
		}
	}
	return c
}

// ZZC05: an accepted proof satisfies the equations, all of it arbitrary.
func ZZC05() {
	t := zzSetup()
	zzNoise()
	zzChals, zzChalSym = map[string][]int64{}, v.Param("symchal") == 1
	zzNormRec, zzRecs = true, nil
	ver := t.V
	prm := ver.params
	q, qo := prm.ringQ, prm.ringQOut
	sym := v.Param("sym")
	one := big.NewInt(1)
	neg := big.NewInt(-1)
	seed := int64(1)
	next := func(r *ring.Ring, name string, kind int) (ring.Poly, [][]*big.Int) {
		seed++
		return zzPoly(r, name, sym == 0 || sym == kind, seed)
	}

	com := make([]*Commitment, prm.batch)
	comC := make([][][][]*big.Int, prm.batch)
	for b := range com {
		com[b] = NewCommitment(prm)
		comC[b] = make([][][]*big.Int, prm.outMSISRank)
		for i := range com[b].Value {
			com[b].Value[i], comC[b][i] = next(qo, "com", 1)
		}
	}
	pf := NewProof(prm)
	inC := make([][][]*big.Int, len(pf.InCommit))
	for i := range inC {
		pf.InCommit[i], inC[i] = next(qo, "incommit", 2)
	}
	encC := make([][][]*big.Int, len(pf.Encode))
	for i := range encC {
		pf.Encode[i], encC[i] = next(q, "encode", 3)
	}
	mlC := make([][][]*big.Int, len(pf.MLWE))
	for i := range mlC {
		pf.MLWE[i], mlC[i] = next(q, "mlwe", 4)
	}
	partC := make([][][]*big.Int, len(pf.Partial))
	for i := range partC {
		pf.Partial[i], partC[i] = next(q, "partial", 5)
	}
	v.Assert(len(inC) == (prm.cols+1)*prm.inMSISRank && len(encC) == prm.rows && len(mlC) == prm.mlweRank+prm.inMSISRank && len(partC) == prm.cols, "the proof has all parts")
	x := zzX()
	X := x.BigInt(new(big.Int))

	// the challenges, in the order of their use
	want := prm.cols
	if prm.batch > 1 {
		want += prm.batch
	}
	zzOrder = nil
	for k := 0; k < want; k++ {
		// (the value of the first polynomial is stated by the weight of it: not zero)
		zzChalSym = v.Param("symchal") == 1 && !(k == 0 && prm.batch > 1)
		zzOrder = append(zzOrder, zzNewChal(prm, int64(k)))
	}
	chals := zzOrder
	lift := func(r *ring.Ring, c []int64) [][]*big.Int {
		p := zzNil(r.N())
		for i := range c {
			p[i*prm.slots].SetInt64(c[i])
		}
		return zzConst(r, p)
	}
	var batchC [][]int64
	if prm.batch > 1 {
		batchC, chals = chals[:prm.batch], chals[prm.batch:]
	}

	// the masked partial evaluation is the consistent one and a deviation
	cons := zzZero(q)
	skip := new(big.Int).Exp(X, big.NewInt(int64(prm.cols*prm.slots)), fe.P)
	l := big.NewInt(1)
	for i := range encC {
		if i == prm.rows-1 {
			l = X
		}
		zzMac(cons, zzConst(q, zzDigits(prm, l)), encC[i], one)
		l = new(big.Int).Mul(l, skip)
		l.Mod(l, fe.P)
	}
	for i := range partC {
		zzMac(cons, lift(q, chals[i]), partC[i], neg)
	}
	dev := make([][]uint64, len(cons))
	t2 := new(big.Int)
	for li, s := range q.SubRings {
		dev[li] = make([]uint64, q.N())
		for i := range dev[li] {
			dev[li][i] = v.U64("deviation", 0, s.Modulus-1)
			cons[li][i].Add(cons[li][i], t2.SetUint64(dev[li][i]))
		}
	}
	pf.PartialMask = zzMForm(q, cons)

	// and the first value is the right one and a deviation
	sum, pow := new(big.Int), big.NewInt(1)
	for i := range partC {
		for _, d := range zzDecode(prm, q, partC[i]) {
			sum.Add(sum, new(big.Int).Mul(d, pow))
			pow = new(big.Int).Mul(pow, X)
			pow.Mod(pow, fe.P)
		}
	}
	y := make([]*fe.E, prm.batch)
	devY := fe.Sym("deviation of the value")
	for i := 1; i < prm.batch; i++ {
		y[i] = fe.Sym("y")
		sum.Sub(sum, t2.Mul(zzWeight(prm, batchC[i]), y[i].BigInt(new(big.Int))))
	}
	if prm.batch > 1 {
		inv := new(big.Int).ModInverse(zzWeight(prm, batchC[0]), fe.P)
		sum.Mul(sum, inv)
	}
	y[0] = fe.Of(sum.Add(sum, devY.BigInt(new(big.Int))))

	ok := ver.Verify(x, com, y, pf)
	if !ok {
		v.Cover("refused")
		return
	}
	v.Cover("accepted")

	v.Assert(len(zzChals) == want, "a challenge for every column and batch element")

	// the outer commitments
	var outer []ring.Poly
	for i := range inC {
		outer = append(outer, zzToPoly(qo, inC[i]))
	}
	for i := 0; i < prm.outMSISRank; i++ {
		acc := zzZero(qo)
		s := new(big.Int).Lsh(one, uint(prm.logOutCutOff))
		for b := range com {
			if prm.batch > 1 {
				zzMac(acc, comC[b][i], lift(qo, batchC[b]), s)
			} else {
				zzLin(acc, comC[b][i], s)
			}
		}
		for j := range inC {
			zzMac(acc, zzCoefs(qo, ver.ck.Out[i][j]), inC[j], neg)
		}
		outer = append(outer, zzToPoly(qo, acc))
	}
	zzSmall(qo, outer, prm.inComDcmpTwoNm, "the inner commitments and the cut-offs of the outer commitments are small")

	// the inner commitments
	var inner []ring.Poly
	for i := range encC {
		inner = append(inner, zzToPoly(q, encC[i]))
	}
	for i := range mlC {
		inner = append(inner, zzToPoly(q, mlC[i]))
	}
	qs := zzModuli(qo)
	w := make([]uint64, len(qs))
	for i := 0; i < prm.inMSISRank; i++ {
		acc := zzZero(q)
		s := new(big.Int).Lsh(one, uint(prm.logInCutOff))
		for j := 0; j <= prm.cols; j++ {
			c := inC[j*prm.inMSISRank+i]
			b := zzNil(q.N())
			for k := range b {
				for l := range qs {
					w[l] = c[l][k].Uint64()
				}
				b[k] = v.Balanced(w, qs)
			}
			if j == prm.cols {
				zzLin(acc, zzConst(q, b), s)
			} else {
				zzMac(acc, zzConst(q, b), lift(q, chals[j]), s)
			}
		}
		for j := range encC {
			zzMac(acc, zzCoefs(q, ver.ck.In[i][j]), encC[j], neg)
		}
		for j := 0; j < prm.mlweRank; j++ {
			zzMac(acc, zzCoefs(q, ver.ck.MLWE[i][j]), mlC[j], neg)
		}
		zzLin(acc, mlC[prm.mlweRank+i], neg)
		inner = append(inner, zzToPoly(q, acc))
	}
	zzSmall(q, inner, prm.resTwoNm, "the responses and the cut-offs of the inner commitments are small")

	// (the deviation is zero where its transform is)
	d := q.NewPoly()
	for li := range dev {
		copy(d.Coeffs[li], dev[li])
	}
	q.MForm(d, d)
	q.NTT(d, d)
	for li := range dev {
		for i := range dev[li] {
			v.Assert(d.Coeffs[li][i] == 0, "the partial evaluations are consistent with the responses")
		}
	}
	dy := devY.BigInt(new(big.Int))
	if prm.batch > 1 {
		// in the sum weighted by the challenges, where its weight is not zero
		w := zzWeight(prm, batchC[0])
		v.Assert(w.Sign() != 0, "the weights are not zero")
		dy.Mul(dy, w)
		dy.Mod(dy, fe.P)
	}
	v.Assert(dy.Sign() == 0, "the values are those of the partial evaluations")
}

// zzWeight is the weight of a polynomial's value in a batch.
func zzWeight(prm Parameters, c []int64) *big.Int {
	w, b := new(big.Int), big.NewInt(int64(prm.ecd.base))
	for j := len(c) - 1; j >= 0; j-- {
		w.Mul(w, b)
		w.Add(w, big.NewInt(c[j]))
	}
	return w.Mod(w, fe.P)
}

func zzMForm(r *ring.Ring, c [][]*big.Int) ring.Poly {
	p := zzToPoly(r, c)
	r.MForm(p, p)
	r.NTT(p, p)
	return p
}

// zzSmall: some norm check said that these elements are small.
func zzSmall(r *ring.Ring, ps []ring.Poly, nm float64, msg string) {
	sum := zzSq(r, ps)
	found := false
	for _, a := range zzRecs {
		if a.mod == r.Modulus().String() && a.nm <= nm {
			found = true
			v.Assert(a.ok && a.sum.Cmp(sum) == 0, msg)
		}
	}
	v.Assert(found, msg)
}
