package jindo

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/fe"
	"github.com/sp301415/ringo-snark/zzverif/v"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func zzStale(r *ring.Ring) ring.Poly {
	p := r.NewPoly()
	for l := range p.Coeffs {
		for i := range p.Coeffs[l] {
			p.Coeffs[l][i] = v.U64("stale", 0, r.SubRings[l].Modulus-1)
		}
	}
	return p
}

func zzVec(name string, n int) []*fe.E {
	out := make([]*fe.E, n)
	for i := range out {
		out[i] = fe.Sym(name)
	}
	return out
}

// ZZC07: encoding, with or without noise, and decoding.
func ZZC07() {
	zzField()
	e := v.Setup("encoder", func() *Encoder[*fe.E] { zzField(); return newEncoder[*fe.E](zzParams()) })
	if v.Param("copy") == 1 {
		e = e.safeCopy()
	}
	asked := zzNoise()
	r := e.params.ringQ
	slots, exp := e.params.slots, e.params.ecd.exp
	base := e.params.ecd.base
	in := zzVec("in", v.Param("len"))
	keep := make([]*big.Int, len(in))
	for i := range in {
		keep[i] = in[i].BigInt(new(big.Int))
	}
	p := zzStale(r)
	w := p
	switch v.Param("kind") {
	case 0:
		// the digits
		e.baseEncodeTo(p, in)
		for l := range p.Coeffs {
			for i := 0; i < slots; i++ {
				sum := new(big.Int)
				for j := exp - 1; j >= 0; j-- {
					d := p.Coeffs[l][j*slots+i]
					v.Assert(d <= base, "coefficients are between zero and the base")
					if i >= len(in) {
						v.Assert(d == 0, "positions beyond the vector encode zero")
					}
					sum.Mul(sum, new(big.Int).SetUint64(base)).Add(sum, new(big.Int).SetUint64(d))
				}
				if i < len(in) {
					v.Assert(sum.Cmp(keep[i]) == 0, "the digits are those of the element")
				}
			}
		}
	case 1:
		e.encodeTo(p, in)
		w = r.NewPoly()
		r.IMForm(p, w)
		r.INTT(w, w)
	case 2:
		w = e.encode(in)
		r.IMForm(w, w)
		r.INTT(w, w)
	case 3:
		// the deviation is that of the precomputed sampler, or another one
		sd := e.params.ecdStdDev
		if v.Param("other") == 1 {
			sd = 6
		}
		e.randEncodeTo(p, in, sd)
		for _, x := range *asked {
			v.Assert(x == sd, "the noise has the deviation asked for")
		}
		v.Assert(len(*asked) == 0 || len(*asked) == r.N(), "noise for every coefficient")
		w = r.NewPoly()
		r.IMForm(p, w)
		r.INTT(w, w)
	}
	out := zzVec("out", slots)
	e.DecodeTo(out, w)
	for i := range out {
		x := out[i].BigInt(new(big.Int))
		if i < len(in) {
			v.Assert(x.Cmp(keep[i]) == 0, "decoding returns the vector")
			v.Assert(in[i].BigInt(new(big.Int)).Cmp(keep[i]) == 0, "the vector is left alone")
		} else {
			v.Assert(x.Sign() == 0, "decoding returns zero beyond the vector")
		}
	}
	v.Cover("done")
	// a second time, with what the first has left in the buffers
	if v.Param("again") == 1 {
		in2 := zzVec("in2", v.Param("len2"))
		if v.Param("kind") == 3 {
			e.randEncodeTo(p, in2, e.params.ecdStdDev)
		} else {
			e.encodeTo(p, in2)
		}
		r.IMForm(p, p)
		r.INTT(p, p)
		e.DecodeTo(out, p)
		for i := range out {
			if i < len(in2) {
				v.Assert(out[i].Cmp(in2[i]) == 0, "decoding returns the second vector")
			} else {
				v.Assert(out[i].BigInt(new(big.Int)).Sign() == 0, "decoding returns zero beyond the second vector")
			}
		}
	}
}

// ZZC07Long: more elements than slots are refused.
func ZZC07Long() {
	e := v.Setup("encoder", func() *Encoder[*fe.E] { zzField(); return newEncoder[*fe.E](zzParams()) })
	zzField()
	zzNoise()
	in := zzVec("in", e.params.slots+1)
	p := e.params.ringQ.NewPoly()
	v.Assert(v.MustPanic(func() { e.encodeTo(p, in) }), "more elements than slots are refused")
	v.Assert(v.MustPanic(func() { e.randEncodeTo(p, in, 2) }), "more elements than slots are refused")
	v.Cover("done")
}

// ZZC08: challenges.
func ZZC08() {
	zzField()
	prm := v.Setup("params", func() Parameters { zzField(); return zzParams() })
	r := prm.ringQ
	if v.Param("outer") == 1 {
		r = prm.ringQOut
	}
	b := make([]byte, 16)
	for i := range b {
		b[i] = v.Byte("byte")
	}
	keep := append([]byte{}, b...)
	p, p2 := zzStale(r), r.NewPoly()
	encodeChallengeTo(prm, r, p, b)
	encodeChallengeTo(prm, r, p2, b)
	w := r.NewPoly()
	r.IMForm(p, w)
	r.INTT(w, w)
	half := prm.ChallengeBound() / 2
	// the norm analysis counts with half of the base, and of 120 bits in all
	most := new(big.Int).Lsh(big.NewInt(1), uint(120/prm.ecd.exp))
	if b := new(big.Int).SetUint64(prm.ecd.base); b.Cmp(most) < 0 {
		most = b
	}
	most.Rsh(most, 1)
	v.Assert(new(big.Int).SetUint64(half).Cmp(most) <= 0, "the bound is that of the norm analysis")
	var c0 []int64
	for i := 0; i < r.N(); i++ {
		var c int64
		for l := range p.Coeffs {
			v.Assert(p.Coeffs[l][i] == p2.Coeffs[l][i], "the challenge is a function of the bytes")
			q := r.SubRings[l].Modulus
			x := w.Coeffs[l][i]
			y := toBalanced(x, q)
			if l == 0 {
				c = y
			}
			v.Assert(c == y, "the limbs agree")
			v.Assert(y <= int64(half) && y >= -int64(half), "the coefficients are bounded")
			if i%prm.slots != 0 {
				v.Assert(x == 0, "only the promised monomials occur")
			}
		}
		if i%prm.slots == 0 {
			c0 = append(c0, c)
		}
	}
	for i := range b {
		v.Assert(b[i] == keep[i], "the bytes are left alone")
	}
	if k := v.Param("reach"); k > 0 {
		k--
		v.Possible(c0[k] == int64(half), "the greatest coefficient occurs")
		// (b-1)/2 is what the other half reaches
		v.Possible(c0[k] == -int64((prm.ChallengeBound()-1)/2), "the least coefficient occurs")
		v.Possible(c0[k] == 0, "zero occurs")
		if len(c0) > 1 {
			v.Possible(c0[k] != c0[(k+1)%len(c0)], "coefficients differ")
		}
	}
	v.Cover("done")
}
