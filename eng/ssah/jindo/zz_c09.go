package jindo

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/v"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// zzPrimes are the primes of the given size for rings of degree n; the alternative
// sizes take turns when mixed is set.
func zzPrimes(n, bits, limbs, mixed int) []uint64 {
	var out []uint64
	for l := 0; l < limbs; l++ {
		b := bits
		if mixed != 0 && l%2 == 1 {
			b = mixed
		}
		m := uint64(1)<<uint(b) + 1
		for {
			dup := false
			for _, x := range out {
				dup = dup || x == m
			}
			if !dup && new(big.Int).SetUint64(m).ProbablyPrime(10) {
				break
			}
			m += 2 * uint64(n)
		}
		out = append(out, m)
	}
	return out
}

func zzRing(n, bits, limbs, mixed int) *ring.Ring {
	r, err := ring.NewRing(n, zzPrimes(n, bits, limbs, mixed))
	if err != nil {
		panic(err)
	}
	return r
}

func zzRNS() *RNSReconstructor {
	return v.Setup("rns", func() *RNSReconstructor {
		return newRNSReconstructor(zzRing(8, v.Param("bits"), v.Param("limbs"), v.Param("mixed")))
	})
}

func zzBigs(n int, name string, b *big.Int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = big.NewInt(int64(i) - 3)
		if name != "" {
			out[i] = v.Big(name, new(big.Int).Neg(b), b)
		}
	}
	return out
}

// ZZC09: the reconstructed integer is balanced and has the residues.
func ZZC09() {
	r := zzRNS()
	Q := r.ringQ.Modulus()
	n := r.ringQ.N()
	k := v.Param("at")
	p := r.ringQ.NewPoly()
	for l := range p.Coeffs {
		q := r.ringQ.SubRings[l].Modulus
		for i := 0; i < n; i++ {
			p.Coeffs[l][i] = uint64(i) * 12345 % q
			if i%2 == 1 {
				p.Coeffs[l][i] = q - uint64(i)
			}
		}
		p.Coeffs[l][k] = v.U64("residue", 0, q-1)
	}
	keep := p.CopyNew()
	out := zzBigs(n, "before", Q)
	r.reconstructTo(out, p)
	t := new(big.Int)
	for i := 0; i < n; i++ {
		for l := range p.Coeffs {
			q := r.ringQ.SubRings[l].Modulus
			v.Assert(p.Coeffs[l][i] == keep.Coeffs[l][i], "the residues are left alone")
			v.Assert(t.Mod(out[i], new(big.Int).SetUint64(q)).Uint64() == p.Coeffs[l][i], "the integer has the residues")
		}
		t.Lsh(out[i], 1)
		v.Assert(t.Cmp(Q) <= 0, "the integer is not above the balance point")
		t.Neg(t)
		v.Assert(t.Cmp(Q) < 0, "the integer is not below the balance point")
	}
	v.Cover("done")
	// and back
	w := r.ringQ.NewPoly()
	r.setBigCoeffTo(w, out)
	for l := range p.Coeffs {
		for i := 0; i < n; i++ {
			v.Assert(w.Coeffs[l][i] == p.Coeffs[l][i], "writing it back gives the residues")
		}
	}
}

// ZZC09Set: any integer is written as its residues; balanced ones come back.
func ZZC09Set() {
	r := zzRNS()
	Q := r.ringQ.Modulus()
	n := r.ringQ.N()
	k := v.Param("at")
	in := zzBigs(n, "", nil)
	b := new(big.Int).Lsh(Q, 2)
	if v.Param("small") == 1 {
		b = big.NewInt(1 << 20)
	}
	x := v.Big("x", new(big.Int).Neg(b), b)
	if s := v.Param("residue"); s > 0 {
		// all residues are the same number
		x = v.Big("x", new(big.Int), new(big.Int).SetUint64(r.ringQ.SubRings[0].Modulus))
	}
	in[k] = x
	if v.Param("same") == 1 {
		for i := range in {
			in[i] = x
		}
	}
	keep := make([]*big.Int, n)
	for i := range in {
		keep[i] = new(big.Int).Set(in[i])
	}
	w := r.ringQ.NewPoly()
	for l := range w.Coeffs {
		w.Coeffs[l][k] = v.U64("before", 0, ^uint64(0))
	}
	r.setBigCoeffTo(w, in)
	t := new(big.Int)
	for l := range w.Coeffs {
		q := new(big.Int).SetUint64(r.ringQ.SubRings[l].Modulus)
		for i := 0; i < n; i++ {
			v.Assert(in[i].Cmp(keep[i]) == 0, "the integer is left alone")
			v.Assert(w.Coeffs[l][i] == t.Mod(in[i], q).Uint64(), "the residues are written")
		}
	}
	half := new(big.Int).Rsh(Q, 1)
	v.Assume(t.Abs(x).Cmp(half) <= 0)
	out := zzBigs(n, "", nil)
	r.reconstructTo(out, w)
	for i := range in {
		v.Assert(out[i].Cmp(in[i]) == 0, "a balanced integer comes back")
	}
	v.Cover("done")
}

// ZZC09Balanced: single words.
func ZZC09Balanced() {
	q := v.U64("q", 3, 1<<61)
	v.Assume(q%2 == 1)
	x := v.U64("x", 0, 1<<61)
	v.Assume(x < q)
	y := toBalanced(x, q)
	z := y
	if x > q/2 {
		v.Assert(y < 0, "the upper half is negative")
		z = y + int64(q)
	} else {
		v.Assert(y >= 0, "the lower half is not negative")
	}
	v.Assert(z == int64(x), "the residue is kept")
	v.Cover("done")
}

// ZZC09Copy: a copy works alike.
func ZZC09Copy() {
	r := zzRNS()
	n := r.ringQ.N()
	c := r.safeCopy()
	p := r.ringQ.NewPoly()
	for l := range p.Coeffs {
		p.Coeffs[l][1] = v.U64("residue", 0, r.ringQ.SubRings[l].Modulus-1)
	}
	a, b := zzBigs(n, "", nil), zzBigs(n, "", nil)
	r.reconstructTo(a, p)
	c.reconstructTo(b, p)
	for i := range a {
		v.Assert(a[i].Cmp(b[i]) == 0, "a copy reconstructs alike")
	}
}
