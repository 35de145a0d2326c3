// Package sym is a symbolic prime-field element that implements the repository's
// bignum.Uint method set, so that the repository's own generic code can be
// executed over symbolic values. Values are sparse multivariate polynomials over
// F_p in normal form; branch conditions and final assertions are handed to an SMT
// solver (theory of finite fields).
package sym

import (
	"math/big"
	"math/bits"
)

// Fe is a field element in Montgomery form (R = 2^256).
type Fe [4]uint64

var (
	// P is the field modulus: P = Base^8 + 1 (so that it is also "jindo friendly"),
	// with 2^136 dividing P-1.
	P, _ = new(big.Int).SetString("456971681889254061365798994021426433939823582366973477248501914009600000001", 10)

	pl    Fe
	pInv  uint64
	feOne Fe
	rr    Fe
)

func init() {
	pl = limbs(P)
	// -p^-1 mod 2^64
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - pl[0]*inv
	}
	pInv = -inv
	r := new(big.Int).Lsh(big.NewInt(1), 256)
	feOne = limbs(new(big.Int).Mod(r, P))
	rr = limbs(new(big.Int).Mod(new(big.Int).Mul(r, r), P))
}

func limbs(x *big.Int) (f Fe) {
	var m big.Int
	t := new(big.Int).Set(x)
	mask := new(big.Int).SetUint64(^uint64(0))
	for i := range f {
		f[i] = m.And(t, mask).Uint64()
		t.Rsh(t, 64)
	}
	return
}

func unlimbs(f Fe) *big.Int {
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(f[i]))
	}
	return r
}

// FeFromBig reduces x modulo P.
func FeFromBig(x *big.Int) Fe {
	m := new(big.Int).Mod(x, P)
	return feMul(limbs(m), rr)
}

// Big returns the canonical integer of f.
func (f Fe) Big() *big.Int { return unlimbs(feMul(f, Fe{1})) }

// IsZero tells whether f is zero.
func (f Fe) IsZero() bool { return f == Fe{} }

func geP(f *Fe) bool {
	for i := 3; i >= 0; i-- {
		if f[i] != pl[i] {
			return f[i] > pl[i]
		}
	}
	return true
}

func feAdd(a, b Fe) (r Fe) {
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Add64(a[i], b[i], c)
	}
	if geP(&r) {
		c = 0
		for i := 0; i < 4; i++ {
			r[i], c = bits.Sub64(r[i], pl[i], c)
		}
	}
	return
}

func feNeg(a Fe) (r Fe) {
	if a.IsZero() {
		return
	}
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Sub64(pl[i], a[i], c)
	}
	return
}

func feSub(a, b Fe) Fe { return feAdd(a, feNeg(b)) }

func feMul(a, b Fe) Fe {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[j], b[i])
			var cc uint64
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j] = lo
			c = hi
		}
		var cc uint64
		t[4], cc = bits.Add64(t[4], c, 0)
		t[5] = cc
		m := t[0] * pInv
		hi, lo := bits.Mul64(m, pl[0])
		_, cc = bits.Add64(lo, t[0], 0)
		c = hi + cc
		for j := 1; j < 4; j++ {
			hi, lo := bits.Mul64(m, pl[j])
			var k uint64
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j-1] = lo
			c = hi
		}
		t[3], cc = bits.Add64(t[4], c, 0)
		t[4] = t[5] + cc
	}
	r := Fe{t[0], t[1], t[2], t[3]}
	if t[4] != 0 || geP(&r) {
		var c uint64
		for i := 0; i < 4; i++ {
			r[i], c = bits.Sub64(r[i], pl[i], c)
		}
	}
	return r
}

func feInv(a Fe) Fe {
	return FeFromBig(new(big.Int).ModInverse(a.Big(), P))
}
