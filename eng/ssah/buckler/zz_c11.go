package buckler

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/v"
)

func zzPow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// zzDigits checks one decomposition: the digits of val recombine to it.
func zzDigits(base []*big.Int, x, val, q *big.Int) {
	in := new(big.Int).Set(val)
	in.Mod(in, q)
	d := decomposeBig(in, base, q)
	v.Assert(len(d) == len(base), "one digit per base element")
	sum := new(big.Int)
	for i := range d {
		v.Assert(d[i] >= -1 && d[i] <= 1, "digits are ternary")
		if val.Sign() >= 0 {
			v.Assert(d[i] >= 0, "digits of a nonnegative value are binary")
		}
		sum.Add(sum, new(big.Int).Mul(big.NewInt(d[i]), base[i]))
	}
	v.Assert(sum.Cmp(val) == 0, "the digits recombine to the value")
	lo := new(big.Int).Mod(in, q)
	v.Assert(in.Cmp(lo) == 0, "the value is left alone")
}

func zzBase(x *big.Int) []*big.Int {
	keep := new(big.Int).Set(x)
	base := decomposeBase(x)
	v.Assert(x.Cmp(keep) == 0, "the bound is left alone")
	sum := new(big.Int)
	for i := range base {
		v.Assert(base[i].Sign() > 0, "base elements are positive")
		sum.Add(sum, base[i])
	}
	v.Assert(sum.Cmp(x) == 0, "the base sums up to the bound")
	return base
}

// ZZC11 decides the decomposition for every bound of n bits and every value within.
func ZZC11() {
	n := v.Param("bits")
	lo := new(big.Int)
	if n > 0 {
		lo = zzPow2(n - 1)
	}
	hi := new(big.Int).Sub(zzPow2(n), big.NewInt(1))
	x := v.Big("bound", lo, hi)
	q := new(big.Int).Sub(zzPow2(127), big.NewInt(1))
	base := zzBase(x)
	val := v.Big("value", new(big.Int).Neg(hi), hi)
	v.Assume(new(big.Int).Abs(val).Cmp(x) <= 0)
	zzDigits(base, x, val, q)
	v.Cover("done")
}

// ZZC11Len decides the base for every bound of n bits.
func ZZC11Len() {
	n := v.Param("bits")
	x := v.Big("bound", zzPow2(n-1), new(big.Int).Sub(zzPow2(n), big.NewInt(1)))
	zzBase(x)
}

// ZZC11Fixed decides the decomposition of every value for one bound, 2^bits + off.
func ZZC11Fixed() {
	x := zzPow2(v.Param("bits"))
	x.Add(x, big.NewInt(int64(v.Param("off"))))
	q := new(big.Int).Sub(zzPow2(v.Param("qbits")), big.NewInt(1))
	if v.Param("half") == 1 {
		x.Rsh(q, 1)
	}
	base := zzBase(x)
	val := v.Big("value", new(big.Int).Neg(x), x)
	zzDigits(base, x, val, q)
}

// ZZC11Wide decides the base for large bounds, and the decomposition of values next to
// its limits and to one symbolic value.
func ZZC11Wide() {
	n := v.Param("bits")
	x := zzPow2(n)
	x.Add(x, big.NewInt(int64(v.Param("off"))))
	q := new(big.Int).Sub(zzPow2(n+2), big.NewInt(1))
	base := zzBase(x)
	k := v.Big("distance", new(big.Int), big.NewInt(6))
	for _, neg := range []bool{false, true} {
		for _, i := range []int{-1, n / 2} {
			val := new(big.Int).Set(x)
			if i >= 0 {
				val = zzPow2(i)
				val.Add(val, k)
				if val.Cmp(x) > 0 {
					continue
				}
			} else {
				val.Sub(val, k)
			}
			if neg {
				val.Neg(val)
			}
			zzDigits(base, x, val, q)
		}
	}
}
