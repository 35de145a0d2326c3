package zp

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/v"
)

// zzWords writes a number of at most 64*Limbs bits.
func zzWords(x *big.Int) (z Uint) {
	t := new(big.Int)
	for i := range z {
		z[i] = t.Rsh(x, uint(64*i)).Uint64()
	}
	return z
}

// zzValue is the number an element's words stand for.
func zzValue(z *Uint) *big.Int {
	s, t := new(big.Int), new(big.Int)
	for i := range z {
		s.Add(s, t.Lsh(t.SetUint64(z[i]), uint(64*i)))
	}
	return s
}

// zzEl is an arbitrary canonical element: its words and its number.
func zzEl(name string) (z Uint, x *big.Int) {
	q := Modulus()
	top := zzWords(q)[Limbs-1]
	for i := range z {
		hi := ^uint64(0)
		if i == Limbs-1 {
			hi = top
		}
		z[i] = v.U64(zzName(name, i), 0, hi)
	}
	x = zzValue(&z)
	v.Assume(x.Cmp(q) < 0)
	return z, x
}

func zzName(name string, i int) string {
	return name + string(rune('0'+i/10)) + string(rune('0'+i%10))
}

// zzIs: z is canonical and equals f*num, for a number f prime to q given by its inverse power of two.
func zzIs(z *Uint, num *big.Int, shift int, msg string) {
	q := Modulus()
	w := zzValue(z)
	v.Assert(w.Sign() >= 0 && w.Cmp(q) < 0, "results are reduced")
	d := new(big.Int).Lsh(w, uint(shift))
	d.Sub(d, num)
	v.Assert(d.Mod(d, q).Sign() == 0, msg)
}

const zzR = 64 * Limbs

// ZZC17: an operation on arbitrary elements.
func ZZC17() {
	q := Modulus()
	x, X := zzEl("x")
	y, Y := zzEl("y")
	var out Uint
	for i := range out {
		out[i] = v.U64(zzName("stale", i), 0, ^uint64(0))
	}
	stale := zzValue(&out)
	a, b, z := &x, &y, &out
	switch v.Param("alias") {
	case 1:
		z = a
	case 2:
		z = b
	case 3:
		z, b, Y = a, a, X
	case 4:
		b, Y = a, X
	}
	n := new(big.Int)
	var ret *Uint
	switch v.Param("op") {
	case 0:
		ret = z.Add(a, b)
		zzIs(z, n.Add(X, Y), 0, "addition")
	case 1:
		ret = z.Sub(a, b)
		zzIs(z, n.Sub(X, Y), 0, "subtraction")
	case 2:
		ret = z.Mul(a, b)
		zzIs(z, n.Mul(X, Y), zzR, "multiplication")
	case 3:
		ret = z.Square(a)
		zzIs(z, n.Mul(X, X), zzR, "squaring")
	case 4:
		ret = z.Double(a)
		zzIs(z, n.Add(X, X), 0, "doubling")
	case 5:
		ret = z.Neg(a)
		zzIs(z, n.Neg(X), 0, "negation")
	case 6:
		z.Set(a)
		z.Halve()
		ret = z
		zzIs(z, X, 1, "halving")
	case 7:
		z.Set(a)
		ret = z.fromMont()
		zzIs(z, X, zzR, "conversion from the internal form")
	case 8:
		z.Set(a)
		ret = z.toMont()
		w := zzValue(z)
		v.Assert(w.Sign() >= 0 && w.Cmp(q) < 0, "results are reduced")
		n.Lsh(X, zzR)
		n.Sub(n, w)
		v.Assert(n.Mod(n, q).Sign() == 0, "conversion to the internal form")
	case 9:
		// not canonical
		z.Set(&out)
		v.Assume(stale.Cmp(new(big.Int).Lsh(q, 1)) < 0)
		reduce(z)
		ret = z
		zzIs(z, stale, 0, "reduction")
	case 10:
		z.Set(a)
		MulBy3(z)
		ret = z
		zzIs(z, n.Mul(X, big.NewInt(3)), 0, "multiplication by 3")
	case 11:
		z.Set(a)
		MulBy5(z)
		ret = z
		zzIs(z, n.Mul(X, big.NewInt(5)), 0, "multiplication by 5")
	case 12:
		z.Set(a)
		MulBy13(z)
		ret = z
		zzIs(z, n.Mul(X, big.NewInt(13)), 0, "multiplication by 13")
	case 13:
		Butterfly(a, b)
		ret = z
		zzIs(a, n.Add(X, Y), 0, "addition of a butterfly")
		zzIs(b, n.Sub(X, Y), 0, "subtraction of a butterfly")
		v.Cover("done")
		return
	case 14:
		_mulGeneric(z, a, b)
		ret = z
		zzIs(z, n.Mul(X, Y), zzR, "multiplication")
	case 15:
		c := int(v.I64("choice", -1<<63, 1<<63-1))
		ret = z.Select(c, a, b)
		w := zzValue(z)
		if c == 0 {
			v.Assert(w.Cmp(X) == 0, "selection")
		} else {
			v.Assert(w.Cmp(Y) == 0, "selection")
		}
	case 16:
		ret = z.Set(a)
		v.Assert(zzValue(z).Cmp(X) == 0, "copying")
	case 17:
		ret = z.SetZero()
		v.Assert(zzValue(z).Sign() == 0, "zero")
	case 18:
		ret = z.SetOne()
		n.Lsh(big.NewInt(1), zzR)
		v.Assert(zzValue(z).Cmp(n.Mod(n, q)) == 0, "one")
	case 19:
		v.Assert(a.Equal(b) == (X.Cmp(Y) == 0) && (a.NotEqual(b) == 0) == (X.Cmp(Y) == 0), "equality")
		v.Assert(a.IsZero() == (X.Sign() == 0), "being zero")
		n.Lsh(big.NewInt(1), zzR)
		v.Assert(a.IsOne() == (X.Cmp(n.Mod(n, q)) == 0), "being one")
		v.Assert(a.smallerThanModulus(), "elements are below the modulus")
		v.Assert(out.smallerThanModulus() == (stale.Cmp(q) < 0), "other numbers are not")
		ret = z
	case 20:
		// by the numbers the elements stand for
		c := a.Cmp(b)
		a.fromMont()
		b.fromMont()
		v.Assert(c == zzValue(a).Cmp(zzValue(b)), "comparison")
		v.Cover("done")
		return
	case 21:
		l := a.LexicographicallyLargest()
		a.fromMont()
		n.Lsh(zzValue(a), 1)
		v.Assert(l == (n.Cmp(q) > 0), "being in the upper half")
		v.Cover("done")
		return
	}
	v.Assert(ret == z, "the result is the receiver")
	if z != a {
		v.Assert(zzValue(a).Cmp(X) == 0, "operands are left alone")
	}
	if z != b {
		v.Assert(zzValue(b).Cmp(Y) == 0, "operands are left alone")
	}
	v.Cover("done")
}
