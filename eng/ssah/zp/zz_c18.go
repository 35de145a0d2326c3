package zp

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/v"
)

// zzStands: z is canonical and stands for num (its words are num*R mod q).
func zzStands(z *Uint, num *big.Int, msg string) {
	q := Modulus()
	w := zzValue(z)
	v.Assert(w.Sign() >= 0 && w.Cmp(q) < 0, "results are reduced")
	d := new(big.Int).Lsh(num, zzR)
	d.Sub(d, w)
	v.Assert(d.Mod(d, q).Sign() == 0, msg)
}

// zzBack: the words w stand in the internal form for the number n.
func zzBack(n *big.Int, X *big.Int, msg string) {
	q := Modulus()
	v.Assert(n.Sign() >= 0 && n.Cmp(q) < 0, "the number of an element is below the modulus")
	d := new(big.Int).Lsh(n, zzR)
	d.Sub(d, X)
	v.Assert(d.Mod(d, q).Sign() == 0, msg)
}

// zzBytes is n arbitrary bytes and the number they write, the first byte most significant.
func zzBytes(name string, n int) ([]byte, *big.Int) {
	e := make([]byte, n)
	t := new(big.Int)
	x := v.Big(name, new(big.Int), t.Sub(t.Lsh(big.NewInt(1), uint(8*n)), big.NewInt(1)))
	t = new(big.Int)
	for i := range e {
		e[i] = byte(t.Rsh(x, uint(8*(n-1-i))).Uint64())
	}
	return e, x
}

func zzBig(e []byte, t *big.Int) *big.Int {
	s := new(big.Int)
	for i := range e {
		s.Add(s, t.Lsh(t.SetUint64(uint64(e[i])), uint(8*(len(e)-1-i))))
	}
	return s
}

// ZZC18: conversions of arbitrary elements and numbers.
func ZZC18() {
	q := Modulus()
	n := v.Param("len")
	var z Uint
	for i := range z {
		z[i] = v.U64(zzName("stale", i), 0, ^uint64(0))
	}
	old := z
	num := new(big.Int)
	switch v.Param("op") {
	case 0:
		x := v.U64("x", 0, ^uint64(0))
		v.Assert(z.SetUint64(x) == &z, "the result is the receiver")
		zzStands(&z, num.SetUint64(x), "setting from an unsigned integer")
	case 1:
		lo, hi := int64(-1<<63), int64(-1)
		if n == 1 {
			lo, hi = 0, 1<<63-1
		}
		x := v.I64("x", lo, hi)
		v.Assert(z.SetInt64(x) == &z, "the result is the receiver")
		if n == 1 {
			zzStands(&z, num.SetInt64(x), "setting from a signed integer")
			break
		}
		// the negation of what its absolute value is set to
		var y Uint
		y.SetUint64(-uint64(x))
		y.Neg(&y)
		v.Assert(zzValue(&z).Cmp(zzValue(&y)) == 0, "setting from a signed integer")
	case 2:
		x := v.U64("x", 0, ^uint64(0))
		z = NewUint(x)
		zzStands(&z, num.SetUint64(x), "setting from an unsigned integer")
	case 3:
		hi := new(big.Int).Lsh(big.NewInt(1), uint(n))
		x := v.Big("x", new(big.Int).Neg(hi), hi)
		y := new(big.Int).Set(x)
		v.Assert(z.SetBigInt(x) == &z, "the result is the receiver")
		v.Assert(x.Cmp(y) == 0, "the number set from is left alone")
		zzStands(&z, y, "setting from an integer")
	case 4:
		e, x := zzBytes("e", n)
		v.Assert(z.SetBytes(e) == &z, "the result is the receiver")
		zzStands(&z, x, "setting from bytes")
		v.Assert(zzBig(e, new(big.Int)).Cmp(x) == 0, "the bytes set from are left alone")
	case 5:
		e, x := zzBytes("e", n)
		z.Unmarshal(e)
		zzStands(&z, x, "reading bytes")
	case 6:
		e, x := zzBytes("e", n)
		err := z.SetBytesCanonical(e)
		v.Assert((err == nil) == (n == Bytes && x.Cmp(q) < 0), "exactly canonical encodings are accepted")
		if err == nil {
			zzStands(&z, x, "reading canonical bytes")
		} else {
			v.Assert(z == old, "refused bytes leave the element alone")
		}
	case 7:
		// all readings agree, and with the element
		x, X := zzEl("x")
		x0 := x
		b := x.Bytes()
		w := zzBig(b[:], new(big.Int))
		zzBack(w, X, "bytes of an element")
		m := x.Marshal()
		v.Assert(len(m) == Bytes && zzBig(m, new(big.Int)).Cmp(w) == 0, "marshalled bytes of an element")
		bits := Uint(x.Bits())
		v.Assert(zzValue(&bits).Cmp(w) == 0, "words of an element")
		stale := v.Big("old", big.NewInt(-1<<62), big.NewInt(1<<62))
		r := x.BigInt(stale)
		v.Assert(r == stale && r.Cmp(w) == 0, "number of an element")
		s := make([]uint64, Limbs+2)
		s[Limbs], s[Limbs+1] = 7, 9
		x.Slice(s[:Limbs])
		for i := range bits {
			v.Assert(s[i] == bits[i], "slice of an element")
		}
		v.Assert(s[Limbs] == 7 && s[Limbs+1] == 9, "a slice is not overrun")
		v.Assert(x.Uint64() == bits[0], "low word of an element")
		v.Assert(x == x0, "reading leaves an element alone")
		v.Assert(x.Limb() == Limbs, "number of words")
	case 13:
		x, _ := zzEl("x")
		b := Uint(x.Bits())
		w := zzValue(&b)
		v.Assert(x.IsUint64() == (w.Cmp(new(big.Int).Lsh(big.NewInt(1), 64)) < 0), "fitting in one word")
	case 14:
		x, X := zzEl("x")
		var l [Bytes]byte
		LittleEndian.PutElement(&l, x)
		for i, j := 0, Bytes-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		zzBack(zzBig(l[:], new(big.Int)), X, "little-endian bytes of an element")
	case 8:
		e, x := zzBytes("e", Bytes)
		for i, j := 0, Bytes-1; i < j; i, j = i+1, j-1 {
			e[i], e[j] = e[j], e[i]
		}
		z, err := LittleEndian.Element((*[Bytes]byte)(e))
		v.Assert((err == nil) == (x.Cmp(q) < 0), "exactly canonical encodings are accepted")
		if err == nil {
			zzStands(&z, x, "reading little-endian bytes")
		}
	case 9:
		// the element itself comes back
		x, X := zzEl("x")
		switch n {
		case 0:
			z.Unmarshal(x.Marshal())
		case 1:
			z.SetBigInt(x.BigInt(new(big.Int)))
		case 2:
			b := x.Bytes()
			v.Assert(z.SetBytesCanonical(b[:]) == nil, "encodings of elements are accepted")
		}
		// both below q
		w := zzValue(&z)
		v.Assert(w.Sign() >= 0 && w.Cmp(q) < 0, "results are reduced")
		w.Sub(w, X)
		v.Assert(w.Mod(w, q).Sign() == 0, "the element comes back")
	case 10:
		var in any
		x := v.I64("x", 0, 1<<7-1)
		u := v.U64("u", 0, 1<<8-1)
		X, U := big.NewInt(x), new(big.Int).SetUint64(u)
		switch n {
		case 0:
			in, num = uint8(u), U
		case 1:
			in, num = uint16(u), U
		case 2:
			in, num = uint32(u), U
		case 3:
			in, num = uint(u), U
		case 4:
			in, num = u, U
		case 5:
			in, num = int8(x), X
		case 6:
			in, num = int16(x), X
		case 7:
			in, num = int32(x), X
		case 8:
			in, num = x, X
		case 9:
			in, num = int(x), X
		case 10:
			in, num = X, X
		case 11:
			in, num = *X, X
		case 12:
			in, num = []byte{byte(u), 3}, new(big.Int).SetUint64(256*u+3)
		}
		r, err := z.SetInterface(in)
		v.Assert(err == nil && r == &z, "numbers of every type are accepted")
		zzStands(&z, num, "setting from a number of any type")
	case 11:
		x, X := zzEl("x")
		switch n {
		case 0:
			r, err := z.SetInterface(x)
			v.Assert(err == nil && r == &z && zzValue(&z).Cmp(X) == 0, "setting from an element")
		case 1:
			r, err := z.SetInterface(&x)
			v.Assert(err == nil && r == &z && zzValue(&z).Cmp(X) == 0, "setting from an element")
		case 2:
			_, err := z.SetInterface(nil)
			v.Assert(err != nil && z == old, "nothing is refused")
		case 3:
			_, err := z.SetInterface((*big.Int)(nil))
			v.Assert(err != nil && z == old, "nothing is refused")
		case 4:
			_, err := z.SetInterface((*Uint)(nil))
			v.Assert(err != nil && z == old, "nothing is refused")
		}
	case 12:
		x, _ := zzEl("x")
		w := zzValue(&x)
		if n > 0 {
			v.Assert(x.BitLen() == w.BitLen(), "length in bits")
		}
		v.Assert(x.FitsOnOneWord() == (w.Cmp(new(big.Int).Lsh(big.NewInt(1), 64)) < 0), "fitting in one word")
	}
	v.Cover("done")
}
