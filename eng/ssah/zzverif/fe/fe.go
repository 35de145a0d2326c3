// Package fe is a prime field whose elements are integers, for harnesses.
package fe

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/v"
)

// P is the modulus.
var P *big.Int

// Random is the name of the symbols of MustSetRandom.
var Random = "random"

// E is an element of the field, an integer in [0, P).
type E struct{ n *big.Int }

func limbs() int { return (P.BitLen() + 63) / 64 }

func (z *E) put(x *big.Int) *E {
	z.n.Mod(x, P)
	return z
}

// Of makes an element.
func Of(x *big.Int) *E { return z0().put(x) }

// Sym is a symbolic element.
func Sym(name string) *E {
	return Of(v.Big(name, new(big.Int), new(big.Int).Sub(P, big.NewInt(1))))
}

func z0() *E { return &E{new(big.Int)} }

func (z *E) New() *E               { return z0() }
func (z *E) Set(x *E) *E           { z.n.Set(x.n); return z }
func (z *E) SetInt64(x int64) *E   { return z.put(big.NewInt(x)) }
func (z *E) SetUint64(x uint64) *E { return z.put(new(big.Int).SetUint64(x)) }
func (z *E) SetBytes(b []byte) *E  { return z.put(new(big.Int).SetBytes(b)) }
func (z *E) MustSetRandom() *E {
	return z.put(v.Big(Random, new(big.Int), new(big.Int).Sub(P, big.NewInt(1))))
}
func (z *E) Limb() int { return limbs() }
func (z *E) Slice(w []uint64) {
	t := new(big.Int)
	for i := range w {
		w[i] = 0
		if i < limbs() {
			w[i] = t.Rsh(z.n, uint(64*i)).Uint64()
		}
	}
}
func (z *E) BigInt(res *big.Int) *big.Int { return res.Set(z.n) }
func (z *E) SetBigInt(x *big.Int) *E      { return z.put(x) }
func (z *E) Marshal() []byte {
	b := make([]byte, 8*limbs())
	t := new(big.Int)
	for i := range b {
		b[len(b)-1-i] = byte(t.Rsh(z.n, uint(8*i)).Uint64())
	}
	return b
}
func (z *E) Unmarshal(b []byte)  { z.SetBytes(b) }
func (z *E) Add(x, y *E) *E      { return z.put(new(big.Int).Add(x.n, y.n)) }
func (z *E) Sub(x, y *E) *E      { return z.put(new(big.Int).Sub(x.n, y.n)) }
func (z *E) Neg(x *E) *E         { return z.put(new(big.Int).Neg(x.n)) }
func (z *E) Mul(x, y *E) *E      { return z.put(new(big.Int).Mul(x.n, y.n)) }
func (z *E) Inverse(x *E) *E     { return z.put(new(big.Int).ModInverse(x.n, P)) }
func (z *E) Cmp(x *E) int        { return z.n.Cmp(x.n) }
