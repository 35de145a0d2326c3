package sym

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
)

// S is a symbolic field element. It implements bignum.Uint[*S].
type S struct{ p *Poly }

// Unsupported is raised (as a panic) when the code asks for something that has no
// symbolic meaning here.
type Unsupported struct{ What string }

func (u Unsupported) Error() string { return "symbolic execution: unsupported: " + u.What }

var (
	tokens map[string]*Poly
	seq    int
)

// Of wraps a polynomial.
func Of(p *Poly) *S { return &S{p} }

// P returns the value of s.
func (s *S) P() *Poly {
	if s == nil {
		panic(Unsupported{"nil element"})
	}
	if s.p == nil {
		return zeroPoly
	}
	return s.p
}

// In returns a fresh input symbol.
func In(name string) *S { return &S{NewVar(name, "in")} }

// Adv returns a fresh adversarial symbol.
func Adv(name string) *S { return &S{NewVar(name, "adv")} }

// Int returns a constant.
func Int(x int64) *S { return &S{ConstInt(x)} }

func (s *S) New() *S { return &S{zeroPoly} }

func (s *S) Set(x *S) *S {
	s.p = x.P()
	return s
}

func (s *S) SetInt64(x int64) *S {
	s.p = ConstInt(x)
	return s
}

func (s *S) SetUint64(x uint64) *S {
	s.p = ConstPoly(FeFromBig(new(big.Int).SetUint64(x)))
	return s
}

func (s *S) SetBigInt(x *big.Int) *S {
	if BigHook != nil {
		if p := BigHook(x); p != nil {
			s.p = p
			return s
		}
	}
	s.p = ConstPoly(FeFromBig(x))
	return s
}

// BigHook, if set, may interpret a big integer as a symbolic value (opaque tokens).
var BigHook func(*big.Int) *Poly

// SetBytes interprets digests as fresh challenges: two equal byte strings give the
// same challenge, two different ones independent challenges.
func (s *S) SetBytes(b []byte) *S {
	s.setBytes(b)
	if len(b) > 8 && ChalLog != nil {
		*ChalLog = append(*ChalLog, s.p)
	}
	return s
}

// ChalLog, if set, records every value made from a digest.
var ChalLog *[]*Poly

func (s *S) setBytes(b []byte) *S {
	if p, ok := tokens[string(b)]; ok {
		s.p = p
		return s
	}
	if len(b) <= 8 {
		s.p = ConstPoly(FeFromBig(new(big.Int).SetBytes(b)))
		return s
	}
	if Conc != nil {
		s.p = Conc.chal(b)
		return s
	}
	name := "ch:" + hex.EncodeToString(b)[:24]
	k, seen := -1, false
	if cur != nil {
		k, seen = cur.seenChal[name], true
		if _, ok := cur.seenChal[name]; !ok {
			k = len(cur.chals)
			cur.seenChal[name] = k
			cur.chals = append(cur.chals, name)
		}
	}
	if ChalFn != nil && seen {
		if p := ChalFn(k); p != nil {
			s.p = p
			return s
		}
	}
	s.p = NewVar(name, "chal")
	return s
}

func (s *S) MustSetRandom() *S {
	seq++
	if RandFn != nil && Conc == nil {
		if p := RandFn(seq); p != nil {
			s.p = p
			return s
		}
	}
	s.p = NewVar(fmt.Sprintf("%srnd%d", RandPrefix, seq), "rand")
	return s
}

// RandFn, if set, may give a number to the k-th random value of a run.
var RandFn func(k int) *Poly

// ChalFn, if set, may program the k-th distinct challenge of a run.
var ChalFn func(k int) *Poly

// Concrete is the replay mode: every symbol is a number.
type Concrete struct {
	Model  map[string]*big.Int
	Chals  []string // names of the challenges in order; nil: use the digests themselves
	Native bool
	// ForceEqual makes every comparison of numbers say equal.
	ForceEqual bool
	order      map[string]int
	// Seed varies the values of symbols the model does not mention.
	Seed int
}

// Conc, if set, makes every new symbol a number.
var Conc *Concrete

func (c *Concrete) value(name, kind string) *Poly {
	if v := c.Model[name]; v != nil {
		return ConstPoly(FeFromBig(v))
	}
	if kind == "in" || kind == "adv" {
		return zeroPoly
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s", c.Seed, name)))
	return ConstPoly(FeFromBig(new(big.Int).SetBytes(h[:])))
}

func (c *Concrete) chal(b []byte) *Poly {
	if c.order == nil {
		c.order = map[string]int{}
	}
	k, ok := c.order[string(b)]
	if !ok {
		k = len(c.order)
		c.order[string(b)] = k
	}
	if !c.Native && k < len(c.Chals) {
		return c.value(c.Chals[k], "chal")
	}
	if !c.Native && ChalFn != nil {
		if p := ChalFn(k); p != nil {
			return p
		}
	}
	return ConstPoly(FeFromBig(new(big.Int).SetBytes(b)))
}

// RunConcrete runs f on numbers.
func RunConcrete(c *Concrete, f func() any) (res any, pan any) {
	oldSeq := seq
	seq = 0
	Conc = c
	old := cur
	cur = nil
	defer func() {
		Conc = nil
		cur = old
		seq = oldSeq
		if e := recover(); e != nil {
			pan = e
		}
	}()
	return f(), nil
}

// RandPrefix names the randomness drawn from now on.
var RandPrefix = ""

// Limb is the number of 64-bit words.
func (s *S) Limb() int { return 4 }

// SliceHook, if set, gives the words of a symbolic value.
var SliceHook func(p *Poly) (*big.Int, bool)

func (s *S) Slice(out []uint64) {
	c, ok := s.P().IsConst()
	var l Fe
	if ok {
		l = limbs(c.Big())
	} else {
		if SliceHook == nil {
			panic(Unsupported{"Slice of a symbolic value"})
		}
		b, ok := SliceHook(s.P())
		if !ok {
			panic(Unsupported{"Slice of a symbolic value"})
		}
		l = limbs(b)
	}
	for i := range out {
		out[i] = 0
	}
	copy(out, l[:])
}

// InDomain forks the execution over the values of a bounded input.
func InDomain(name string, dom []int64) *S {
	if Conc != nil {
		return &S{Conc.value(name, "in")}
	}
	val := dom[choose(len(dom), "value of "+name)]
	cur.fixed[name] = val
	return Int(val)
}

func (s *S) BigInt(res *big.Int) *big.Int {
	if c, ok := s.P().IsConst(); ok {
		return res.Set(c.Big())
	}
	if BigOut != nil {
		if b, ok := BigOut(s.P()); ok {
			return res.Set(b)
		}
	}
	panic(Unsupported{"BigInt of a symbolic value: " + s.P().String()})
}

// BigOut, if set, gives the integer of a symbolic value.
var BigOut func(p *Poly) (*big.Int, bool)

func (s *S) Marshal() []byte {
	if c, ok := s.P().IsConst(); ok {
		b := make([]byte, 33)
		c.Big().FillBytes(b[1:])
		return b
	}
	h := s.P().Hash()
	b := append([]byte{0xff}, h[:]...)
	tokens[string(b)] = s.P()
	return b
}

func (s *S) Unmarshal(b []byte) {
	if p, ok := tokens[string(b)]; ok {
		s.p = p
		return
	}
	s.p = ConstPoly(FeFromBig(new(big.Int).SetBytes(b)))
}

func (s *S) Add(a, b *S) *S { s.p = AddP(a.P(), b.P()); return s }
func (s *S) Sub(a, b *S) *S { s.p = SubP(a.P(), b.P()); return s }
func (s *S) Neg(a *S) *S    { s.p = NegP(a.P()); return s }
func (s *S) Mul(a, b *S) *S { s.p = MulP(a.P(), b.P()); return s }

// Inverse of a symbolic value is not needed by the code under test; constants only.
func (s *S) Inverse(a *S) *S {
	c, ok := a.P().IsConst()
	if !ok {
		panic(Unsupported{"Inverse of a symbolic value"})
	}
	if c.IsZero() {
		s.p = zeroPoly
		return s
	}
	s.p = ConstPoly(feInv(c))
	return s
}

// Cmp forks (or follows the policy of the current run) on symbolic values.
func (s *S) Cmp(x *S) int {
	a, b := s.P(), x.P()
	if Conc != nil && Conc.ForceEqual {
		return 0
	}
	if ca, ok := a.IsConst(); ok {
		if cb, ok := b.IsConst(); ok {
			return ca.Big().Cmp(cb.Big())
		}
	}
	return cur.cmp(a, b)
}

func (s *S) String() string { return s.P().String() }
