// Package jindo (verification stand-in): an ideal polynomial commitment with the API of
// the real package. A commitment is opaque, hiding and perfectly binding; an opening is
// accepted exactly if every claimed value is the committed polynomial's value.
package jindo

import (
	"crypto/sha256"
	"fmt"
	"io"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

// RankOf chooses the committed rank for the requested one (the real scheme rounds up).
var RankOf = func(target, batch int) int { return target }

type Parameters struct{ rank, batch int }

func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
	switch {
	case targetN < 1:
		panic("NewParameters: targetN must be >= 1")
	case batch < 1:
		panic("NewParameters: batch must be >= 1")
	}
	return Parameters{rank: RankOf(targetN, batch), batch: batch}
}

func (p Parameters) Batch() int              { return p.batch }
func (p Parameters) Rank() int               { return p.rank }
func (p Parameters) Rows() int               { return 2 }
func (p Parameters) Cols() int               { return 1 }
func (p Parameters) Slots() int              { return p.rank }
func (p Parameters) CommitmentSize() float64 { return 0 }
func (p Parameters) ProofSize() float64      { return 0 }
func (p Parameters) Size() float64           { return 0 }

type Prover[E bignum.Uint[E]] struct{ params Parameters }
type Verifier[E bignum.Uint[E]] struct{ params Parameters }

func NewProver[E bignum.Uint[E]](params Parameters, crs []byte) *Prover[E] {
	return &Prover[E]{params}
}

func NewVerifier[E bignum.Uint[E]](params Parameters, crs []byte) *Verifier[E] {
	return &Verifier[E]{params}
}

func (p *Prover[E]) SafeCopy() *Prover[E]     { return p }
func (v *Verifier[E]) SafeCopy() *Verifier[E] { return v }

// Commitment holds the committed polynomial.
type Commitment struct {
	Poly []*sym.Poly
	Tag  string
}

// CommitTo is the commitment of these coefficients.
func CommitTo(v []*sym.S) *Commitment {
	c := &Commitment{}
	if Freeze {
		Seq++
		c.Tag = fmt.Sprint("frozen", Seq)
	}
	for i := range v {
		c.Poly = append(c.Poly, v[i].P())
	}
	return c
}

// Freeze makes the bytes of a commitment depend on its order only (for runs with
// programmed challenges); Seq counts the commitments made.
var (
	Freeze bool
	Seq    int
)

func (c *Commitment) WriteRawTo(w io.Writer) {
	if Freeze {
		w.Write([]byte(c.Tag))
		return
	}
	h := sha256.New()
	n := len(c.Poly)
	for n > 0 && c.Poly[n-1].IsZero() {
		n--
	}
	for _, p := range c.Poly[:n] {
		x := p.Hash()
		h.Write(x[:])
	}
	w.Write(h.Sum([]byte("com:" + c.Tag + ":")))
}

type Opening struct{}

type Proof struct{}

func (p *Prover[E]) Commit(v []E) (*Commitment, *Opening) {
	if len(v) > p.params.rank {
		panic("len(v) > params.rank")
	}
	s := make([]*sym.S, len(v))
	for i := range v {
		s[i] = any(v[i]).(*sym.S)
	}
	return CommitTo(s), &Opening{}
}

func evalAt(p []*sym.Poly, x *sym.Poly) *sym.Poly {
	acc := sym.ConstInt(0)
	for i := len(p) - 1; i >= 0; i-- {
		acc = sym.AddP(sym.MulP(acc, x), p[i])
	}
	return acc
}

func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) ([]E, *Proof) {
	switch {
	case len(v) != len(com) || len(v) != len(open):
		panic("len(v), len(com), len(open) are not equal")
	case len(v) != p.params.batch:
		panic("len(v) != params.batch")
	}
	xp := any(x).(*sym.S).P()
	out := make([]E, len(v))
	for i := range v {
		if len(v[i]) > p.params.rank {
			panic(fmt.Sprintf("len(v[%v]) > params.rank", i))
		}
		// the prover must open what it committed to
		if open[i] == nil {
			panic("nil opening")
		}
		s := make([]*sym.Poly, len(v[i]))
		for j := range v[i] {
			s[j] = any(v[i][j]).(*sym.S).P()
		}
		out[i] = any(sym.Of(evalAt(s, xp))).(E)
	}
	return out, &Proof{}
}

// OnVerify, if set, sees every opening check; if it returns true the check passes.
var OnVerify func(x *sym.Poly, com []*Commitment, y []*sym.Poly) bool

func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
	if len(com) != v.params.batch || len(y) != v.params.batch {
		panic("len(v) != params.batch")
	}
	if pf == nil {
		return false
	}
	xp := any(x).(*sym.S).P()
	if OnVerify != nil {
		ys := make([]*sym.Poly, len(y))
		for i := range y {
			ys[i] = any(y[i]).(*sym.S).P()
		}
		if OnVerify(xp, com, ys) {
			return true
		}
	}
	ok := true
	for i := range com {
		if len(com[i].Poly) > v.params.rank {
			return false
		}
		if !sym.CompareUnder(evalAt(com[i].Poly, xp), any(y[i]).(*sym.S).P()) {
			ok = false
			break
		}
	}
	return ok
}
