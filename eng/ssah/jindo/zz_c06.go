package jindo

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/fe"
	"github.com/sp301415/ringo-snark/zzverif/v"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// The bytes of the challenges, in the order of their first use (see zzChal).
var (
	zzSeen   [][]byte
	zzSeenOf map[string]bool
	zzBound  bool
)

func zzSee(b []byte) {
	if zzSeenOf == nil || zzSeenOf[string(b)] {
		return
	}
	zzSeenOf[string(b)] = true
	zzSeen = append(zzSeen, append([]byte{}, b...))
}

func zzWatch(f func()) [][]byte {
	zzChals, zzSeen, zzSeenOf = map[string][]int64{}, nil, map[string]bool{}
	f()
	s := zzSeen
	zzSeen, zzSeenOf = nil, nil
	return s
}

func zzWant(prm Parameters) int {
	if prm.batch > 1 {
		return prm.batch + prm.cols
	}
	return prm.cols
}

// zzPart is an input of the challenges: a name, what it is and where it is.
type zzPart struct {
	what  string
	late  bool // comes after the batching challenges
	other func() (equal func() []bool)
}

// zzWords is an element with arbitrary words, as it is sent.
func zzWords(r *ring.Ring, name string) (p ring.Poly, c [][]uint64) {
	p = r.NewPoly()
	for l, s := range r.SubRings {
		c = append(c, make([]uint64, r.N()))
		for i := range c[l] {
			c[l][i] = v.U64(name, 0, s.Modulus-1)
			p.Coeffs[l][i] = c[l][i]
		}
	}
	return p, c
}

// ZZC06Same: prover and verifier have the same challenges, one for each purpose.
func ZZC06Same() {
	t := zzSetup()
	zzNoise()
	zzChalSym = v.Param("symchal") == 1
	zzOrder = nil
	prm := t.P.params
	ps := make([][]*fe.E, prm.batch)
	com := make([]*Commitment, prm.batch)
	open := make([]*Opening, prm.batch)
	for i := range ps {
		ps[i] = zzVec("poly", v.Param("len"))
		com[i], open[i] = t.P.Commit(ps[i])
	}
	x := zzX()
	var evals []*fe.E
	var pf *Proof
	a := zzWatch(func() { evals, pf = t.P.Evaluate(x, ps, com, open) })
	zzBound = true
	b := zzWatch(func() { t.V.Verify(x, com, evals, pf) })
	v.Assert(len(a) == zzWant(prm) && len(b) == zzWant(prm), "there is a challenge for every polynomial and column")
	for i := range a {
		v.Assert(v.SameHash(a[i], b[i]), "prover and verifier have the same challenges")
		for j := range i {
			v.Assert(!v.SameHash(a[i], a[j]), "no two challenges are the same")
		}
	}
	v.Cover("done")
}

// ZZC06: the challenges are bound to all that comes before them.
func ZZC06() {
	t := zzSetup()
	zzBound = true
	zzChalSym, zzOrder = false, nil
	ver := t.V
	prm := ver.params
	q, qo := prm.ringQ, prm.ringQOut
	crs := make([]byte, v.Param("crs"))
	for i := range crs {
		crs[i] = v.Byte("crs")
	}
	ver.ck.crs = crs
	com := make([]*Commitment, prm.batch)
	var parts []zzPart
	poly := func(p *ring.Poly, r *ring.Ring, what string, late bool) {
		n, c := zzWords(r, what)
		*p = n
		parts = append(parts, zzPart{what, late, func() func() []bool {
			m, d := zzWords(r, "other "+what)
			*p = m
			return func() (eq []bool) {
				*p = n
				for l := range c {
					for i := range c[l] {
						eq = append(eq, c[l][i] == d[l][i])
					}
				}
				return eq
			}
		}})
	}
	elem := func(e **fe.E, what string) {
		*e = fe.Sym(what)
		old := *e
		parts = append(parts, zzPart{what, false, func() func() []bool {
			n := fe.Sym("other " + what)
			*e = n
			return func() []bool {
				*e = old
				return []bool{n.BigInt(new(big.Int)).Cmp(old.BigInt(new(big.Int))) == 0}
			}
		}})
	}
	parts = append(parts, zzPart{"the common reference string", false, func() func() []bool {
		n := make([]byte, len(crs))
		for i := range n {
			n[i] = v.Byte("other crs")
		}
		ver.ck.crs = n
		return func() (eq []bool) {
			ver.ck.crs = crs
			for i := range n {
				eq = append(eq, n[i] == crs[i])
			}
			return eq
		}
	}})
	for b := range com {
		com[b] = NewCommitment(prm)
		for i := range com[b].Value {
			poly(&com[b].Value[i], qo, "the commitments", false)
		}
	}
	var x *fe.E
	elem(&x, "the point")
	y := make([]*fe.E, prm.batch)
	for i := range y {
		elem(&y[i], "the values")
	}
	pf := NewProof(prm)
	for i := range pf.Partial {
		poly(&pf.Partial[i], q, "the partial evaluations", true)
	}
	poly(&pf.PartialMask, q, "the masked partial evaluation", true)
	run := func() [][]byte { return zzWatch(func() { ver.Verify(x, com, y, pf) }) }

	base := run()
	v.Assert(len(base) == zzWant(prm), "there is a challenge for every polynomial and column")
	part := v.Param("part")
	for k, p := range parts {
		if part != 0 && k%part != v.Param("mod") {
			continue
		}
		restore := p.other()
		other := run()
		eq := restore()
		v.Assert(len(other) == len(base), "there is a challenge for every polynomial and column")
		for i := range base {
			same := v.SameHash(base[i], other[i])
			if p.late && i < len(base)-prm.cols {
				continue
			}
			for _, e := range eq {
				v.Assert(!same || e, "the challenges are bound to "+p.what)
			}
		}
	}
	// all of it changed at once
	var restore []func() []bool
	for _, p := range parts {
		restore = append(restore, p.other())
	}
	other := run()
	for k, p := range parts {
		for _, e := range restore[k]() {
			if !p.late || prm.batch == 1 {
				v.Assert(!v.SameHash(base[0], other[0]) || e, "equal challenges come from equal inputs")
			}
		}
	}
	v.Cover("done")
}
