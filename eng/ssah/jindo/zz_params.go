package jindo

import (
	"math/big"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zzverif/fe"
	"github.com/sp301415/ringo-snark/zzverif/v"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func zzOr(name string, or int) int {
	if x := v.Param(name); x != 0 {
		return x
	}
	return or
}

// zzField sets the field of base^exp+1 elements.
func zzField() {
	fe.P = new(big.Int).Exp(big.NewInt(int64(v.Param("base"))), big.NewInt(int64(v.Param("exp"))), nil)
	fe.P.Add(fe.P, big.NewInt(1))
}

// zzParams are small parameters of the given shape.
func zzParams() Parameters {
	n := v.Param("exp") * v.Param("slots")
	p := Parameters{
		batch:        zzOr("batch", 1),
		rows:         zzOr("rows", 2),
		cols:         zzOr("cols", 1),
		slots:        v.Param("slots"),
		ecd:          encodeParameters{base: uint64(v.Param("base")), exp: v.Param("exp")},
		inMSISRank:   zzOr("in", 1),
		outMSISRank:  zzOr("out", 1),
		mlweRank:     zzOr("mlwe", 1),
		logInCutOff:  uint64(zzOr("incut", 3)),
		logOutCutOff: uint64(zzOr("outcut", 3)),
		ecdStdDev:    2, ecdBlindStdDev: 3, maskStdDev: 5, maskBlindStdDev: 7,
		mlweStdDev: 11, maskMLWEStdDev: 13,
		resTwoNm:       float64(int64(1) << uint(zzOr("resnm", 50))),
		inComDcmpTwoNm: float64(int64(1) << uint(zzOr("dcmpnm", 50))),
	}
	p.rank = (p.rows - 1) * p.cols * p.slots
	p.inComDcmpLen = (p.cols + 1) * p.inMSISRank
	p.ringQ = zzRing(n, zzOr("bits", 50), zzOr("limbs", 1), 0)
	p.ringQOut = zzRing(n, zzOr("obits", 45), zzOr("olimbs", 1), 0)
	return p
}

// zzNoise makes the samplers return arbitrary noise within the bound, and records the deviations asked for.
func zzNoise() *[]float64 {
	b := int64(zzOr("noise", 100))
	var asked []float64
	csprng.ZZNoise = func(s float64) int64 {
		asked = append(asked, s)
		return v.I64("noise", -b, b)
	}
	return &asked
}

// zzReconB stands for reconstructTo, decided on its own (C09).
func zzReconB(r *RNSReconstructor, vOut []*big.Int, p ring.Poly) bool {
	if !v.Symbolic() || v.Param("realrns") == 1 {
		return false
	}
	var qs []uint64
	for _, s := range r.ringQ.SubRings {
		qs = append(qs, s.Modulus)
	}
	w := make([]uint64, len(qs))
	for i := 0; i < r.ringQ.N(); i++ {
		for l := range w {
			w[l] = p.Coeffs[l][i]
		}
		vOut[i].Set(v.Balanced(w, qs))
	}
	return true
}
