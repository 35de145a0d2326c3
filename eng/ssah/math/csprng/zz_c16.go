package csprng

import (
	"encoding/binary"

	"github.com/sp301415/ringo-snark/zzverif/v"
)

// zzStream is a key stream given by its bytes, zero after them.
type zzStream struct {
	data []byte
	pos  int
}

func (s *zzStream) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("output smaller than input")
	}
	for i := range src {
		b := src[i]
		if s.pos < len(s.data) {
			b ^= s.data[s.pos]
		}
		s.pos++
		dst[i] = b
	}
}

// zzWords is the stream of these words.
func zzWords(ws ...uint64) *zzStream {
	d := make([]byte, 8*len(ws))
	for i, w := range ws {
		binary.LittleEndian.PutUint64(d[8*i:], w)
	}
	return &zzStream{data: d}
}

func zzSampler(s *zzStream) *UniformSampler {
	return &UniformSampler{prng: s, ptr: bufSize}
}

// ZZC16Range: every bounded sample is in range, whatever the stream.
func ZZC16Range() {
	n := v.U64("n", 1, ^uint64(0))
	w := make([]uint64, v.Param("words"))
	for i := range w {
		w[i] = v.U64("w", 0, ^uint64(0))
	}
	v.Assume(w[len(w)-1] == 0)
	s := zzSampler(zzWords(w...))
	r := s.SampleN(n)
	v.Assert(r < n, "the sample is below the bound")
	v.Cover("sampled")
}

// ZZC16Unbiased: a word accepted as a has, for every b below the bound, a partner that
// is accepted as b; partners of different words differ.
func ZZC16Unbiased() {
	n := v.U64("n", 1, ^uint64(0))
	w := v.U64("w", 0, ^uint64(0))
	b := v.U64("b", 0, ^uint64(0))
	v.Assume(b < n)
	s := zzSampler(zzWords(w, 0))
	a := s.SampleN(n)
	if s.ptr != 8 {
		return // rejected
	}
	w2 := v.Add(v.Sub(w, a, "the sample is at most the word"), b, "the partner word exists")
	s2 := zzSampler(zzWords(w2, 0))
	a2 := s2.SampleN(n)
	v.Assert(s2.ptr == 8, "the partner word is accepted")
	v.Assert(a2 == b, "the partner word gives the other value")
	v.Cover("accepted")
}

// ZZC16Small: for a fixed bound, the words accepted are the values below a multiple of it.
func ZZC16Small() {
	n := uint64(v.Param("n")) << uint(v.Param("shift"))
	n += uint64(int64(v.Param("off")))
	w := v.U64("w", 0, ^uint64(0))
	b := v.U64("b", 0, n-1)
	s := zzSampler(zzWords(w, 0))
	a := s.SampleN(n)
	v.Assert(a < n, "the sample is below the bound")
	if s.ptr != 8 {
		return // rejected
	}
	w2 := v.Add(v.Sub(w, a, "the sample is at most the word"), b, "the partner word exists")
	s2 := zzSampler(zzWords(w2, 0))
	a2 := s2.SampleN(n)
	v.Assert(s2.ptr == 8, "the partner word is accepted")
	v.Assert(a2 == b, "the partner word gives the other value")
	v.Cover("accepted")
}

// ZZC16Read: reads give the stream however they are cut and whatever was in the buffer.
func ZZC16Read() {
	seed := make([]byte, v.Param("seed"))
	for i := range seed {
		seed[i] = v.Byte("seed")
	}
	keep := append([]byte{}, seed...)
	s1 := NewUniformSamplerWithSeed(seed)
	s2 := NewUniformSamplerWithSeed(seed)
	for i := range seed {
		v.Assert(seed[i] == keep[i], "the seed is left alone")
	}
	a, b := v.Param("first"), v.Param("second")
	p := make([]byte, a+b)
	q := make([]byte, a+b+2)
	for i := range p {
		p[i] = v.Byte("before")
	}
	for i := range q {
		q[i] = v.Byte("before")
	}
	last := q[a+b]
	n, err := s1.Read(p)
	v.Assert(n == a+b && err == nil, "a read is complete")
	n, err = s2.Read(q[:a])
	v.Assert(n == a && err == nil, "a read is complete")
	n, err = s2.Read(q[a : a+b])
	v.Assert(n == b && err == nil, "a read is complete")
	for i := range p {
		v.Assert(p[i] == q[i], "the same stream in whatever pieces")
	}
	v.Assert(q[a+b] == last, "nothing is written beyond the destination")
}

// ZZC16Long: long reads do not depend on the destination either.
func ZZC16Long() {
	n := v.Param("len")
	p, q := make([]byte, n), make([]byte, n)
	for i := range p {
		p[i] = byte(i*37 + 11)
	}
	for i := 0; i < n; i += v.Param("every") {
		p[i] = v.Byte("before")
	}
	s1 := NewUniformSamplerWithSeed([]byte{7})
	s2 := NewUniformSamplerWithSeed([]byte{7})
	s1.Read(p)
	if c := v.Param("cut"); c > 0 {
		s2.Read(q[:c])
		s2.Read(q[c:])
	} else {
		s2.Read(q)
	}
	for i := range p {
		v.Assert(p[i] == q[i], "a long read is the stream")
	}
}

// ZZC16Seed: every byte of the seed matters.
func ZZC16Seed() {
	n := v.Param("seed")
	k := v.Param("at")
	seed := make([]byte, n)
	for i := range seed {
		seed[i] = v.Byte("seed")
	}
	other := append([]byte{}, seed...)
	other[k] = v.Byte("other")
	v.Assume(other[k] != seed[k])
	s1, s2 := NewUniformSamplerWithSeed(seed), NewUniformSamplerWithSeed(other)
	p, q := make([]byte, 8), make([]byte, 8)
	s1.Read(p)
	s2.Read(q)
	v.Possible(binary.LittleEndian.Uint64(p) != binary.LittleEndian.Uint64(q), "another seed gives another stream")
	v.Possible(s1.Sample() != s2.Sample(), "another seed gives other samples")
}

// ZZC16Words: the words are the stream, each part of it used once, across refills.
func ZZC16Words() {
	skip := v.Param("skip") // words before
	d := make([]byte, 8*skip+24)
	for i := 8 * skip; i < len(d); i++ {
		d[i] = v.Byte("d")
	}
	s := zzSampler(&zzStream{data: d})
	for i := 0; i < skip; i++ {
		s.Sample()
	}
	for i := 0; i < 3; i++ {
		w := s.Sample()
		v.Assert(w == binary.LittleEndian.Uint64(d[8*(skip+i):]), "the words of the stream in order")
	}
}

// ZZC16Refill: after a refill, different streams still give different words.
func ZZC16Refill() {
	d := make([]byte, bufSize+8)
	e := make([]byte, bufSize+8)
	for i := 0; i < 8; i++ {
		d[i] = byte(v.Param("old"))
		e[i] = d[i]
	}
	k := v.Param("at")
	for i := bufSize; i < bufSize+8; i++ {
		d[i] = v.Byte("new")
		e[i] = d[i]
	}
	e[bufSize+k] = v.Byte("other")
	v.Assume(d[bufSize+k] != e[bufSize+k])
	s, t := zzSampler(&zzStream{data: d}), zzSampler(&zzStream{data: e})
	for i := 0; i < bufSize/8; i++ {
		v.Assert(s.Sample() == t.Sample(), "the same stream gives the same words")
	}
	x, y := s.Sample(), t.Sample()
	v.Assert(byte(x>>(8*k)) != byte(y>>(8*k)), "different streams give different words")
	w := v.U64("word", 0, ^uint64(0))
	_ = w
}
