package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ringState is kept for the machine's interface.
type ringState struct{}

// contract gives the behaviour of functions that are decided elsewhere.
func (m *M) contract(fn *ssa.Function, name string) (intrFn, bool) { return nil, false }

const lattigo = "github.com/tuneinsight/lattigo/v6/ring."

// subring is a limb of a ring: words are integers, represented modulo q.
type subring struct {
	n       int
	q       *big.Int
	r, rinv *big.Int   // 2^64 and its inverse
	fwd     []*big.Int // roots
	bwd     []*big.Int
	ninv    *big.Int
	fm, bm  [][]*big.Int // the transforms as matrices
}

var subrings = map[*Value]*subring{}

func field(v Value, i int) Value {
	if p, ok := v.(Ptr); ok {
		v = *p.p
	}
	return v.(Struct)[i]
}

func (m *M) subringOf(v Value) *subring {
	p := v.(Ptr)
	if p.p == nil {
		m.panicf("nil SubRing")
	}
	if s, ok := subrings[p.p]; ok {
		return s
	}
	st := (*p.p).(Struct)
	q := new(big.Int).SetUint64(st[2].(uint64))
	s := &subring{n: int(st[1].(int64)), q: q, r: new(big.Int).Mod(pow2(64), q)}
	s.rinv = new(big.Int).ModInverse(s.r, q)
	tab := st[7]
	plain := func(v Value) *big.Int {
		x := new(big.Int).SetUint64(v.(uint64))
		return x.Mod(x.Mul(x, s.rinv), q)
	}
	for _, x := range field(tab, 2).(Slice).arr {
		s.fwd = append(s.fwd, plain(x))
	}
	for _, x := range field(tab, 3).(Slice).arr {
		s.bwd = append(s.bwd, plain(x))
	}
	s.ninv = plain(field(tab, 4))
	if len(s.fwd) < s.n || len(s.bwd) < s.n {
		panic(unsupported("a ring without roots"))
	}
	s.fm = make([][]*big.Int, s.n)
	s.bm = make([][]*big.Int, s.n)
	for i := range s.fm {
		s.fm[i], s.bm[i] = make([]*big.Int, s.n), make([]*big.Int, s.n)
	}
	for j := 0; j < s.n; j++ {
		f, b := make([]*big.Int, s.n), make([]*big.Int, s.n)
		for i := range f {
			f[i], b[i] = new(big.Int), new(big.Int)
			if i == j {
				f[i].SetInt64(1)
				b[i].SetInt64(1)
			}
		}
		s.forward(f)
		s.backward(b)
		for i := range f {
			s.fm[i][j], s.bm[i][j] = f[i], b[i]
		}
	}
	subrings[p.p] = s
	return s
}

// forward is the transform on numbers, in the order of the library.
func (s *subring) forward(x []*big.Int) {
	t := s.n
	for h := 1; h < s.n; h <<= 1 {
		t >>= 1
		for i := 0; i < h; i++ {
			for j := 2 * i * t; j < 2*i*t+t; j++ {
				v := new(big.Int).Mul(x[j+t], s.fwd[h+i])
				a, b := new(big.Int).Add(x[j], v), new(big.Int).Sub(x[j], v)
				x[j], x[j+t] = a.Mod(a, s.q), b.Mod(b, s.q)
			}
		}
	}
}

func (s *subring) backward(x []*big.Int) {
	t := 1
	for h := s.n >> 1; h >= 1; h >>= 1 {
		for i := 0; i < h; i++ {
			for j := 2 * i * t; j < 2*i*t+t; j++ {
				a, b := new(big.Int).Add(x[j], x[j+t]), new(big.Int).Sub(x[j], x[j+t])
				b.Mul(b, s.bwd[h+i])
				x[j], x[j+t] = a.Mod(a, s.q), b.Mod(b, s.q)
			}
		}
		t <<= 1
	}
	for i := range x {
		x[i].Mod(x[i].Mul(x[i], s.ninv), s.q)
	}
}

// words reads n words.
func (m *M) words(v Value, n int) []*Term {
	a := v.(Slice).arr
	if len(a) < n {
		m.panicf("a vector of %d words where %d are used", len(a), n)
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = m.term(a[i])
	}
	return out
}

func (m *M) putWords(v Value, ts []*Term) {
	a := v.(Slice).arr
	if len(a) < len(ts) {
		m.panicf("a vector of %d words where %d are written", len(a), len(ts))
	}
	for i, t := range ts {
		m.store(&a[i], m.intVal(t, tU64))
	}
}

// full is the residue in [0, q).
func (m *M) full(s *subring, t *Term) *Term { return m.u.mod(t, s.q) }

// lazy is some representative of the residue below k*q.
func (m *M) lazy(s *subring, t *Term, k int64) *Term {
	r := m.full(s, t)
	if _, ok := r.isConst(); ok {
		return r
	}
	return m.u.add(r, m.u.scale(m.fresh("lazy", b0, bi(k-1)), s.q))
}

// within: a residue.
func (m *M) within(s *subring, t *Term) bool {
	lo, hi := m.u.Range(t)
	return lo.Sign() >= 0 && hi.Cmp(s.q) < 0
}

// cred: one conditional subtraction.
func (m *M) cred(s *subring, t *Term) *Term {
	lo, hi := m.u.Range(t)
	q2 := new(big.Int).Lsh(s.q, 1)
	if lo.Sign() >= 0 && hi.Cmp(q2) < 0 {
		return m.full(s, t)
	}
	if lo.Sign() < 0 || hi.Cmp(pow2(64)) >= 0 {
		// out of contract: anything may happen beyond the residue
		return m.lazy(s, t, new(big.Int).Div(pow2(64), s.q).Int64())
	}
	return m.lazy(s, t, new(big.Int).Div(hi, s.q).Int64()+1)
}

func init() {
	S := func(name string, f func(m *M, s *subring, a []Value)) {
		intrinsics["(*"+lattigo+"SubRing)."+name] = func(m *M, _ *ssa.Function, a []Value) Value {
			f(m, m.subringOf(a[0]), a[1:])
			return nil
		}
	}
	// element-wise, the destination last and possibly an operand
	wise := func(name string, in int, f func(m *M, s *subring, x []*Term) *Term) {
		S(name, func(m *M, s *subring, a []Value) {
			n := len(a[0].(Slice).arr)
			ops := make([][]*Term, in)
			for k := 0; k < in; k++ {
				ops[k] = m.words(a[k], n)
			}
			out := make([]*Term, n)
			x := make([]*Term, in)
			for i := range out {
				for k := range x {
					x[k] = ops[k][i]
				}
				out[i] = f(m, s, x)
			}
			dst := in
			if dst >= len(a) {
				dst = len(a) - 1
			}
			m.putWords(a[dst], out)
		})
	}
	mont := func(m *M, s *subring, x, y *Term) *Term {
		return m.u.scale(m.u.mul(m.modr(s, x), m.modr(s, y)), s.rinv)
	}
	wise("Add", 2, func(m *M, s *subring, x []*Term) *Term {
		if m.within(s, x[0]) && m.within(s, x[1]) {
			return m.full(s, m.u.add(x[0], x[1]))
		}
		return m.cred(s, m.u.add(x[0], x[1]))
	})
	wise("AddLazy", 2, func(m *M, s *subring, x []*Term) *Term { return m.wrapT(m.u.add(x[0], x[1])) })
	wise("Sub", 2, func(m *M, s *subring, x []*Term) *Term {
		if m.within(s, x[0]) && m.within(s, x[1]) {
			return m.full(s, m.u.sub(x[0], x[1]))
		}
		return m.cred(s, m.u.add(m.u.sub(x[0], x[1]), m.u.konst(s.q)))
	})
	wise("SubLazy", 2, func(m *M, s *subring, x []*Term) *Term {
		return m.wrapT(m.u.add(m.u.sub(x[0], x[1]), m.u.konst(s.q)))
	})
	wise("Neg", 1, func(m *M, s *subring, x []*Term) *Term { return m.wrapT(m.u.sub(m.u.konst(s.q), x[0])) })
	wise("Reduce", 1, func(m *M, s *subring, x []*Term) *Term { return m.full(s, x[0]) })
	wise("ReduceLazy", 1, func(m *M, s *subring, x []*Term) *Term { return m.lazy(s, x[0], 2) })
	for _, n := range []string{"Montgomery", "Barrett"} {
		mul := mont
		if n == "Barrett" {
			mul = func(m *M, s *subring, x, y *Term) *Term { return m.u.mul(m.modr(s, x), m.modr(s, y)) }
		}
		wise("MulCoeffs"+n, 2, func(m *M, s *subring, x []*Term) *Term { return m.full(s, mul(m, s, x[0], x[1])) })
		wise("MulCoeffs"+n+"Lazy", 2, func(m *M, s *subring, x []*Term) *Term { return m.lazy(s, mul(m, s, x[0], x[1]), 2) })
		acc := func(name string, sign int64, lz bool) {
			wise("MulCoeffs"+n+name, 3, func(m *M, s *subring, x []*Term) *Term {
				p := m.u.scale(mul(m, s, x[0], x[1]), bi(sign))
				if lz {
					return m.lazy(s, m.u.add(x[2], p), 4)
				}
				if _, hi := m.u.Range(x[2]); hi.Cmp(s.q) > 0 {
					return m.lazy(s, m.u.add(x[2], p), 4)
				}
				return m.full(s, m.u.add(x[2], p))
			})
		}
		acc("ThenAdd", 1, false)
		acc("ThenAddLazy", 1, true)
		acc("LazyThenAddLazy", 1, true)
		acc("ThenSub", -1, false)
		acc("ThenSubLazy", -1, true)
		acc("LazyThenSubLazy", -1, true)
		wise("MulCoeffs"+n+"LazyThenNeg", 2, func(m *M, s *subring, x []*Term) *Term {
			return m.lazy(s, m.u.neg(mul(m, s, x[0], x[1])), 2)
		})
	}
	scal := func(name string, in int, f func(m *M, s *subring, x []*Term, c *Term) *Term) {
		// p1, scalar, p2
		S(name, func(m *M, s *subring, a []Value) {
			n := len(a[0].(Slice).arr)
			p1 := m.words(a[0], n)
			c := m.term(a[1])
			var p2 []*Term
			if in == 2 {
				p2 = m.words(a[2], n)
			}
			out := make([]*Term, n)
			for i := range out {
				x := []*Term{p1[i]}
				if in == 2 {
					x = append(x, p2[i])
				}
				out[i] = f(m, s, x, c)
			}
			m.putWords(a[2], out)
		})
	}
	scal("AddScalar", 1, func(m *M, s *subring, x []*Term, c *Term) *Term { return m.cred(s, m.u.add(x[0], c)) })
	scal("AddScalarLazy", 1, func(m *M, s *subring, x []*Term, c *Term) *Term { return m.wrapT(m.u.add(x[0], c)) })
	scal("SubScalar", 1, func(m *M, s *subring, x []*Term, c *Term) *Term {
		return m.cred(s, m.u.add(m.u.sub(x[0], c), m.u.konst(s.q)))
	})
	scal("MulScalarMontgomery", 1, func(m *M, s *subring, x []*Term, c *Term) *Term { return m.full(s, mont(m, s, x[0], c)) })
	scal("MulScalarMontgomeryLazy", 1, func(m *M, s *subring, x []*Term, c *Term) *Term { return m.lazy(s, mont(m, s, x[0], c), 2) })
	scal("MulScalarMontgomeryThenAdd", 2, func(m *M, s *subring, x []*Term, c *Term) *Term {
		if _, hi := m.u.Range(x[1]); hi.Cmp(s.q) > 0 {
			return m.lazy(s, m.u.add(x[1], mont(m, s, x[0], c)), 4)
		}
		return m.full(s, m.u.add(x[1], mont(m, s, x[0], c)))
	})
	wise("MForm", 1, func(m *M, s *subring, x []*Term) *Term { return m.full(s, m.u.scale(m.modr(s, x[0]), s.r)) })
	wise("MFormLazy", 1, func(m *M, s *subring, x []*Term) *Term { return m.lazy(s, m.u.scale(m.modr(s, x[0]), s.r), 2) })
	wise("IMForm", 1, func(m *M, s *subring, x []*Term) *Term { return m.full(s, m.u.scale(m.modr(s, x[0]), s.rinv)) })
	tr := func(name string, back, lz bool) {
		S(name, func(m *M, s *subring, a []Value) {
			x := m.words(a[0], s.n)
			for i := range x {
				x[i] = m.modr(s, x[i])
			}
			mat := s.fm
			if back {
				mat = s.bm
			}
			out := make([]*Term, s.n)
			for i := range out {
				out[i] = m.full(s, m.u.comb(x, mat[i]))
				if lz {
					out[i] = m.lazy(s, out[i], 2)
				}
			}
			m.putWords(a[1], out)
		})
	}
	tr("NTT", false, false)
	tr("NTTLazy", false, true)
	tr("INTT", true, false)
	tr("INTTLazy", true, true)

	I := func(name string, f func(m *M, a []Value) Value) {
		intrinsics[name] = func(m *M, _ *ssa.Function, a []Value) Value { return f(m, a) }
	}
	conc := func(name string, f func(a []uint64) uint64) {
		I(lattigo+name, func(m *M, a []Value) Value {
			var x []uint64
			for _, v := range a {
				if arr, ok := v.(Array); ok {
					for range arr {
					}
					continue
				}
				c, ok := v.(uint64)
				if !ok {
					panic(unsupported("%s of a symbolic word", name))
				}
				x = append(x, c)
			}
			return f(x)
		})
	}
	mulmod := func(x, y, q uint64, k *big.Int) uint64 {
		t := new(big.Int).Mul(new(big.Int).SetUint64(x), new(big.Int).SetUint64(y))
		t.Mul(t, k)
		return t.Mod(t, new(big.Int).SetUint64(q)).Uint64()
	}
	conc("MForm", func(a []uint64) uint64 {
		return mulmod(a[0], 1, a[1], pow2(64))
	})
	conc("BRedAdd", func(a []uint64) uint64 { return a[0] % a[1] })
	conc("BRed", func(a []uint64) uint64 { return mulmod(a[0], a[1], a[2], b1) })
	conc("MRed", func(a []uint64) uint64 {
		return mulmod(a[0], a[1], a[2], new(big.Int).ModInverse(pow2(64), new(big.Int).SetUint64(a[2])))
	})
	I(lattigo+"ZeroVec", func(m *M, a []Value) Value {
		arr := a[0].(Slice).arr
		for i := range arr {
			m.store(&arr[i], uint64(0))
		}
		return nil
	})
	I("("+lattigo+"Poly).Equal", func(m *M, a []Value) Value {
		x := field(a[0], 0).(Slice).arr
		y := field(a[1], 0).(Slice).arr
		if len(x) != len(y) {
			return false
		}
		var fs []*F
		for i := range x {
			p, q := x[i].(Slice).arr, y[i].(Slice).arr
			if len(p) != len(q) {
				return false
			}
			for j := range p {
				fs = append(fs, m.u.eq(m.term(p[j]), m.term(q[j])))
			}
		}
		return boolVal(m.u.and(fs...))
	})
	// A word is hashed as one symbolic "byte" after its length headers.
	I("("+lattigo+"Poly).WriteTo", func(m *M, a []Value) Value {
		x := field(a[0], 0).(Slice).arr
		var out []Value
		n := 8
		out = append(out, uint64(len(x)))
		for i := range x {
			w := x[i].(Slice).arr
			out = append(out, uint64(len(w)))
			n += 8 + 8*len(w)
			for j := range w {
				out = append(out, clone(w[j]))
			}
		}
		m.callMethod(a[1].(Iface), "Write", Slice{out})
		return Tuple{int64(n), Iface{}}
	})
	I("(*"+lattigo+"BasisExtender).ModUpQtoP", func(m *M, a []Value) Value {
		be := a[0]
		limbs := func(ring Value, lv int64) []*subring {
			var out []*subring
			for _, s := range field(ring, 0).(Slice).arr[:lv+1] {
				out = append(out, m.subringOf(s))
			}
			return out
		}
		Q := limbs(field(be, 0), m.concInt(a[1]))
		P := limbs(field(be, 1), m.concInt(a[2]))
		src := field(a[3], 0).(Slice).arr
		dst := field(a[4], 0).(Slice).arr
		if len(src) < len(Q) || len(dst) < len(P) {
			m.panicf("ModUpQtoP: missing limbs")
		}
		n := len(src[0].(Slice).arr)
		outs := make([][]*Term, len(P))
		for i := 0; i < n; i++ {
			var ws []*Term
			var qs []*big.Int
			for l, s := range Q {
				ws = append(ws, m.term(src[l].(Slice).arr[i]))
				qs = append(qs, s.q)
			}
			b := m.balanced(ws, qs)
			for l, s := range P {
				outs[l] = append(outs[l], m.lazy(s, b, 2))
			}
		}
		for l := range P {
			m.putWords(dst[l], outs[l])
		}
		return nil
	})

	// ---- harness interface
	// Balanced(words, moduli) is the balanced integer with these residues.
	I(vpkg+"Balanced", func(m *M, a []Value) Value {
		var qs []*big.Int
		for _, x := range a[1].(Slice).arr {
			qs = append(qs, new(big.Int).SetUint64(x.(uint64)))
		}
		return m.newBig(m.balanced(m.words(a[0], len(qs)), qs))
	})
	// Most(x) is a number that |x| does not exceed.
	I(vpkg+"Most", func(m *M, a []Value) Value {
		lo, hi := m.u.Range(m.bigOf(a[0]))
		return m.newBig(m.u.konst(maxB(new(big.Int).Abs(lo), new(big.Int).Abs(hi))))
	})
	// SameHash: two outputs of hash functions come from the same input.
	I(vpkg+"SameHash", func(m *M, a []Value) Value {
		x, y := m.hashRec(a[0]), m.hashRec(a[1])
		if x.pos != y.pos || len(x.in) != len(y.in) || x.kind != y.kind {
			return false
		}
		var fs []*F
		for i := range x.in {
			fs = append(fs, m.u.eq(x.in[i], y.in[i]))
		}
		return boolVal(m.u.and(fs...))
	})
	I(vpkg+"Float", func(m *M, a []Value) Value { return &UFloat{} })

	// ---- extendable-output hashes: distinct inputs give distinct (concrete) bytes
	for _, k := range []string{"128", "256"} {
		I("crypto/sha3.NewSHAKE"+k, func(m *M, a []Value) Value {
			var v Value = &shake{kind: "shake" + k}
			return Ptr{p: &v}
		})
	}
	I("(*crypto/sha3.SHAKE).Write", func(m *M, a []Value) Value {
		h := (*a[0].(Ptr).p).(*shake)
		if h.pos > 0 {
			m.panicf("sha3: Write after Read")
		}
		n := &shake{kind: h.kind, in: h.in[:len(h.in):len(h.in)]}
		for _, b := range a[1].(Slice).arr {
			n.in = append(n.in, m.term(b))
		}
		m.store(a[0].(Ptr).p, n)
		return Tuple{int64(len(a[1].(Slice).arr)), Iface{}}
	})
	I("(*crypto/sha3.SHAKE).Reset", func(m *M, a []Value) Value {
		m.store(a[0].(Ptr).p, &shake{kind: (*a[0].(Ptr).p).(*shake).kind})
		return nil
	})
	I("(*crypto/sha3.SHAKE).Read", func(m *M, a []Value) Value {
		h := (*a[0].(Ptr).p).(*shake)
		m.noSpec("hash")
		d := a[1].(Slice).arr
		key := h.kind
		for _, t := range h.in {
			key += "|" + t.String()
		}
		sum := sha256.Sum256([]byte(key))
		// bytes in blocks of 16, so that any eight in a row are unique
		raw := make([]byte, len(d))
		for i := range raw {
			at := h.pos + i
			var blk [40]byte
			copy(blk[:], sum[:])
			binary.BigEndian.PutUint64(blk[32:], uint64(at/16))
			o := sha256.Sum256(blk[:])
			raw[i] = o[at%16]
			m.store(&d[i], uint64(raw[i]))
		}
		if len(raw) >= 8 {
			m.tags["hash:"+string(raw)] = &hashRec{kind: h.kind, in: h.in, pos: h.pos}
		}
		n := *h
		n.pos += len(d)
		m.store(a[0].(Ptr).p, &n)
		return Tuple{int64(len(d)), Iface{}}
	})
}

type shake struct {
	kind string
	in   []*Term
	pos  int
}

type hashRec struct {
	kind string
	in   []*Term
	pos  int
}

func (m *M) hashRec(v Value) *hashRec {
	var raw []byte
	for _, b := range v.(Slice).arr {
		c, ok := b.(uint64)
		if !ok {
			panic(unsupported("bytes that are no output of a hash function"))
		}
		raw = append(raw, byte(c))
	}
	r, ok := m.tags["hash:"+string(raw)].(*hashRec)
	if !ok {
		panic(unsupported("bytes that are no output of a hash function"))
	}
	return r
}

func (m *M) callMethod(rv Iface, name string, args ...Value) Value {
	if rv.T == nil {
		m.panicf("nil interface: method %s called", name)
	}
	if n, ok := rv.V.(*Native); ok {
		return m.nativeCall(n, name, args)
	}
	var pkg *types.Package
	fn := m.prog.LookupMethod(rv.T, pkg, name)
	if fn == nil {
		panic(unsupported("method %s of %v", name, rv.T))
	}
	return m.call(fn, append([]Value{clone(rv.V)}, args...), nil)
}

// wrapT: the integer modulo 2^64.
func (m *M) wrapT(t *Term) *Term { return m.term(m.wrap(t, tU64)) }

// modr drops multiples of q.
func (m *M) modr(s *subring, t *Term) *Term { return m.u.reduce(t, s.q) }

// balanced is the integer in [-Q/2, Q/2] with the residues w modulo q.
func (m *M) balanced(w []*Term, q []*big.Int) *Term {
	u := m.u
	Q := new(big.Int).Set(q[0])
	for _, x := range q[1:] {
		Q.Mul(Q, x)
	}
	half := new(big.Int).Rsh(Q, 1)
	acc := map[string]*mono{}
	for l := range w {
		g := new(big.Int).Div(Q, q[l])
		g.Mul(g, new(big.Int).ModInverse(g, q[l]))
		for _, x := range u.reduce(w[l], q[l]).ms {
			c := new(big.Int).Mul(x.c, g)
			if o, ok := acc[x.key]; ok {
				o.c.Add(o.c, c)
			} else {
				acc[x.key] = &mono{x.key, x.atoms, c}
			}
		}
	}
	red := u.center(fromMap(acc), Q)
	lo, hi := u.Range(red)
	nh := new(big.Int).Neg(half)
	if lo.Cmp(nh) >= 0 && hi.Cmp(half) <= 0 {
		return red
	}
	if k, ok := red.isConst(); ok {
		k = new(big.Int).Mod(k, Q)
		if k.Cmp(half) > 0 {
			k.Sub(k, Q)
		}
		return u.konst(k)
	}
	key := "bal:" + Q.String() + ":" + red.String()
	if a, ok := u.byKey[key]; ok {
		m.defBal(a, red, Q, half)
		return u.atomTerm(a)
	}
	debugf("  balanced modulo %v: %s\n", Q, u.Pretty(red))
	a := u.newAtom(&Atom{kind: 'v', name: fmt.Sprintf("bal%x", sha256.Sum256([]byte(key)))[:20], lo: nh, hi: half}, key)
	for _, x := range q {
		u.rule(x, a.id, red)
	}
	u.bal[a.id] = &balInfo{red, Q, q}
	m.defBal(a, red, Q, half)
	return u.atomTerm(a)
}

func (m *M) defBal(a *Atom, red *Term, Q, half *big.Int) {
	u := m.u
	d := u.add(u.sub(red, u.scale(u.floor(u.add(red, u.konst(half)), Q), Q)), u.neg(u.atomTerm(a)))
	u.plain = true
	f := u.eq0(d)
	u.plain = false
	m.assume(f)
}

// remInfo: a variable that is the remainder of t modulo m.
type remInfo struct {
	t *Term
	m *big.Int
}

type balInfo struct {
	red *Term
	Q   *big.Int
	q   []*big.Int
}

// shiftBal: floor division of a balanced integer by 2^k, with the remainder as a variable.
func (m *M) shiftBal(t *Term, k uint) (*Term, bool) {
	u := m.u
	a := u.single(t)
	if a == nil {
		return nil, false
	}
	b, ok := u.bal[a.id]
	if !ok || k == 0 {
		return nil, false
	}
	c := u.floor(t, pow2(k))
	f := u.single(c)
	if f == nil {
		return nil, false
	}
	key := fmt.Sprintf("rem:%d:%d", a.id, k)
	r, ok := u.byKey[key]
	if !ok {
		r = u.newAtom(&Atom{kind: 'v', name: fmt.Sprintf("rem%d_%d", a.id, k), lo: b0, hi: new(big.Int).Sub(pow2(k), b1)}, key)
		u.rems[r.id] = remInfo{t, pow2(k)}
		for _, q := range b.q {
			inv := new(big.Int).ModInverse(pow2(k), q)
			u.rule(q, f.id, u.scale(u.sub(b.red, u.atomTerm(r)), inv))
		}
	}
	m.assume(u.eq0(u.sub(u.sub(t, u.scale(c, pow2(k))), u.atomTerm(r))))
	return c, true
}
