package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

const vpkg = "github.com/sp301415/ringo-snark/zzverif/v."

type intrFn func(m *M, fn *ssa.Function, a []Value) Value

var intrinsics = map[string]intrFn{}

func (m *M) intrinsic(fn *ssa.Function, args []Value) (Value, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok {
		m.noteStub(name)
		return f(m, fn, args), true
	}
	if m.ld != nil && fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if f, ok := m.contract(fn, name); ok {
		m.noteStub("contract of " + name)
		return f(m, fn, args), true
	}
	return nil, false
}

func (m *M) noteStub(string) {}

// ---- big integers

func (m *M) bigOf(v Value) *Term {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("not a *big.Int: %T", v))
	}
	if p.p == nil {
		m.panicf("nil *big.Int")
	}
	b, ok := (*p.p).(BigV)
	if !ok {
		panic(unsupported("not a big.Int: %T", *p.p))
	}
	return b.t
}

func (m *M) setBig(v Value, t *Term) Value {
	p := v.(Ptr)
	if p.p == nil {
		m.panicf("nil *big.Int")
	}
	m.store(p.p, BigV{t})
	return v
}

func (m *M) newBig(t *Term) Value {
	var v Value = BigV{t}
	return Ptr{p: &v}
}

func (m *M) bigConst(v Value, what string) *big.Int {
	c, ok := m.bigOf(v).isConst()
	if !ok {
		panic(unsupported("%s of a symbolic integer at %s", what, m.where()))
	}
	return c
}

// sign3 is -1, 0 or 1.
func (m *M) sign3(t *Term) Value {
	u := m.u
	if c, ok := t.isConst(); ok {
		return int64(c.Sign())
	}
	r := u.ite(u.lt(t, &Term{}), u.kint(-1), u.ite(u.eq0(t), &Term{}, u.kint(1)))
	if c, ok := r.isConst(); ok {
		return c.Int64()
	}
	return r
}

// euclid: Euclidean division by a symbolic or constant divisor.
func (m *M) euclid(a, b *Term) (q, r *Term) {
	u := m.u
	if c, ok := b.isConst(); ok {
		if c.Sign() == 0 {
			m.panicf("division by zero")
		}
		n := new(big.Int).Abs(c)
		q = u.floor(a, n)
		r = u.mod(a, n)
		if c.Sign() < 0 {
			q = u.neg(q)
		}
		return
	}
	m.require(u.not(u.eq0(b)), "division by zero")
	return m.symDiv(a, b)
}

func (m *M) uint64Of(t *Term) Value {
	return m.wrap(t, types.Typ[types.Uint64])
}

var (
	tU64 = types.Typ[types.Uint64]
	tI64 = types.Typ[types.Int64]
	tU8  = types.Typ[types.Uint8]
	tInt = types.Typ[types.Int]
)

// words splits a nonnegative term into w-bit digits, most significant last, without leading zeros.
func (m *M) digits(t *Term, w uint) []Value {
	u := m.u
	_, hi := u.Range(t)
	n := (hi.BitLen() + int(w) - 1) / int(w)
	// the length
	for n > 0 && !m.decide(u.le(u.konst(pow2(uint(n-1)*w)), t)) {
		n--
	}
	out := make([]Value, n)
	b := tU64
	if w == 8 {
		b = tU8
	}
	for i := range out {
		d := u.floor(t, pow2(uint(i)*w))
		if i < n-1 {
			d = u.mod(d, pow2(w))
		}
		out[i] = m.intVal(d, b)
	}
	return out
}

func (m *M) abs(t *Term) *Term {
	lo, hi := m.u.Range(t)
	if lo.Sign() >= 0 {
		return t
	}
	if hi.Sign() <= 0 {
		return m.u.neg(t)
	}
	return m.u.ite(m.u.le(&Term{}, t), t, m.u.neg(t))
}

func (m *M) bytesTerm(b []Value) *Term {
	u := m.u
	ts := make([]*Term, len(b))
	for i := range b {
		ts[i] = u.scale(m.term(b[i]), pow2(uint(8*(len(b)-1-i))))
	}
	return u.sum(ts)
}

func init() {
	B := func(name string, f func(m *M, a []Value) Value) {
		intrinsics["(*math/big.Int)."+name] = func(m *M, _ *ssa.Function, a []Value) Value { return f(m, a) }
	}
	bin := func(name string, f func(m *M, x, y *Term) *Term) {
		B(name, func(m *M, a []Value) Value { return m.setBig(a[0], f(m, m.bigOf(a[1]), m.bigOf(a[2]))) })
	}
	bin("Add", func(m *M, x, y *Term) *Term { return m.u.add(x, y) })
	bin("Sub", func(m *M, x, y *Term) *Term { return m.u.sub(x, y) })
	bin("Mul", func(m *M, x, y *Term) *Term { return m.u.mul(x, y) })
	bin("Div", func(m *M, x, y *Term) *Term { q, _ := m.euclid(x, y); return q })
	bin("Mod", func(m *M, x, y *Term) *Term { _, r := m.euclid(x, y); return r })
	bin("Quo", func(m *M, x, y *Term) *Term {
		m.require(m.u.not(m.u.eq0(y)), "division by zero")
		q, _ := m.truncDiv(x, y)
		return q
	})
	bin("Rem", func(m *M, x, y *Term) *Term {
		m.require(m.u.not(m.u.eq0(y)), "division by zero")
		_, r := m.truncDiv(x, y)
		return r
	})
	B("DivMod", func(m *M, a []Value) Value {
		q, r := m.euclid(m.bigOf(a[1]), m.bigOf(a[2]))
		m.setBig(a[0], q)
		m.setBig(a[3], r)
		return Tuple{a[0], a[3]}
	})
	B("QuoRem", func(m *M, a []Value) Value {
		y := m.bigOf(a[2])
		m.require(m.u.not(m.u.eq0(y)), "division by zero")
		q, r := m.truncDiv(m.bigOf(a[1]), y)
		m.setBig(a[0], q)
		m.setBig(a[3], r)
		return Tuple{a[0], a[3]}
	})
	B("Set", func(m *M, a []Value) Value { return m.setBig(a[0], m.bigOf(a[1])) })
	B("Neg", func(m *M, a []Value) Value { return m.setBig(a[0], m.u.neg(m.bigOf(a[1]))) })
	B("Abs", func(m *M, a []Value) Value { return m.setBig(a[0], m.abs(m.bigOf(a[1]))) })
	B("SetUint64", func(m *M, a []Value) Value { return m.setBig(a[0], m.term(a[1])) })
	B("SetInt64", func(m *M, a []Value) Value { return m.setBig(a[0], m.term(a[1])) })
	B("SetBytes", func(m *M, a []Value) Value { return m.setBig(a[0], m.bytesTerm(a[1].(Slice).arr)) })
	B("Cmp", func(m *M, a []Value) Value { return m.sign3(m.u.sub(m.bigOf(a[0]), m.bigOf(a[1]))) })
	B("CmpAbs", func(m *M, a []Value) Value {
		return m.sign3(m.u.sub(m.abs(m.bigOf(a[0])), m.abs(m.bigOf(a[1]))))
	})
	B("Sign", func(m *M, a []Value) Value { return m.sign3(m.bigOf(a[0])) })
	B("Sqrt", func(m *M, a []Value) Value {
		t := m.bigOf(a[1])
		m.require(m.u.le(&Term{}, t), "square root of negative number")
		return m.setBig(a[0], m.u.sqrt(t))
	})
	B("Lsh", func(m *M, a []Value) Value {
		return m.setBig(a[0], m.u.scale(m.bigOf(a[1]), pow2(uint(m.concInt(a[2])))))
	})
	B("Rsh", func(m *M, a []Value) Value {
		if c, ok := m.shiftBal(m.bigOf(a[1]), uint(m.concInt(a[2]))); ok {
			return m.setBig(a[0], c)
		}
		return m.setBig(a[0], m.u.floor(m.bigOf(a[1]), pow2(uint(m.concInt(a[2])))))
	})
	B("And", func(m *M, a []Value) Value {
		x, y := m.bigOf(a[1]), m.bigOf(a[2])
		cx, okx := x.isConst()
		cy, oky := y.isConst()
		switch {
		case okx && oky:
			return m.setBig(a[0], m.u.konst(new(big.Int).And(cx, cy)))
		case okx:
			if cx.Sign() >= 0 {
				return m.setBig(a[0], m.bitop2(tokAND, uint(cx.BitLen()), y, x))
			}
		case oky:
			if cy.Sign() >= 0 {
				return m.setBig(a[0], m.bitop2(tokAND, uint(cy.BitLen()), x, y))
			}
		}
		panic(unsupported("And of symbolic integers"))
	})
	B("Or", func(m *M, a []Value) Value {
		return m.setBig(a[0], m.u.konst(new(big.Int).Or(m.bigConst(a[1], "Or"), m.bigConst(a[2], "Or"))))
	})
	B("Bit", func(m *M, a []Value) Value {
		i := uint(m.concInt(a[1]))
		r := m.u.mod(m.u.floor(m.bigOf(a[0]), pow2(i)), b2)
		if c, ok := r.isConst(); ok {
			return c.Uint64()
		}
		return r
	})
	B("SetBit", func(m *M, a []Value) Value {
		return m.setBig(a[0], m.u.konst(new(big.Int).SetBit(m.bigConst(a[1], "SetBit"), int(m.concInt(a[2])), uint(m.concInt(a[3])))))
	})
	B("BitLen", func(m *M, a []Value) Value {
		t := m.abs(m.bigOf(a[0]))
		if c, ok := t.isConst(); ok {
			return int64(c.BitLen())
		}
		_, hi := m.u.Range(t)
		n := hi.BitLen()
		for n > 0 && !m.decide(m.u.le(m.u.konst(pow2(uint(n-1))), t)) {
			n--
		}
		return int64(n)
	})
	B("TrailingZeroBits", func(m *M, a []Value) Value {
		return uint64(m.bigConst(a[0], "TrailingZeroBits").TrailingZeroBits())
	})
	B("IsUint64", func(m *M, a []Value) Value {
		t := m.bigOf(a[0])
		return boolVal(m.u.and(m.u.le(&Term{}, t), m.u.lt(t, m.u.konst(pow2(64)))))
	})
	B("IsInt64", func(m *M, a []Value) Value {
		t := m.bigOf(a[0])
		return boolVal(m.u.and(m.u.le(m.u.konst(new(big.Int).Neg(pow2(63))), t), m.u.lt(t, m.u.konst(pow2(63)))))
	})
	B("Uint64", func(m *M, a []Value) Value { return m.wrap(m.bigOf(a[0]), tU64) })
	B("Int64", func(m *M, a []Value) Value { return m.wrap(m.bigOf(a[0]), tI64) })
	B("Bits", func(m *M, a []Value) Value { return Slice{m.digits(m.abs(m.bigOf(a[0])), 64)} })
	B("SetBits", func(m *M, a []Value) Value {
		var ts []*Term
		for i, w := range a[1].(Slice).arr {
			ts = append(ts, m.u.scale(m.term(w), pow2(uint(64*i))))
		}
		return m.setBig(a[0], m.u.sum(ts))
	})
	B("Bytes", func(m *M, a []Value) Value {
		d := m.digits(m.abs(m.bigOf(a[0])), 8)
		for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
			d[i], d[j] = d[j], d[i]
		}
		if d == nil {
			d = []Value{}
		}
		return Slice{d}
	})
	B("FillBytes", func(m *M, a []Value) Value {
		t := m.abs(m.bigOf(a[0]))
		buf := a[1].(Slice)
		n := len(buf.arr)
		m.require(m.u.lt(t, m.u.konst(pow2(uint(8*n)))), "math/big: buffer too small to fit value")
		for i := 0; i < n; i++ {
			m.store(&buf.arr[n-1-i], m.intVal(m.u.mod(m.u.floor(t, pow2(uint(8*i))), pow2(8)), tU8))
		}
		return buf
	})
	B("SetString", func(m *M, a []Value) Value {
		s, ok := a[1].(string)
		if !ok {
			panic(unsupported("SetString of a symbolic string"))
		}
		v, ok := new(big.Int).SetString(s, int(m.concInt(a[2])))
		if !ok {
			return Tuple{Ptr{}, false}
		}
		m.setBig(a[0], m.u.konst(v))
		return Tuple{a[0], true}
	})
	B("String", func(m *M, a []Value) Value { return m.bigText(a[0], 10) })
	B("Text", func(m *M, a []Value) Value { return m.bigText(a[0], int(m.concInt(a[1]))) })
	B("Exp", func(m *M, a []Value) Value {
		var mod *big.Int
		if p := a[3].(Ptr); p.p != nil {
			mod = m.bigConst(a[3], "Exp")
		}
		e := m.bigConst(a[2], "Exp")
		x := m.bigOf(a[1])
		if c, ok := x.isConst(); ok {
			return m.setBig(a[0], m.u.konst(new(big.Int).Exp(c, e, mod)))
		}
		if e.Sign() < 0 || e.BitLen() > 8 {
			panic(unsupported("Exp of a symbolic integer"))
		}
		r := m.u.kint(1)
		for i := int64(0); i < e.Int64(); i++ {
			r = m.u.mul(r, x)
			if mod != nil && mod.Sign() != 0 {
				r = m.u.mod(r, mod)
			}
		}
		return m.setBig(a[0], r)
	})
	B("ModInverse", func(m *M, a []Value) Value {
		x, mod := m.bigOf(a[1]), m.bigConst(a[2], "ModInverse")
		if c, ok := x.isConst(); ok {
			r := new(big.Int).ModInverse(c, mod)
			if r == nil {
				return Ptr{}
			}
			return m.setBig(a[0], m.u.konst(r))
		}
		return m.setBig(a[0], m.modInverse(x, mod))
	})
	B("ModSqrt", func(m *M, a []Value) Value {
		r := new(big.Int).ModSqrt(m.bigConst(a[1], "ModSqrt"), m.bigConst(a[2], "ModSqrt"))
		if r == nil {
			return Ptr{}
		}
		return m.setBig(a[0], m.u.konst(r))
	})
	B("GCD", func(m *M, a []Value) Value {
		var x, y *big.Int
		if a[1].(Ptr).p != nil {
			x = new(big.Int)
		}
		if a[2].(Ptr).p != nil {
			y = new(big.Int)
		}
		g := new(big.Int).GCD(x, y, m.bigConst(a[3], "GCD"), m.bigConst(a[4], "GCD"))
		if x != nil {
			m.setBig(a[1], m.u.konst(x))
		}
		if y != nil {
			m.setBig(a[2], m.u.konst(y))
		}
		return m.setBig(a[0], m.u.konst(g))
	})
	B("ProbablyPrime", func(m *M, a []Value) Value {
		return m.bigConst(a[0], "ProbablyPrime").ProbablyPrime(int(m.concInt(a[1])))
	})
	B("Float64", func(m *M, a []Value) Value {
		t := m.bigOf(a[0])
		if c, ok := t.isConst(); ok {
			f, acc := c.Float64()
			return Tuple{f, int64(acc)}
		}
		return Tuple{&UFloat{t}, int64(0)}
	})
	intrinsics["math/big.NewInt"] = func(m *M, _ *ssa.Function, a []Value) Value { return m.newBig(m.term(a[0])) }
	intrinsics["math/big.Jacobi"] = func(m *M, _ *ssa.Function, a []Value) Value {
		return int64(big.Jacobi(m.bigConst(a[0], "Jacobi"), m.bigConst(a[1], "Jacobi")))
	}

	I := func(name string, f func(m *M, a []Value) Value) {
		intrinsics[name] = func(m *M, _ *ssa.Function, a []Value) Value { return f(m, a) }
	}
	// ---- math/bits
	I("math/bits.Add64", func(m *M, a []Value) Value {
		x, okx := a[0].(uint64)
		y, oky := a[1].(uint64)
		c, okc := a[2].(uint64)
		if okx && oky && okc {
			s, cc := bits.Add64(x, y, c)
			return Tuple{s, cc}
		}
		e := m.u.sum([]*Term{m.term(a[0]), m.term(a[1]), m.term(a[2])})
		f := m.u.floor(e, pow2(64))
		m.wordIn(f, b0, b1)
		m.wordIn(m.u.sub(e, m.u.scale(f, pow2(64))), b0, maxWord)
		return Tuple{m.intVal(m.u.sub(e, m.u.scale(f, pow2(64))), tU64), m.intVal(f, tU64)}
	})
	I("math/bits.Sub64", func(m *M, a []Value) Value {
		x, okx := a[0].(uint64)
		y, oky := a[1].(uint64)
		c, okc := a[2].(uint64)
		if okx && oky && okc {
			s, cc := bits.Sub64(x, y, c)
			return Tuple{s, cc}
		}
		e := m.u.sub(m.term(a[0]), m.u.add(m.term(a[1]), m.term(a[2])))
		f := m.u.floor(e, pow2(64))
		m.wordIn(f, bm1, b0)
		m.wordIn(m.u.sub(e, m.u.scale(f, pow2(64))), b0, maxWord)
		return Tuple{m.intVal(m.u.sub(e, m.u.scale(f, pow2(64))), tU64), m.intVal(m.u.neg(f), tU64)}
	})
	I("math/bits.Mul64", func(m *M, a []Value) Value {
		x, okx := a[0].(uint64)
		y, oky := a[1].(uint64)
		if okx && oky {
			h, l := bits.Mul64(x, y)
			return Tuple{h, l}
		}
		e := m.u.mul(m.term(a[0]), m.term(a[1]))
		f := m.u.floor(e, pow2(64))
		m.wordIn(e, b0, new(big.Int).Mul(maxWord, maxWord))
		m.wordIn(f, b0, new(big.Int).Sub(maxWord, b1))
		m.wordIn(m.u.sub(e, m.u.scale(f, pow2(64))), b0, maxWord)
		return Tuple{m.intVal(f, tU64), m.intVal(m.u.sub(e, m.u.scale(f, pow2(64))), tU64)}
	})
	I("math/bits.Div64", func(m *M, a []Value) Value {
		hi, lo, y := m.term(a[0]), m.term(a[1]), m.term(a[2])
		m.require(m.u.not(m.u.eq0(y)), "integer divide by zero")
		m.require(m.u.lt(hi, y), "integer overflow")
		e := m.u.add(m.u.scale(hi, pow2(64)), lo)
		q, r := m.euclid(e, y)
		return Tuple{m.intVal(q, tU64), m.intVal(r, tU64)}
	})
	I("math/bits.Len64", bitLen)
	I("math/bits.Len", bitLen)
	I("math/bits.Len32", bitLen)
	I("math/bits.TrailingZeros64", func(m *M, a []Value) Value {
		x, ok := a[0].(uint64)
		if ok {
			return int64(bits.TrailingZeros64(x))
		}
		t := m.term(a[0])
		for i := 0; i < 64; i++ {
			if m.decide(m.u.eq(m.u.mod(m.u.floor(t, pow2(uint(i))), b2), m.u.kint(1))) {
				return int64(i)
			}
		}
		return int64(64)
	})
	I("math/bits.LeadingZeros64", func(m *M, a []Value) Value { return 64 - bitLen(m, a).(int64) })

	// ---- math
	M1 := func(name string, f func(float64) float64) {
		I("math."+name, func(m *M, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				return &UFloat{}
			}
			return f(x)
		})
	}
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Exp": math.Exp, "Exp2": math.Exp2, "Log": math.Log, "Log2": math.Log2, "Floor": math.Floor, "Ceil": math.Ceil, "Round": math.Round, "Abs": math.Abs, "Trunc": math.Trunc} {
		M1(n, f)
	}
	I("math.Float64bits", func(m *M, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Float64bits(x)
		}
		panic(unsupported("bits of an unknown floating-point number"))
	})
	I("math.Float64frombits", func(m *M, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			return math.Float64frombits(x)
		}
		return &UFloat{}
	})
	I("math.Pow", func(m *M, a []Value) Value {
		x, ok := a[0].(float64)
		y, ok2 := a[1].(float64)
		if !ok || !ok2 {
			return &UFloat{}
		}
		return math.Pow(x, y)
	})
	I("math.Inf", func(m *M, a []Value) Value { return math.Inf(int(m.concInt(a[0]))) })

	// ---- formatting and other stand-ins
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		I(n, func(m *M, a []Value) Value { return "<text>" })
	}
	errVal := func(m *M, a []Value) Value {
		var v Value = Struct{"<error>"}
		p := Ptr{p: &v}
		return Iface{m.errType(), p}
	}
	I("fmt.Errorf", errVal)
	I("errors.New", errVal)
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Fprintf", "fmt.Fprintln"} {
		I(n, func(m *M, a []Value) Value { return Tuple{int64(0), Iface{}} })
	}
	I("(*errors.errorString).Error", func(m *M, a []Value) Value { return "<error>" })
	I("(*sync.Pool).Get", func(m *M, a []Value) Value {
		p := a[0].(Ptr)
		s := (*p.p).(Struct)
		f := s[len(s)-1]
		if isNil(f) {
			return Iface{}
		}
		return m.callValue(nil, f, nil, nil)
	})
	I("(github.com/consensys/gnark-crypto/field/pool.bigIntPool).Get", func(m *M, a []Value) Value { return m.newBig(&Term{}) })
	I("(github.com/consensys/gnark-crypto/field/pool.bigIntPool).Put", func(m *M, a []Value) Value { return nil })
	I("(*sync.Pool).Put", func(m *M, a []Value) Value { return nil })
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		I(n, func(m *M, a []Value) Value { return nil })
	}
	I("(*sync.Once).Do", func(m *M, a []Value) Value {
		m.noSpec("once")
		k := "once" + ptrKey(a[0].(Ptr))
		if m.tags[k] == nil {
			m.tags[k] = true
			m.callValue(nil, a[1], nil, nil)
		}
		return nil
	})
	I("runtime.KeepAlive", func(m *M, a []Value) Value { return nil })
	I("strings.Builder.String", func(m *M, a []Value) Value { return "" })
	I("github.com/tuneinsight/lattigo/v6/utils.Alias1D", func(m *M, a []Value) Value {
		x, y := a[0].(Slice).arr, a[1].(Slice).arr
		return cap(x) > 0 && cap(y) > 0 && &x[0:cap(x)][cap(x)-1] == &y[0:cap(y)][cap(y)-1]
	})

	// ---- harness interface
	V := func(name string, f func(m *M, a []Value) Value) { I(vpkg+name, f) }
	V("U64", func(m *M, a []Value) Value {
		return m.intVal(m.fresh(a[0].(string), m.constOf(a[1]), m.constOf(a[2])), tU64)
	})
	V("I64", func(m *M, a []Value) Value {
		return m.intVal(m.fresh(a[0].(string), m.constOf(a[1]), m.constOf(a[2])), tI64)
	})
	V("Byte", func(m *M, a []Value) Value { return m.fresh(a[0].(string), b0, bi(255)) })
	V("Bool", func(m *M, a []Value) Value {
		return boolVal(m.u.eq(m.fresh(a[0].(string), b0, b1), m.u.kint(1)))
	})
	V("Big", func(m *M, a []Value) Value {
		return m.newBig(m.fresh(a[0].(string), m.bigConst(a[1], "bound"), m.bigConst(a[2], "bound")))
	})
	V("Assume", func(m *M, a []Value) Value {
		m.noSpec("assumption")
		f := m.formula(a[0])
		if f.isFalse() || m.quick(f) == 0 {
			panic(infeasible{})
		}
		if !f.isTrue() && m.check(f, 5000) == "unsat" {
			panic(infeasible{})
		}
		m.assume(f)
		return nil
	})
	V("Assert", func(m *M, a []Value) Value {
		m.noSpec("assertion")
		m.assert(m.formula(a[0]), show(a[1]))
		return nil
	})
	V("Possible", func(m *M, a []Value) Value {
		m.noSpec("possibility")
		m.possible(m.formula(a[0]), show(a[1]))
		return nil
	})
	V("Show", func(m *M, a []Value) Value {
		s := show(a[1].(Iface).V)
		func() {
			defer func() { recover() }()
			s = m.u.Pretty(m.bigOf(a[1].(Iface).V))
		}()
		if t, ok := a[1].(Iface).V.(*Term); ok {
			s = t.String()
			for _, mo := range t.ms {
				for _, ai := range mo.atoms {
					at := m.u.atoms[ai]
					s += fmt.Sprintf("\n    a%d %c %v %v", at.id, at.kind, at.num, at.m)
				}
			}
		}
		debugf("SHOW %s = %s\n", show(a[0]), s)
		return nil
	})
	V("Add", func(m *M, a []Value) Value {
		m.noSpec("assertion")
		r := m.u.add(m.term(a[0]), m.term(a[1]))
		m.assert(m.u.lt(r, m.u.konst(pow2(64))), show(a[2]))
		return m.intVal(m.named(r, pow2(64)), tU64)
	})
	V("Sub", func(m *M, a []Value) Value {
		m.noSpec("assertion")
		r := m.u.sub(m.term(a[0]), m.term(a[1]))
		m.assert(m.u.le(&Term{}, r), show(a[2]))
		return m.intVal(m.named(r, pow2(64)), tU64)
	})
	V("Cover", func(m *M, a []Value) Value {
		m.noSpec("cover")
		m.cover(show(a[0]))
		return nil
	})
	V("Symbolic", func(m *M, a []Value) Value { return true })
	V("Param", func(m *M, a []Value) Value { return m.job.Params[a[0].(string)] })
	V("MustPanic", func(m *M, a []Value) Value {
		m.noSpec("MustPanic")
		n := len(m.stack)
		p := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(*Panic); !ok {
						panic(e)
					}
					p = true
				}
			}()
			m.callValue(nil, a[0], nil, nil)
		}()
		m.stack = m.stack[:n]
		return p
	})
	intrinsics[vpkg+"Setup"] = func(m *M, fn *ssa.Function, a []Value) Value {
		name := a[0].(string)
		t := fn.Signature.Results().At(0).Type()
		if m.job.dump == nil || m.job.dump.Roots[name] == nil {
			panic(unsupported("no dump of the setup %s", name))
		}
		if m.job.und == nil {
			m.job.und = &undump{d: m.job.dump, objs: map[string]*Value{}, arrs: map[string][]Value{}}
		}
		return m.job.und.value(m.job.dump.Roots[name], t)
	}

	// ---- hashes and ciphers: uninterpreted functions of their whole input
	I("crypto/sha512.Sum384", func(m *M, a []Value) Value {
		return Array(m.hashBytes("sha384", a[0].(Slice).arr, 48))
	})
	I("crypto/sha512.Sum512", func(m *M, a []Value) Value {
		return Array(m.hashBytes("sha512", a[0].(Slice).arr, 64))
	})
	I("crypto/sha256.Sum256", func(m *M, a []Value) Value {
		return Array(m.hashBytes("sha256", a[0].(Slice).arr, 32))
	})
	I("crypto/aes.NewCipher", func(m *M, a []Value) Value {
		k := m.bytesKey(a[0].(Slice).arr)
		n := len(a[0].(Slice).arr)
		if n != 16 && n != 24 && n != 32 {
			return Tuple{Iface{}, errVal(m, nil)}
		}
		return Tuple{Iface{nativeType, &Native{kind: "aes", key: k}}, Iface{}}
	})
	I("crypto/cipher.NewCTR", func(m *M, a []Value) Value {
		b := a[0].(Iface).V.(*Native)
		iv := a[1].(Slice).arr
		if len(iv) != 16 {
			m.panicf("cipher.NewCTR: IV length must equal block size")
		}
		var pos Value = int64(0)
		return Iface{nativeType, &Native{kind: "ctr", key: b.key + "/" + m.bytesKey(iv), pos: &pos}}
	})
	I("crypto/rand.Read", func(m *M, a []Value) Value {
		d := a[0].(Slice).arr
		for i := range d {
			m.store(&d[i], m.fresh("rand", b0, bi(255)))
		}
		return Tuple{int64(len(d)), Iface{}}
	})
}

// Native is an object of a package that is not executed.
type Native struct {
	kind, key string
	pos       *Value
}

var nativeType types.Type = types.NewNamed(types.NewTypeName(0, nil, "zzNative", nil), types.NewStruct(nil, nil), nil)

func (m *M) nativeCall(n *Native, method string, a []Value) Value {
	switch n.kind + "." + method {
	case "ctr.XORKeyStream":
		dst, src := a[0].(Slice).arr, a[1].(Slice).arr
		if len(dst) < len(src) {
			m.panicf("crypto/cipher: output smaller than input")
		}
		pos := (*n.pos).(int64)
		for i := range src {
			var k Value = m.u.variable(fmt.Sprintf("ks[%s][%d]", n.key, pos+int64(i)), b0, bi(255))
			m.store(&dst[i], m.binop(tokXOR, tU8, src[i], k, tU8))
		}
		m.store(n.pos, pos+int64(len(src)))
		return nil
	}
	panic(unsupported("method %s of %s", method, n.kind))
}

func (m *M) bytesKey(b []Value) string {
	var sb strings.Builder
	for _, v := range b {
		sb.WriteString(m.term(v).String())
		sb.WriteByte('|')
	}
	if sb.Len() < 64 {
		return sb.String()
	}
	return fmt.Sprintf("%x", sha256.Sum256([]byte(sb.String())))[:24]
}

func (m *M) hashBytes(name string, in []Value, n int) []Value {
	k := m.bytesKey(in)
	out := make([]Value, n)
	for i := range out {
		out[i] = m.u.variable(fmt.Sprintf("%s(%s)[%d]", name, k, i), b0, bi(255))
	}
	return out
}

func bitLen(m *M, a []Value) Value {
	x, ok := a[0].(uint64)
	if ok {
		return int64(bits.Len64(x))
	}
	t := m.term(a[0])
	_, hi := m.u.Range(t)
	n := hi.BitLen()
	for n > 0 && !m.decide(m.u.le(m.u.konst(pow2(uint(n-1))), t)) {
		n--
	}
	return int64(n)
}

func (m *M) bigText(v Value, base int) Value {
	if p := v.(Ptr); p.p == nil {
		return "<nil>"
	}
	if c, ok := m.bigOf(v).isConst(); ok {
		return c.Text(base)
	}
	panic(unsupported("text of a symbolic integer"))
}

func (m *M) modInverse(x *Term, mod *big.Int) *Term {
	// y with x*y = 1 mod m (m prime, x not 0 mod m)
	u := m.u
	r := u.mod(x, mod)
	m.require(u.not(u.eq0(r)), "ModInverse of zero")
	key := "inv:" + r.String() + ":" + mod.String()
	a, ok := u.byKey[key]
	if !ok {
		a = u.newAtom(&Atom{kind: 'v', name: key, lo: b1, hi: new(big.Int).Sub(mod, b1)}, key)
	}
	y := u.atomTerm(a)
	m.assume(u.eq(u.mod(u.mul(r, y), mod), u.kint(1)))
	return y
}

func (m *M) errType() types.Type {
	p := m.prog.ImportedPackage("errors")
	if p == nil {
		panic(unsupported("package errors"))
	}
	return types.NewPointer(p.Type("errorString").Type())
}

// named is a variable equal to a term known to be in [0, n).
func (m *M) named(t *Term, n *big.Int) *Term {
	if lo, hi := m.u.Range(t); lo.Sign() >= 0 && hi.Cmp(n) < 0 {
		return t
	}
	x := m.u.variable("="+t.String(), b0, new(big.Int).Sub(n, b1))
	m.assume(m.u.eq(x, t))
	return x
}

func (m *M) constOf(v Value) *big.Int {
	c, ok := m.term(v).isConst()
	if !ok {
		panic(unsupported("a symbolic bound"))
	}
	return c
}

func (m *M) fresh(name string, lo, hi *big.Int) *Term {
	k := m.vars[name]
	m.vars[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return m.u.variable(name, lo, hi)
}

var maxWord = new(big.Int).SetUint64(^uint64(0))

// wordIn records bounds that hold because of how words were computed.
func (m *M) wordIn(t *Term, lo, hi *big.Int) {
	for _, f := range []*F{m.u.le(m.u.konst(lo), t), m.u.le(t, m.u.konst(hi))} {
		if !f.isTrue() && f.op == 'l' {
			m.facts = append(m.facts, f)
		}
	}
}
