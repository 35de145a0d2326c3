package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *M) set(fr *frame, v ssa.Value, x Value) { fr.env[fr.slot[v]] = x }

func (m *M) exec(fr *frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
	case *ssa.Alloc:
		z := zero(deref(x.Type()))
		m.set(fr, x, Ptr{p: &z})
		if m.spec > 0 {
			m.births++
			m.birth(&z, 64)
		}
	case *ssa.BinOp:
		m.set(fr, x, m.binop(x.Op, x.X.Type(), m.get(fr, x.X), m.get(fr, x.Y), x.Y.Type()))
	case *ssa.UnOp:
		m.set(fr, x, m.unop(fr, x))
	case *ssa.Call:
		m.set(fr, x, m.unwrapped(x, m.doCall(fr, &x.Call)))
	case *ssa.ChangeInterface:
		m.set(fr, x, m.get(fr, x.X))
	case *ssa.ChangeType:
		m.set(fr, x, m.get(fr, x.X))
	case *ssa.Convert:
		m.set(fr, x, m.convert(x.X.Type(), x.Type(), m.get(fr, x.X)))
	case *ssa.MultiConvert:
		m.set(fr, x, m.convert(x.X.Type(), x.Type(), m.get(fr, x.X)))
	case *ssa.MakeInterface:
		m.set(fr, x, Iface{x.X.Type(), clone(m.get(fr, x.X))})
	case *ssa.Extract:
		m.set(fr, x, m.get(fr, x.Tuple).(Tuple)[x.Index])
	case *ssa.Slice:
		m.set(fr, x, m.slice(fr, x))
	case *ssa.Store:
		p := m.get(fr, x.Addr).(Ptr)
		if p.p == nil {
			m.panicf("nil pointer dereference")
		}
		v := m.get(fr, x.Val)
		if t, ok := v.(*Term); ok && len(t.ms) > 16 {
			v = m.nameWord(x, t)
		}
		m.store(p.p, clone(v))
	case *ssa.FieldAddr:
		p := m.get(fr, x.X).(Ptr)
		if p.p == nil {
			m.panicf("nil pointer dereference")
		}
		s, ok := (*p.p).(Struct)
		if !ok {
			panic(unsupported("field of %T at %s", *p.p, m.where()))
		}
		m.set(fr, x, Ptr{p: &s[x.Field]})
	case *ssa.Field:
		m.set(fr, x, clone(m.get(fr, x.X).(Struct)[x.Field]))
	case *ssa.IndexAddr:
		m.set(fr, x, m.indexAddr(fr, x))
	case *ssa.Index:
		m.set(fr, x, m.index(fr, x))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = m.get(fr, b)
		}
		m.set(fr, x, &Closure{x.Fn.(*ssa.Function), env})
	case *ssa.MakeSlice:
		n := m.concInt(m.get(fr, x.Len))
		c := m.concInt(m.get(fr, x.Cap))
		if n < 0 || c < n {
			m.panicf("makeslice: len out of range")
		}
		if c > 1<<24 {
			panic(unsupported("a slice of %d elements", c))
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		m.set(fr, x, Slice{m.makeArr(el, int(c))[:n]})
	case *ssa.MakeMap:
		m.noSpec("map")
		m.set(fr, x, &MapV{m: map[string]*mapEnt{}})
	case *ssa.MapUpdate:
		m.noSpec("map")
		mp := m.get(fr, x.Map).(*MapV)
		k := m.get(fr, x.Key)
		ks := mapKey(k)
		if e, ok := mp.m[ks]; ok {
			e.v = clone(m.get(fr, x.Value))
		} else {
			mp.m[ks] = &mapEnt{k, clone(m.get(fr, x.Value))}
			mp.order = append(mp.order, ks)
		}
	case *ssa.Lookup:
		m.set(fr, x, m.lookup(fr, x))
	case *ssa.TypeAssert:
		m.set(fr, x, m.typeAssert(x, m.get(fr, x.X).(Iface)))
	case *ssa.Range:
		m.set(fr, x, m.rangeOver(m.get(fr, x.X)))
	case *ssa.Next:
		m.set(fr, x, m.next(m.get(fr, x.Iter).(*iter), x))
	case *ssa.Defer:
		m.noSpec("defer")
		fr.defers = append(fr.defers, x)
		fr.dargs = append(fr.dargs, m.callArgs(fr, &x.Call))
	case *ssa.RunDefers:
		m.runDefers(fr)
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, x.X).(Slice)
		n := deref(x.Type()).Underlying().(*types.Array).Len()
		if int64(len(s.arr)) < n {
			m.panicf("slice to array pointer: too short")
		}
		var v Value = Array(s.arr[:n:n])
		m.set(fr, x, Ptr{p: &v})
	default:
		panic(unsupported("instruction %T at %s", in, m.where()))
	}
}

func (m *M) makeArr(el types.Type, n int) []Value {
	a := make([]Value, n)
	if n == 0 {
		return a
	}
	z := zero(el)
	a[0] = z
	for i := 1; i < n; i++ {
		switch z.(type) {
		case Struct, Array:
			a[i] = zero(el)
		default:
			a[i] = z
		}
	}
	return a
}

func mapKey(k Value) string {
	switch x := k.(type) {
	case *Term, *F, *UFloat, *BStr:
		panic(unsupported("symbolic map key"))
	case Ptr:
		return "p" + ptrKey(x)
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return "i" + x.T.String() + ":" + mapKey(x.V)
	case Struct:
		s := "{"
		for _, e := range x {
			s += mapKey(e) + ","
		}
		return s + "}"
	case Array:
		s := "["
		for _, e := range x {
			s += mapKey(e) + ","
		}
		return s + "]"
	case string:
		return "s" + x
	}
	return show(k)
}

func ptrKey(p Ptr) string {
	return sprintf("%p", p.p)
}

func (m *M) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	var r Value
	if it, is := x.AssertedType.Underlying().(*types.Interface); is {
		ok = v.T != nil && types.Implements(v.T, it)
		if ok {
			r = v
		} else {
			r = Iface{}
		}
	} else {
		ok = v.T != nil && types.Identical(v.T, x.AssertedType)
		if ok {
			r = clone(v.V)
		} else {
			r = zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{r, ok}
	}
	if !ok {
		m.panicf("interface conversion: %v is not %v", v.T, x.AssertedType)
	}
	return r
}

func (m *M) unop(fr *frame, x *ssa.UnOp) Value {
	v := m.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported("load from %T at %s", v, m.where()))
		}
		if p.p == nil {
			m.panicf("nil pointer dereference")
		}
		return clone(*p.p)
	case token.NOT:
		if b, ok := v.(bool); ok {
			return !b
		}
		return boolVal(m.u.not(v.(*F)))
	case token.SUB:
		if f, ok := v.(float64); ok {
			return -f
		}
		if f, ok := v.(*UFloat); ok {
			_ = f
			return &UFloat{}
		}
		b := x.Type().Underlying().(*types.Basic)
		return m.wrap(m.u.neg(m.term(v)), b)
	case token.XOR: // ^x = -1-x (signed) or max-x
		b := x.Type().Underlying().(*types.Basic)
		t := m.u.sub(m.u.kint(-1), m.term(v))
		if !isSigned(b) {
			t = m.u.add(t, m.u.konst(pow2(width(b))))
		}
		return m.intVal(t, b)
	}
	panic(unsupported("unary %v", x.Op))
}

func cmpRes(op token.Token, c int) bool {
	switch op {
	case token.EQL:
		return c == 0
	case token.NEQ:
		return c != 0
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	case token.GEQ:
		return c >= 0
	}
	panic("cmp")
}

func (m *M) cmpTerms(op token.Token, a, b *Term) Value {
	u := m.u
	switch op {
	case token.EQL:
		return boolVal(u.eq(a, b))
	case token.NEQ:
		return boolVal(u.not(u.eq(a, b)))
	case token.LSS:
		return boolVal(u.lt(a, b))
	case token.LEQ:
		return boolVal(u.le(a, b))
	case token.GTR:
		return boolVal(u.lt(b, a))
	case token.GEQ:
		return boolVal(u.le(b, a))
	}
	panic("cmp")
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func (m *M) binop(op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			if r, ok := m.concSigned(op, t, x, y); ok {
				return r
			}
		}
		if y, ok := b.(uint64); ok { // shift
			if r, ok := m.concSigned(op, t, x, int64(min(y, 1<<30))); ok {
				return r
			}
		}
	case uint64:
		if y, ok := b.(uint64); ok {
			if r, ok := m.concUnsigned(op, t, x, y); ok {
				return r
			}
		}
		if y, ok := b.(int64); ok && (op == token.SHL || op == token.SHR) {
			if y < 0 {
				m.panicf("negative shift amount")
			}
			if r, ok := m.concUnsigned(op, t, x, uint64(y)); ok {
				return r
			}
		}
	case float64, *UFloat:
		return m.floatOp(op, a, b)
	case string, *BStr:
		return m.stringOp(op, a, b)
	case complex128:
		panic(unsupported("complex"))
	}
	switch a.(type) {
	case int64, uint64, *Term:
		bs, ok := t.Underlying().(*types.Basic)
		if !ok {
			panic(unsupported("integer operation on %v", t))
		}
		return m.intOp(op, bs, m.term(a), m.term(b))
	}
	if op == token.EQL || op == token.NEQ {
		f := m.equal(a, b)
		if op == token.NEQ {
			f = m.u.not(f)
		}
		return boolVal(f)
	}
	if op == token.AND || op == token.OR { // not on booleans in Go
		panic(unsupported("operation %v on %T", op, a))
	}
	panic(unsupported("operation %v on %T at %s", op, a, m.where()))
}

func (m *M) equal(a, b Value) *F {
	switch x := a.(type) {
	case nil:
		return m.u.bool(isNil(b))
	case bool, *F:
		fa, fb := m.formula(a), m.formula(b)
		return m.u.or(m.u.and(fa, fb), m.u.and(m.u.not(fa), m.u.not(fb)))
	case int64, uint64, *Term:
		return m.u.eq(m.term(a), m.term(b))
	case float64, *UFloat:
		return m.formula(m.floatOp(token.EQL, a, b))
	case string, *BStr:
		return m.formula(m.stringOp(token.EQL, a, b))
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return m.u.bool(x.p == y.p)
		}
		return m.u.bool(x.p == nil && isNil(b))
	case Slice:
		return m.u.bool(x.arr == nil && isNil(b))
	case *MapV:
		return m.u.bool(x == nil && isNil(b))
	case *ssa.Function, *Closure:
		return m.u.bool(false)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return m.u.bool(x.T == nil && isNil(b))
		}
		if x.T == nil || y.T == nil {
			return m.u.bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return m.u.fls()
		}
		return m.equal(x.V, y.V)
	case Struct:
		y := b.(Struct)
		fs := []*F{}
		for i := range x {
			fs = append(fs, m.equal(x[i], y[i]))
		}
		return m.u.and(fs...)
	case Array:
		y := b.(Array)
		fs := []*F{}
		for i := range x {
			fs = append(fs, m.equal(x[i], y[i]))
		}
		return m.u.and(fs...)
	case BigV:
		return m.u.eq(x.t, b.(BigV).t)
	}
	panic(unsupported("comparison of %T", a))
}

func isNil(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case Ptr:
		return x.p == nil
	case Slice:
		return x.arr == nil
	case *MapV:
		return x == nil
	case Iface:
		return x.T == nil
	}
	return false
}

func truncS(t types.Type, v int64) int64 {
	switch width(t.Underlying().(*types.Basic)) {
	case 8:
		return int64(int8(v))
	case 16:
		return int64(int16(v))
	case 32:
		return int64(int32(v))
	}
	return v
}
func truncU(t types.Type, v uint64) uint64 {
	switch width(t.Underlying().(*types.Basic)) {
	case 8:
		return uint64(uint8(v))
	case 16:
		return uint64(uint16(v))
	case 32:
		return uint64(uint32(v))
	}
	return v
}

func (m *M) concSigned(op token.Token, t types.Type, x, y int64) (Value, bool) {
	switch op {
	case token.ADD:
		return truncS(t, x+y), true
	case token.SUB:
		return truncS(t, x-y), true
	case token.MUL:
		return truncS(t, x*y), true
	case token.QUO, token.REM:
		if y == 0 {
			m.panicf("integer divide by zero")
		}
		if y == -1 {
			if op == token.REM {
				return int64(0), true
			}
			return truncS(t, -x), true
		}
		if op == token.QUO {
			return x / y, true
		}
		return x % y, true
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return x ^ y, true
	case token.AND_NOT:
		return x &^ y, true
	case token.SHL:
		if y < 0 {
			m.panicf("negative shift amount")
		}
		if y >= 64 {
			return int64(0), true
		}
		return truncS(t, x<<uint(y)), true
	case token.SHR:
		if y < 0 {
			m.panicf("negative shift amount")
		}
		if y >= 64 {
			y = 63
		}
		return x >> uint(y), true
	}
	if isCmp(op) {
		c := 0
		if x < y {
			c = -1
		} else if x > y {
			c = 1
		}
		return cmpRes(op, c), true
	}
	return nil, false
}

func (m *M) concUnsigned(op token.Token, t types.Type, x, y uint64) (Value, bool) {
	switch op {
	case token.ADD:
		return truncU(t, x+y), true
	case token.SUB:
		return truncU(t, x-y), true
	case token.MUL:
		return truncU(t, x*y), true
	case token.QUO, token.REM:
		if y == 0 {
			m.panicf("integer divide by zero")
		}
		if op == token.QUO {
			return x / y, true
		}
		return x % y, true
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return x ^ y, true
	case token.AND_NOT:
		return x &^ y, true
	case token.SHL:
		if y >= 64 {
			return uint64(0), true
		}
		return truncU(t, x<<y), true
	case token.SHR:
		if y >= 64 {
			return uint64(0), true
		}
		return x >> y, true
	}
	if isCmp(op) {
		c := 0
		if x < y {
			c = -1
		} else if x > y {
			c = 1
		}
		return cmpRes(op, c), true
	}
	return nil, false
}

// lowMask: c = 2^k - 1
func lowMask(c *big.Int) (uint, bool) {
	if c.Sign() <= 0 {
		return 0, false
	}
	n := new(big.Int).Add(c, b1)
	k := uint(n.BitLen() - 1)
	return k, pow2(k).Cmp(n) == 0
}

// trailing: 2^k divides every coefficient
func trailing(t *Term) uint {
	k := uint(1 << 20)
	for _, x := range t.ms {
		k = min(k, x.c.TrailingZeroBits())
	}
	return k
}

func (m *M) bitsOf(t *Term, w uint) []*Term {
	out := make([]*Term, w)
	for i := uint(0); i < w; i++ {
		out[i] = m.u.mod(m.u.floor(t, pow2(i)), b2)
	}
	return out
}

func (m *M) intOp(op token.Token, bs *types.Basic, a, b *Term) Value {
	u := m.u
	if isCmp(op) {
		return m.cmpTerms(op, a, b)
	}
	w := width(bs)
	switch op {
	case token.ADD:
		return m.wrap(u.add(a, b), bs)
	case token.SUB:
		return m.wrap(u.sub(a, b), bs)
	case token.MUL:
		return m.wrap(u.mul(a, b), bs)
	case token.QUO, token.REM:
		m.require(u.not(u.eq0(b)), "integer divide by zero")
		q, r := m.truncDiv(a, b)
		if op == token.QUO {
			return m.wrap(q, bs)
		}
		return m.wrap(r, bs)
	case token.SHL:
		k := m.concShift(b, w)
		if k >= w {
			return m.intVal(&Term{}, bs)
		}
		return m.wrap(u.scale(a, pow2(k)), bs)
	case token.SHR:
		k := m.concShift(b, w)
		return m.intVal(u.floor(a, pow2(k)), bs)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return m.bitop(op, bs, a, b)
	}
	panic(unsupported("operation %v", op))
}

func (m *M) concShift(b *Term, w uint) uint {
	lo, _ := m.u.Range(b)
	if lo.Sign() < 0 {
		m.require(m.u.le(&Term{}, b), "negative shift amount")
	}
	// values at or above the width are all alike
	if c, ok := b.isConst(); ok {
		if !c.IsUint64() || c.Uint64() > 1<<20 {
			return 1 << 20
		}
		return uint(c.Uint64())
	}
	return uint(m.concretize(b, 4096).Uint64())
}

// truncDiv is Go's division; a remainder takes the sign of the dividend.
func (m *M) truncDiv(a, b *Term) (q, r *Term) {
	u := m.u
	c, ok := b.isConst()
	if !ok {
		if l, _ := u.Range(a); l.Sign() < 0 {
			panic(unsupported("division of a number that may be negative by a symbolic one"))
		}
		return m.symDiv(a, b)
	}
	lo, hi := u.Range(a)
	neg := c.Sign() < 0
	c = new(big.Int).Abs(c)
	switch {
	case lo.Sign() >= 0:
		q = u.floor(a, c)
	case hi.Sign() <= 0:
		q = u.neg(u.floor(u.neg(a), c))
	default:
		q = u.ite(u.le(&Term{}, a), u.floor(a, c), u.neg(u.floor(u.neg(a), c)))
	}
	r = u.sub(a, u.scale(q, c))
	if lo.Sign() < 0 && hi.Sign() > 0 {
		// keep the bound of the remainder visible
		pos := u.sub(a, u.scale(u.floor(a, c), c))
		ng := u.neg(u.sub(u.neg(a), u.scale(u.floor(u.neg(a), c), c)))
		r = u.ite(u.le(&Term{}, a), pos, ng)
	}
	if neg {
		q = u.neg(q)
	}
	return
}

// symDiv: division by a symbolic positive number, as a constrained pair.
func (m *M) symDiv(a, b *Term) (q, r *Term) {
	u := m.u
	alo, ahi := u.Range(a)
	blo, bhi := u.Range(b)
	if blo.Sign() < 0 {
		panic(unsupported("division by a symbolic number that may be negative"))
	}
	blo = maxB(blo, b1)
	// each side of a choice
	for _, x := range a.ms {
		for _, at := range x.atoms {
			if c := u.atoms[at]; c.kind == 'i' && (len(x.atoms) > 1 || u.rests(c.a) || u.rests(c.b)) {
				aq, ar := m.symDiv(u.put(a, at, c.a), b)
				bq, br := m.symDiv(u.put(a, at, c.b), b)
				return u.ite(c.cond, aq, bq), u.ite(c.cond, ar, br)
			}
		}
	}
	for _, x := range a.ms {
		if len(x.atoms) == 1 && u.atoms[x.atoms[0]].of != nil {
			c := u.atoms[x.atoms[0]]
			if r := u.add(u.sub(a, &Term{ms: []mono{x}}), u.scale(c.num, x.c)); len(r.ms) < len(a.ms) {
				return m.symDiv(r, b)
			}
		}
	}
	// what is left of a quotient
	for _, x := range a.ms {
		for _, at := range x.atoms {
			if c := u.atoms[at]; c.kind == 'd' && len(x.atoms) > 1 && x.c.Cmp(big.NewInt(-1)) == 0 && c.rem != nil {
				if r := u.add(u.sub(a, c.num), c.rem); len(r.ms) < len(a.ms) {
					return m.symDiv(r, b)
				}
			}
		}
	}
	// a multiple of the divisor and a rest below it
	if len(b.ms) == 1 && len(b.ms[0].atoms) > 0 {
		quo, rest := map[string]*mono{}, map[string]*mono{}
		for i := range a.ms {
			x := a.ms[i]
			as := without(x.atoms, b.ms[0].atoms)
			k := new(big.Int)
			if as != nil {
				k = floorDiv(x.c, b.ms[0].c)
			}
			if k.Sign() == 0 {
				rest[x.key] = &x
				continue
			}
			quo[monoKey(as)] = &mono{monoKey(as), as, k}
			if c := new(big.Int).Sub(x.c, new(big.Int).Mul(k, b.ms[0].c)); c.Sign() != 0 {
				rest[x.key] = &mono{x.key, x.atoms, c}
			}
		}
		if len(quo) > 0 {
			rest := fromMap(rest)
			in := u.and(u.le(&Term{}, rest), u.lt(rest, b))
			ok := m.quick(in) == 1
			if !ok && m.quick(in) != 0 {
				r, _ := m.s.Check(m.conds(), u.not(in), 2000, false)
				ok = r == "unsat"
			}
			if ok {
				return fromMap(quo), rest
			}
			if len(b.ms[0].atoms) > 1 || b.ms[0].c.Cmp(b1) != 0 {
				q, r := m.symDiv(rest, b)
				return u.add(q, fromMap(quo)), r
			}
		}
	}
	key := "d:" + a.String() + ":" + b.String()
	qlo, qhi := floorDiv(alo, bhi), floorDiv(ahi, blo)
	if alo.Sign() < 0 {
		qlo = floorDiv(alo, blo)
	}
	if ahi.Sign() < 0 {
		qhi = floorDiv(ahi, bhi)
	}
	rhi := new(big.Int).Sub(bhi, b1)
	if alo.Sign() >= 0 {
		rhi = minB(ahi, rhi)
	}
	qa := u.newAtom(&Atom{kind: 'd', lo: qlo, hi: qhi}, key)
	q = u.atomTerm(qa)
	if qa.num == nil {
		qa.num = u.sub(a, u.mul(q, b)) // the remainder
		qa.b = u.sub(qa.num, b)
	}
	// the remainder as an atom of its own for a tight range
	ra := u.newAtom(&Atom{kind: 'q', num: qa.num, lo: b0, hi: rhi}, "q:"+key)
	qa.rem, ra.of = u.atomTerm(ra), qa
	return q, qa.rem
}

// rests: t has the remainder of a symbolic division.
func (u *U) rests(t *Term) bool {
	for _, x := range t.ms {
		if len(x.atoms) == 1 && u.atoms[x.atoms[0]].of != nil {
			return true
		}
	}
	return false
}

// put replaces an atom.
func (u *U) put(t *Term, at int, by *Term) *Term {
	var out []*Term
	for _, x := range t.ms {
		as := without(x.atoms, []int{at})
		one := &Term{ms: []mono{x}}
		if as != nil {
			one = u.put(u.mul(&Term{ms: []mono{{monoKey(as), as, x.c}}}, by), at, by)
		}
		out = append(out, one)
	}
	return u.sum(out)
}

// without takes the atoms of b out of a; nil if they are not all there.
func without(a, b []int) []int {
	out := append([]int{}, a...)
	for _, y := range b {
		k := -1
		for i, x := range out {
			if x == y {
				k = i
			}
		}
		if k < 0 {
			return nil
		}
		out = append(out[:k], out[k+1:]...)
	}
	return out
}

func (m *M) bitop(op token.Token, bs *types.Basic, a, b *Term) Value {
	u := m.u
	w := width(bs)
	if isSigned(bs) {
		alo, ahi := u.Range(a)
		blo, bhi := u.Range(b)
		// a mask of the sign: all bits or none
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			lo, hi := alo, ahi
			if p[1] == b {
				lo, hi = blo, bhi
			}
			if lo.Cmp(big.NewInt(-1)) != 0 || hi.Sign() != 0 {
				continue
			}
			switch op {
			case token.XOR:
				return u.ite(u.eq0(p[1]), p[0], u.sub(u.kint(-1), p[0]))
			case token.AND:
				return u.ite(u.eq0(p[1]), &Term{}, p[0])
			case token.OR:
				return u.ite(u.eq0(p[1]), p[0], u.kint(-1))
			}
		}
		if alo.Sign() < 0 || blo.Sign() < 0 {
			// work on the unsigned image
			x := m.bitop2(op, w, u.mod(a, pow2(w)), u.mod(b, pow2(w)))
			return m.wrap(x, bs)
		}
	}
	return m.intVal(m.bitop2(op, w, a, b), bs)
}

func (m *M) bitop2(op token.Token, w uint, a, b *Term) *Term {
	u := m.u
	if op == token.XOR {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if at := u.single(p[0]); at != nil && at.xa != nil {
				switch p[1].String() {
				case at.xa.String():
					return at.xb
				case at.xb.String():
					return at.xa
				}
			}
		}
	}
	// choices
	for i, p := range [][2]*Term{{a, b}, {b, a}} {
		at := u.single(p[0])
		if at == nil || at.kind != 'i' {
			continue
		}
		_, okx := at.a.isConst()
		_, oky := at.b.isConst()
		if !okx && !oky {
			continue
		}
		x, y := at.a, at.b
		if i == 0 {
			return u.ite(at.cond, m.bitop2(op, w, x, b), m.bitop2(op, w, y, b))
		}
		return u.ite(at.cond, m.bitop2(op, w, a, x), m.bitop2(op, w, a, y))
	}
	// all bits or none
	full := new(big.Int).Sub(pow2(w), b1)
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		at := u.single(&Term{})
		if len(p[1].ms) == 1 && len(p[1].ms[0].atoms) == 1 && p[1].ms[0].c.CmpAbs(full) == 0 {
			at = u.atoms[p[1].ms[0].atoms[0]]
		}
		if at == nil || new(big.Int).Sub(at.hi, at.lo).Cmp(b1) != 0 {
			continue
		}
		if lo, hi := u.Range(p[1]); lo.Sign() != 0 || hi.Cmp(full) != 0 {
			continue
		}
		switch op {
		case token.XOR:
			return u.ite(u.eq0(p[1]), p[0], u.sub(u.konst(full), p[0]))
		case token.AND:
			return u.ite(u.eq0(p[1]), &Term{}, p[0])
		case token.OR:
			return u.ite(u.eq0(p[1]), p[0], u.konst(full))
		}
	}
	_, oka := a.isConst()
	_, okb := b.isConst()
	if op == token.OR && !oka && !okb {
		_, ah := u.Range(a)
		_, bh := u.Range(b)
		if ah.Cmp(b1) == 0 && bh.Cmp(b1) == 0 {
			return u.ite(u.and(u.eq0(a), u.eq0(b)), &Term{}, u.kint(1))
		}
	}
	if (op == token.OR || op == token.XOR) && !m.disjoint(w, a, b) && a.String() != b.String() {
		// kept whole; the bits are spelled out where a query needs them
		_, ah := u.Range(a)
		_, bh := u.Range(b)
		if n := uint(max(ah.BitLen(), bh.BitLen())); n > 16 {
			k, x, y := byte('o'), a, b
			if op == token.XOR {
				k = 'x'
			}
			if x.String() > y.String() {
				x, y = y, x
			}
			at := u.newAtom(&Atom{kind: 'q', lo: b0, hi: new(big.Int).Sub(pow2(n), b1), xa: x, xb: y, op: k}, "bits"+string(k)+":"+x.String()+":"+y.String())
			if at.num == nil && at.lazy == nil {
				at.lazy = func() *Term { return m.bitop3(op, w, x, y) }
			}
			return u.atomTerm(at)
		}
	}
	r := m.bitop3(op, w, a, b)
	if _, ok := r.isConst(); ok {
		return r
	}
	// a name with the tight range
	_, ah := u.Range(a)
	_, bh := u.Range(b)
	hi := ah
	switch op {
	case token.AND:
		hi = minB(ah, bh)
	case token.OR, token.XOR:
		hi = new(big.Int).Sub(pow2(uint(max(ah.BitLen(), bh.BitLen()))), b1)
	}
	lo, rh := u.Range(r)
	if lo.Sign() >= 0 && rh.Cmp(hi) <= 0 {
		return r
	}
	at := u.newAtom(&Atom{kind: 'q', num: r, lo: b0, hi: hi}, "bits:"+r.String())
	if op == token.XOR {
		at.xa, at.xb, at.op = a, b, 'x'
	}
	return u.atomTerm(at)
}

// disjoint: one operand has its bits above the other's, or is a constant with no or all bits.
func (m *M) disjoint(w uint, a, b *Term) bool {
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		k := trailing(p[0])
		lo, hi := m.u.Range(p[1])
		if k > 0 && lo.Sign() >= 0 && hi.Cmp(pow2(min(k, w))) < 0 {
			return true
		}
		if c, ok := p[0].isConst(); ok && (c.Sign() == 0 || c.Cmp(new(big.Int).Sub(pow2(w), b1)) == 0) {
			return true
		}
	}
	return false
}

// shiftBits: the quotient of a bitwise combination by a power of two.
func (m *M) shiftBits(a *Atom, p *big.Int) *Term {
	op := token.OR
	if a.op == 'x' {
		op = token.XOR
	}
	return m.bitop2(op, 64, m.u.floor(a.xa, p), m.u.floor(a.xb, p))
}

func (m *M) bitop3(op token.Token, w uint, a, b *Term) *Term {
	u := m.u
	if _, ok := a.isConst(); ok && op != token.AND_NOT {
		a, b = b, a
	}
	if a.String() == b.String() {
		switch op {
		case token.AND, token.OR:
			return a
		}
		return &Term{}
	}
	full := new(big.Int).Sub(pow2(w), b1)
	if c, ok := b.isConst(); ok {
		if op == token.AND_NOT {
			op, c = token.AND, new(big.Int).AndNot(full, c)
		}
		switch op {
		case token.AND:
			// runs of ones in the mask
			var sum []*Term
			for i := uint(0); i < w; {
				if c.Bit(int(i)) == 0 {
					i++
					continue
				}
				j := i
				for j < w && c.Bit(int(j)) == 1 {
					j++
				}
				sum = append(sum, u.scale(u.mod(u.floor(a, pow2(i)), pow2(j-i)), pow2(i)))
				i = j
			}
			return u.sum(sum)
		case token.OR, token.XOR:
			if c.Sign() == 0 {
				return a
			}
			if c.Cmp(full) == 0 {
				if op == token.OR {
					return u.konst(full)
				}
				return u.sub(u.konst(full), a)
			}
			and := m.bitop2(token.AND, w, a, u.konst(c))
			if op == token.OR {
				return u.sub(u.add(a, u.konst(c)), and)
			}
			return u.sub(u.add(a, u.konst(c)), u.scale(and, b2))
		}
	}
	// disjoint bits
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		k := trailing(p[0])
		_, hi := u.Range(p[1])
		lo, _ := u.Range(p[1])
		if k > 0 && lo.Sign() >= 0 && hi.Cmp(pow2(min(k, w))) < 0 {
			switch op {
			case token.OR, token.XOR:
				return u.add(a, b)
			case token.AND:
				return &Term{}
			}
		}
	}
	_, ah := u.Range(a)
	_, bh := u.Range(b)
	n := uint(max(ah.BitLen(), bh.BitLen()))
	if op == token.AND {
		n = uint(min(ah.BitLen(), bh.BitLen()))
	}
	ba, bb := m.bitsOf(a, n), m.bitsOf(b, n)
	var sum []*Term
	for i := uint(0); i < n; i++ {
		// and as a floor of the half sum
		and := u.floor(u.add(ba[i], bb[i]), b2)
		var x *Term
		switch op {
		case token.AND:
			x = and
		case token.OR:
			x = u.sub(u.add(ba[i], bb[i]), and)
		case token.XOR:
			x = u.sub(u.add(ba[i], bb[i]), u.scale(and, b2))
		case token.AND_NOT:
			x = u.sub(ba[i], and)
		}
		sum = append(sum, u.scale(x, pow2(i)))
	}
	r := u.sum(sum)
	if op == token.AND_NOT && uint(ah.BitLen()) > n {
		panic("and-not")
	}
	return r
}

func (m *M) floatOp(op token.Token, a, b Value) Value {
	x, okx := a.(float64)
	y, oky := b.(float64)
	if okx && oky {
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	if !isCmp(op) {
		return &UFloat{}
	}
	// the conversion of an integer against a constant
	if f, ok := a.(*UFloat); ok && f.t != nil && oky {
		return boolVal(m.floatCmp(op, f.t, y))
	}
	if f, ok := b.(*UFloat); ok && f.t != nil && okx {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		return boolVal(m.floatCmp(flip[op], f.t, x))
	}
	panic(unsupported("comparison of unknown floating-point numbers at %s", m.where()))
}

// floatCmp: float64(t) op y, rounding to nearest even being monotone.
func (m *M) floatCmp(op token.Token, t *Term, y float64) *F {
	conv := func(v *big.Int) float64 {
		f, _ := new(big.Float).SetInt(v).Float64()
		return f
	}
	// least integer whose conversion satisfies pred (monotone in v)
	least := func(pred func(float64) bool) *big.Int {
		lo, hi := m.u.Range(t)
		lo, hi = new(big.Int).Sub(lo, b1), new(big.Int).Add(hi, b1)
		// pred(lo) false assumed, pred(hi) true assumed
		for new(big.Int).Sub(hi, lo).Cmp(b1) > 0 {
			mid := new(big.Int).Add(lo, hi)
			mid = floorDiv(mid, b2)
			if pred(conv(mid)) {
				hi = mid
			} else {
				lo = mid
			}
		}
		return hi
	}
	ge := least(func(f float64) bool { return f >= y }) // t >= ge  <=> float(t) >= y
	gt := least(func(f float64) bool { return f > y })
	if math.IsNaN(y) {
		return m.u.bool(op == token.NEQ)
	}
	tge := m.u.le(m.u.konst(ge), t)
	tgt := m.u.le(m.u.konst(gt), t)
	switch op {
	case token.LSS:
		return m.u.not(tge)
	case token.GEQ:
		return tge
	case token.LEQ:
		return m.u.not(tgt)
	case token.GTR:
		return tgt
	case token.EQL:
		return m.u.and(tge, m.u.not(tgt))
	case token.NEQ:
		return m.u.not(m.u.and(tge, m.u.not(tgt)))
	}
	panic("cmp")
}

func (m *M) stringOp(op token.Token, a, b Value) Value {
	x, okx := a.(string)
	y, oky := b.(string)
	if okx && oky {
		switch {
		case op == token.ADD:
			return x + y
		case isCmp(op):
			c := 0
			if x < y {
				c = -1
			} else if x > y {
				c = 1
			}
			return cmpRes(op, c)
		}
	}
	bx, by := strBytes(a), strBytes(b)
	switch op {
	case token.ADD:
		return &BStr{append(append([]Value{}, bx...), by...)}
	case token.EQL, token.NEQ:
		if len(bx) != len(by) {
			return op == token.NEQ
		}
		fs := []*F{}
		for i := range bx {
			fs = append(fs, m.equal(bx[i], by[i]))
		}
		f := m.u.and(fs...)
		if op == token.NEQ {
			f = m.u.not(f)
		}
		return boolVal(f)
	}
	panic(unsupported("operation %v on symbolic strings", op))
}

func strBytes(v Value) []Value {
	switch x := v.(type) {
	case string:
		o := make([]Value, len(x))
		for i := range o {
			o[i] = uint64(x[i])
		}
		return o
	case *BStr:
		return x.b
	}
	panic(unsupported("not a string: %T", v))
}

func mkString(b []Value) Value {
	o := make([]byte, len(b))
	for i := range b {
		c, ok := b[i].(uint64)
		if !ok {
			return &BStr{append([]Value{}, b...)}
		}
		o[i] = byte(c)
	}
	return string(o)
}

func (m *M) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return v
	}
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && fb.Kind() == types.UnsafePointer:
		// unsafe.Pointer -> *T
		p, ok := v.(Ptr)
		if pt, is := tu.(*types.Pointer); is && ok {
			return m.unsafeCast(p, pt.Elem())
		}
		panic(unsupported("conversion of unsafe.Pointer to %v", to))
	case tok && tb.Kind() == types.UnsafePointer:
		if p, ok := v.(Ptr); ok {
			return p
		}
		panic(unsupported("conversion of %v to unsafe.Pointer", from))
	case fok && tok:
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			switch x := v.(type) {
			case int64:
				if isSigned(tb) {
					return truncS(tb, x)
				}
				return truncU(tb, uint64(x))
			case uint64:
				if isSigned(tb) {
					return truncS(tb, int64(x))
				}
				return truncU(tb, x)
			}
			return m.wrap(m.term(v), tb)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			switch x := v.(type) {
			case int64:
				return float64(x)
			case uint64:
				return float64(x)
			}
			if tb.Kind() == types.Float32 {
				return &UFloat{}
			}
			return &UFloat{m.term(v)}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if f, ok := v.(float64); ok && tb.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return v
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			f, ok := v.(float64)
			if !ok {
				panic(unsupported("conversion of an unknown floating-point number to an integer at %s", m.where()))
			}
			if isSigned(tb) {
				return truncS(tb, int64(f))
			}
			return truncU(tb, uint64(f))
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return string(rune(m.concInt(v)))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		}
	case fok && fb.Info()&types.IsString != 0:
		if s, ok := tu.(*types.Slice); ok {
			if e, ok := s.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				return Slice{append([]Value{}, strBytes(v)...)}
			}
			if str, ok := v.(string); ok {
				var o []Value
				for _, r := range str {
					o = append(o, int64(r))
				}
				return Slice{o}
			}
		}
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := v.(Slice); ok {
			e := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if e.Kind() == types.Uint8 {
				return mkString(s.arr)
			}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	panic(unsupported("conversion %v to %v", from, to))
}

// unsafeCast reinterprets a pointer to an array element as a pointer to an array.
func (m *M) unsafeCast(p Ptr, el types.Type) Value {
	if p.p == nil {
		return Ptr{}
	}
	if at, ok := el.Underlying().(*types.Array); ok {
		n := int(at.Len())
		if arr, is := (*p.p).(Array); is {
			if len(arr) == n {
				return p
			}
			if len(arr) > n {
				var v Value = Array(arr[:n:n])
				return Ptr{p: &v}
			}
		}
		if p.rest != nil && cap(p.rest) >= n {
			r := p.rest[:n:n]
			var v Value = Array(r)
			return Ptr{p: &v, rest: nil}
		}
		panic(unsupported("unsafe cast to %v at %s", el, m.where()))
	}
	if arr, is := (*p.p).(Array); is && len(arr) > 0 {
		switch arr[0].(type) {
		case int64, uint64, *Term:
			return Ptr{p: &arr[0], rest: arr}
		}
	}
	return p
}

func (m *M) slice(fr *frame, x *ssa.Slice) Value {
	v := m.get(fr, x.X)
	idx := func(e ssa.Value, def int) int {
		if e == nil {
			return def
		}
		return int(m.concInt(m.get(fr, e)))
	}
	var arr []Value
	switch y := v.(type) {
	case Slice:
		arr = y.arr
	case Ptr:
		if y.p == nil {
			m.panicf("nil pointer dereference")
		}
		arr = []Value((*y.p).(Array))
	case string, *BStr:
		b := strBytes(v)
		lo := idx(x.Low, 0)
		hi := idx(x.High, len(b))
		if lo < 0 || hi < lo || hi > len(b) {
			m.panicf("slice bounds out of range [%d:%d]", lo, hi)
		}
		return mkString(b[lo:hi])
	default:
		panic(unsupported("slicing %T", v))
	}
	lo := idx(x.Low, 0)
	hi := idx(x.High, len(arr))
	mx := idx(x.Max, cap(arr))
	if lo < 0 || hi < lo || mx < hi || mx > cap(arr) {
		m.panicf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(arr))
	}
	if arr == nil {
		return Slice{}
	}
	return Slice{arr[lo:hi:mx]}
}

func (m *M) elems(v Value) []Value {
	switch y := v.(type) {
	case Slice:
		return y.arr
	case Array:
		return y
	case Ptr:
		if y.p == nil {
			m.panicf("nil pointer dereference")
		}
		return (*y.p).(Array)
	case string, *BStr:
		return strBytes(v)
	}
	panic(unsupported("indexing %T at %s", v, m.where()))
}

func (m *M) indexAddr(fr *frame, x *ssa.IndexAddr) Value {
	arr := m.elems(m.get(fr, x.X))
	iv := m.get(fr, x.Index)
	var i int64
	switch y := iv.(type) {
	case int64:
		i = y
	case uint64:
		i = int64(y)
		if y > math.MaxInt32 {
			i = -1
		}
	default:
		t := m.term(iv)
		m.require(m.u.and(m.u.le(&Term{}, t), m.u.lt(t, m.u.kint(int64(len(arr))))), "index out of range")
		m.noSpec("symbolic index")
		i = m.concretize(m.clamp(t, len(arr)), 4096).Int64()
	}
	if i < 0 || i >= int64(len(arr)) {
		m.panicf("index out of range [%d] with length %d", i, len(arr))
	}
	return Ptr{p: &arr[i], rest: arr[i:]}
}

func (m *M) clamp(t *Term, n int) *Term { return t }

func (m *M) index(fr *frame, x *ssa.Index) Value {
	arr := m.elems(m.get(fr, x.X))
	iv := m.get(fr, x.Index)
	if t, ok := iv.(*Term); ok {
		m.require(m.u.and(m.u.le(&Term{}, t), m.u.lt(t, m.u.kint(int64(len(arr))))), "index out of range")
		r := arr[len(arr)-1]
		for i := len(arr) - 2; i >= 0; i-- {
			r = m.iteVal(m.u.eq(t, m.u.kint(int64(i))), arr[i], r)
		}
		return r
	}
	i := m.concInt(iv)
	if i < 0 || i >= int64(len(arr)) {
		m.panicf("index out of range [%d] with length %d", i, len(arr))
	}
	return clone(arr[i])
}

func (m *M) lookup(fr *frame, x *ssa.Lookup) Value {
	v := m.get(fr, x.X)
	k := m.get(fr, x.Index)
	switch y := v.(type) {
	case string, *BStr:
		b := strBytes(y)
		i := m.concInt(k)
		if i < 0 || i >= int64(len(b)) {
			m.panicf("index out of range [%d] with length %d", i, len(b))
		}
		return b[i]
	case *MapV:
		el := x.X.Type().Underlying().(*types.Map).Elem()
		var r Value
		ok := false
		if y != nil {
			if e, is := y.m[mapKey(k)]; is {
				r, ok = clone(e.v), true
			}
		}
		if !ok {
			r = zero(el)
		}
		if x.CommaOk {
			return Tuple{r, ok}
		}
		return r
	}
	panic(unsupported("lookup in %T", v))
}

type iter struct {
	keys []Value
	vals []Value
	i    int
}

func (m *M) rangeOver(v Value) Value {
	m.noSpec("range over a map or string")
	it := &iter{}
	switch y := v.(type) {
	case string:
		for i := 0; i < len(y); {
			r, n := utf8.DecodeRuneInString(y[i:])
			it.keys = append(it.keys, int64(i))
			it.vals = append(it.vals, int64(r))
			i += n
		}
	case *MapV:
		if y != nil {
			for _, k := range y.order {
				if e, ok := y.m[k]; ok {
					it.keys = append(it.keys, e.k)
					it.vals = append(it.vals, clone(e.v))
				}
			}
		}
	default:
		panic(unsupported("range over %T", v))
	}
	return it
}

func (m *M) next(it *iter, x *ssa.Next) Value {
	m.noSpec("range over a map or string")
	if it.i >= len(it.keys) {
		return Tuple{false, nil, nil}
	}
	it.i++
	return Tuple{true, it.keys[it.i-1], it.vals[it.i-1]}
}

func (m *M) callArgs(fr *frame, c *ssa.CallCommon) []Value {
	var args []Value
	if c.IsInvoke() {
		args = append(args, m.get(fr, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, m.get(fr, a))
	}
	return args
}

// nameWord gives a word that the code stores through a parameter a name, so that questions about what
// follows need not look into it.
func (m *M) nameWord(x *ssa.Store, t *Term) Value {
	a, ok := x.Addr.(*ssa.IndexAddr)
	if !ok {
		return t
	}
	if _, ok := a.X.(*ssa.Parameter); !ok {
		return t
	}
	if b, ok := x.Val.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint64 {
		return t
	}
	if lo, hi := m.u.Range(t); m.spec > 0 && (lo.Sign() < 0 || hi.Cmp(maxWord) > 0) {
		return t
	}
	at := m.u.newAtom(&Atom{kind: 'q', num: t, lo: b0, hi: maxWord, name: "word"}, "word:"+t.String())
	return m.u.atomTerm(at)
}

// unwrapped: a word sum whose carry the code drops is the exact sum where the solver shows
// that the carry is zero.
func (m *M) unwrapped(x *ssa.Call, v Value) Value {
	fn := x.Call.StaticCallee()
	if fn == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != "math/bits" || fn.Name() != "Add64" && fn.Name() != "Sub64" {
		return v
	}
	for _, r := range *x.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 && len(*e.Referrers()) > 0 {
			return v
		}
	}
	t, ok := v.(Tuple)
	if !ok {
		return v
	}
	c := m.term(t[1])
	if k, ok := c.isConst(); ok {
		if m.inUniv && k.Sign() == 0 {
			m.univ[x] = true
		}
		return v
	}
	m.summarize(x.Parent())
	if m.univ[x] {
		// for every argument of the function
	} else if m.inUniv {
		m.univ[x] = m.check(m.u.not(m.u.eq0(c)), 3000) == "unsat"
		debugf("  universally: %v\n", m.univ[x])
		if !m.univ[x] {
			return v
		}
	} else if m.check(m.u.not(m.u.eq0(c)), 3000) != "unsat" {
		debugf("  carry kept at %s\n", m.where())
		return v
	}
	e := m.term(t[0])
	if fn.Name() == "Add64" {
		e = m.u.add(e, m.u.scale(c, pow2(64)))
	} else {
		e = m.u.sub(e, m.u.scale(c, pow2(64)))
	}
	m.wordIn(e, b0, maxWord)
	return Tuple{m.intVal(e, tU64), t[1]}
}

// summarize runs a straight-line function of words on arbitrary words once, to learn which of the
// carries it drops are always zero.
func (m *M) summarize(fn *ssa.Function) {
	if m.univ == nil {
		m.univ = map[*ssa.Call]bool{}
		m.univDone = map[*ssa.Function]bool{}
	}
	if m.inUniv || m.univDone[fn] {
		return
	}
	m.univDone[fn] = true
	debugf("  summary of %s\n", fn)
	if len(fn.Blocks) != 1 || len(fn.Params) == 0 || fn.Recover != nil || fn.Signature.Recv() != nil {
		return
	}
	var args []Value
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint64 {
			return
		}
		args = append(args, m.u.variable("any:"+fn.String()+":"+strconv.Itoa(i), b0, maxWord))
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch y := in.(type) {
		case *ssa.Call:
			f := y.Call.StaticCallee()
			if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "math/bits" {
				return
			}
		case *ssa.Extract, *ssa.BinOp, *ssa.Return, *ssa.DebugRef, *ssa.Convert:
		default:
			return
		}
	}
	pc, facts, spec, specC := m.pc, m.facts, m.spec, m.specC
	known := m.pcKnown
	m.pc, m.facts, m.spec, m.specC, m.pcKnown, m.inUniv = nil, nil, 0, nil, map[int]bool{}, true
	n := len(m.stack)
	defer func() {
		m.pc, m.facts, m.spec, m.specC, m.pcKnown, m.inUniv = pc, facts, spec, specC, known, false
		m.stack = m.stack[:n]
		if e := recover(); e != nil {
			if x, ok := e.(Unsupported); ok && x.what != "time limit" {
				return
			}
			panic(e)
		}
	}()
	fr := &frame{fn: fn, slot: m.slotsOf(fn)}
	fr.env = make([]Value, len(fr.slot))
	for i, p := range fn.Params {
		fr.env[fr.slot[p]] = args[i]
	}
	m.stack = append(m.stack, fr)
	m.run(fr, fn.Blocks[0], nil, nil)
}

func (m *M) doCall(fr *frame, c *ssa.CallCommon) Value {
	return m.invoke(fr, c, m.callArgs(fr, c))
}

func (m *M) invoke(fr *frame, c *ssa.CallCommon, args []Value) Value {
	if c.IsInvoke() {
		rv := args[0].(Iface)
		if rv.T == nil {
			m.panicf("nil interface: method %s called", c.Method.Name())
		}
		if n, ok := rv.V.(*Native); ok {
			return m.nativeCall(n, c.Method.Name(), args[1:])
		}
		fn := m.prog.LookupMethod(rv.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(unsupported("method %s of %v", c.Method.Name(), rv.T))
		}
		return m.call(fn, append([]Value{clone(rv.V)}, args[1:]...), nil)
	}
	return m.callValue(fr, m.get(fr, c.Value), args, c)
}

func (m *M) callValue(fr *frame, f Value, args []Value, c *ssa.CallCommon) Value {
	switch x := f.(type) {
	case *ssa.Function:
		return m.call(x, args, nil)
	case *Closure:
		return m.call(x.Fn, args, x.Env)
	case *ssa.Builtin:
		return m.builtin(fr, x, args, c)
	case nil:
		m.panicf("call of a nil function")
	}
	panic(unsupported("call of %T", f))
}

func (m *M) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return int64(len(x.arr))
		case string:
			return int64(len(x))
		case *BStr:
			return int64(len(x.b))
		case Array:
			return int64(len(x))
		case Ptr:
			return deref(c.Args[0].Type()).Underlying().(*types.Array).Len()
		case *MapV:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.m))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x.arr))
		case Array:
			return int64(len(x))
		case Ptr:
			return deref(c.Args[0].Type()).Underlying().(*types.Array).Len()
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y.arr
		default:
			add = strBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		n := len(s.arr)
		if n+len(add) <= cap(s.arr) {
			r := s.arr[:n+len(add)]
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = clone(add[i])
			}
			for i := range add {
				m.store(&r[n+i], tmp[i])
			}
			return Slice{r}
		}
		nc := max(2*cap(s.arr), n+len(add))
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		r := make([]Value, n+len(add), nc)
		for i, v := range s.arr {
			r[i] = clone(v)
		}
		for i, v := range add {
			r[n+i] = clone(v)
		}
		full := r[:nc]
		for i := n + len(add); i < nc; i++ {
			full[i] = zero(el)
		}
		return Slice{r}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y.arr
		default:
			src = strBytes(y)
		}
		n := min(len(d.arr), len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = clone(src[i])
		}
		for i := range tmp {
			m.store(&d.arr[i], tmp[i])
		}
		return int64(n)
	case "clear":
		switch x := args[0].(type) {
		case Slice:
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.arr {
				m.store(&x.arr[i], zero(el))
			}
		case *MapV:
			m.noSpec("map")
			x.m, x.order = map[string]*mapEnt{}, nil
		}
		return nil
	case "delete":
		m.noSpec("map")
		x := args[0].(*MapV)
		k := mapKey(args[1])
		if x != nil {
			if _, ok := x.m[k]; ok {
				delete(x.m, k)
				for i, s := range x.order {
					if s == k {
						x.order = append(x.order[:i:i], x.order[i+1:]...)
						break
					}
				}
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		for _, a := range args[1:] {
			v := m.binop(op, c.Args[0].Type(), a, r, c.Args[0].Type())
			switch y := v.(type) {
			case bool:
				if y {
					r = a
				}
			case *F:
				r = m.iteVal(y, a, r)
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		m.noSpec("recover")
		for i := len(m.stack) - 2; i >= 0; i-- {
			f := m.stack[i]
			if f.panicv != nil {
				v := f.panicv.v
				f.panicv = nil
				if iv, ok := v.(Iface); ok {
					return iv
				}
				return Iface{types.Typ[types.String], show(v)}
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.p == nil {
			m.panicf("nil pointer dereference")
		}
		return args[0]
	}
	panic(unsupported("builtin %s", b.Name()))
}
