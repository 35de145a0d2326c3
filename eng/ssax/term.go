// Package main is a symbolic executor for Go SSA. Integers are polynomials with integer
// coefficients over bounded integer atoms; an SMT solver (linear and nonlinear integer
// arithmetic) decides branches and assertions.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

var (
	b0 = big.NewInt(0)
	b1 = big.NewInt(1)
	b2 = big.NewInt(2)
)

func bi(x int64) *big.Int { return big.NewInt(x) }
func pow2(k uint) *big.Int {
	return new(big.Int).Lsh(b1, k)
}

// Atom is an indivisible integer.
type Atom struct {
	rem    *Term // of a symbolic quotient
	of     *Atom // the quotient of a remainder
	id     int
	kind   byte // 'v' variable, 'f' floor(num/m), 'i' ite, 's' integer square root of num
	name   string
	lo, hi *big.Int
	num    *Term
	m      *big.Int
	cond   *F
	a, b   *Term
	xa, xb *Term // the operands of an exclusive or (op 'x') or of an or (op 'o')
	op     byte
	lazy   func() *Term // gives num when it is asked for
}

type mono struct {
	key   string
	atoms []int
	c     *big.Int
}

// Term is a polynomial over atoms; the constant has key "". Sorted by key.
type Term struct {
	ms     []mono
	str    string
	lo, hi *big.Int
}

// U is the universe of atoms of one machine.
type U struct {
	atoms  []*Atom
	byKey  map[string]*Atom
	fs     map[string]*F
	nfs    int
	consts map[string]*Term
	rules  map[string]map[int]*Term // modulo a number, an atom is this term
	bal    map[int]*balInfo
	rems   map[int]remInfo
	primes map[string]bool
	plain  bool // equations are taken as they are
	shift  func(a *Atom, m *big.Int) *Term
}

// def fills in the definition of an atom.
func (u *U) def(a *Atom) *Atom {
	if a.num == nil && a.lazy != nil {
		a.num = a.lazy()
		a.lazy = nil
	}
	return a
}

// twoWay tells whether a term is a constant plus a multiple of a choice between constants.
func (u *U) twoWay(t *Term) (c *F, a, b *big.Int) {
	n := len(t.ms)
	if n == 0 || n > 2 || n == 2 && t.ms[0].key != "" {
		return nil, nil, nil
	}
	l := t.ms[n-1]
	if len(l.atoms) != 1 || u.atoms[l.atoms[0]].kind != 'i' {
		return nil, nil, nil
	}
	at := u.atoms[l.atoms[0]]
	x, okx := at.a.isConst()
	y, oky := at.b.isConst()
	if !okx || !oky {
		return nil, nil, nil
	}
	k := t.constPart()
	x, y = new(big.Int).Mul(x, l.c), new(big.Int).Mul(y, l.c)
	return at.cond, x.Add(x, k), y.Add(y, k)
}

func newU() *U {
	return &U{byKey: map[string]*Atom{}, fs: map[string]*F{}, consts: map[string]*Term{}, rules: map[string]map[int]*Term{}, bal: map[int]*balInfo{}, rems: map[int]remInfo{}, primes: map[string]bool{}}
}

func (u *U) rule(q *big.Int, atom int, t *Term) {
	k := q.String()
	if u.rules[k] == nil {
		u.rules[k] = map[int]*Term{}
	}
	u.rules[k][atom] = t
}

// comb is a linear combination.
func (u *U) comb(x []*Term, c []*big.Int) *Term {
	acc := map[string]*mono{}
	for i, t := range x {
		if c[i].Sign() == 0 {
			continue
		}
		for _, y := range t.ms {
			p := new(big.Int).Mul(y.c, c[i])
			if o, ok := acc[y.key]; ok {
				o.c.Add(o.c, p)
			} else {
				acc[y.key] = &mono{y.key, y.atoms, p}
			}
		}
	}
	return fromMap(acc)
}

// center reduces the coefficients to the least absolute value modulo m.
func (u *U) center(e *Term, m *big.Int) *Term {
	half := new(big.Int).Rsh(m, 1)
	red := &Term{}
	for _, x := range e.ms {
		r := new(big.Int).Mod(x.c, m)
		if x.key != "" && r.Cmp(half) > 0 {
			r.Sub(r, m)
		}
		if r.Sign() != 0 {
			red.ms = append(red.ms, mono{x.key, x.atoms, r})
		}
	}
	return red
}

// spell replaces named words by what they stand for.
func (u *U) spell(e *Term) *Term {
	for {
		var parts []*Term
		var rest *Term
	next:
		for _, x := range e.ms {
			for k, id := range x.atoms {
				if a := u.atoms[id]; a.kind == 'q' && a.name == "word" {
					at := append(append([]int{}, x.atoms[:k]...), x.atoms[k+1:]...)
					parts = append(parts, u.mul(&Term{ms: []mono{{monoKey(at), at, x.c}}}, a.num))
					continue next
				}
			}
			if rest == nil {
				rest = &Term{}
			}
			rest.ms = append(rest.ms, x)
		}
		if len(parts) == 0 {
			return e
		}
		if rest != nil {
			parts = append(parts, rest)
		}
		e = u.sum(parts)
	}
}

// reduce drops multiples of m and applies what is known modulo m.
func (u *U) reduce(e *Term, m *big.Int) *Term {
	red := u.center(u.spell(e), m)
	// a choice between terms of the same residue
	for i := 0; i < len(red.ms); i++ {
		x := red.ms[i]
		for k, id := range x.atoms {
			a := u.atoms[id]
			if a.kind != 'i' {
				continue
			}
			ra, rb := u.reduce(a.a, m), u.reduce(a.b, m)
			if len(u.center(u.sub(ra, rb), m).ms) > 0 {
				continue
			}
			at := append(append([]int{}, x.atoms[:k]...), x.atoms[k+1:]...)
			c := &Term{ms: []mono{{monoKey(at), at, x.c}}}
			o := &Term{ms: []mono{x}}
			red = u.center(u.sum([]*Term{red, u.neg(o), u.mul(c, ra)}), m)
			i = -1
			break
		}
	}
	red = u.choices(red, m)
	rl := u.rules[m.String()]
	if len(rl) == 0 {
		return red
	}
	for {
		again := false
		var parts []*Term
		rest := &Term{}
	next:
		for _, x := range red.ms {
			for i, a := range x.atoms {
				t, ok := rl[a]
				if !ok {
					continue
				}
				at := append(append([]int{}, x.atoms[:i]...), x.atoms[i+1:]...)
				c := &Term{ms: []mono{{monoKey(at), at, x.c}}}
				parts = append(parts, u.mul(c, t))
				again = true
				continue next
			}
			rest.ms = append(rest.ms, x)
		}
		if !again {
			return red
		}
		red = u.center(u.sum(append(parts, rest)), m)
	}
}

// choices: a sum of choices by one condition between words, where the two sums have the same
// residue.
func (u *U) choices(red *Term, m *big.Int) *Term {
	tried := map[int]bool{}
	for i := 0; i < len(red.ms); i++ {
		x := red.ms[i]
		if len(x.atoms) != 1 || u.atoms[x.atoms[0]].kind != 'i' {
			continue
		}
		c := u.atoms[x.atoms[0]].cond
		if tried[c.id] {
			continue
		}
		tried[c.id] = true
		var as, bs, rest []*Term
		for _, y := range red.ms {
			o := &Term{ms: []mono{y}}
			if len(y.atoms) == 1 && u.atoms[y.atoms[0]].kind == 'i' && u.atoms[y.atoms[0]].cond == c {
				a := u.atoms[y.atoms[0]]
				as = append(as, u.scale(a.a, y.c))
				bs = append(bs, u.scale(a.b, y.c))
			} else {
				rest = append(rest, o)
			}
		}
		if len(as) < 2 {
			continue
		}
		a, b := u.sum(as), u.sum(bs)
		if len(u.reduce(u.sub(a, b), m).ms) > 0 {
			continue
		}
		return u.reduce(u.sum(append(rest, a)), m)
	}
	return red
}

func monoKey(at []int) string {
	var sb strings.Builder
	for i, a := range at {
		if i > 0 {
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a))
	}
	return sb.String()
}

func (u *U) konst(c *big.Int) *Term {
	if c.Sign() == 0 {
		return &Term{}
	}
	return &Term{ms: []mono{{"", nil, c}}}
}

// single is the atom a term consists of, if so.
func (u *U) single(t *Term) *Atom {
	if len(t.ms) == 1 && len(t.ms[0].atoms) == 1 && t.ms[0].c.Cmp(b1) == 0 {
		return u.atoms[t.ms[0].atoms[0]]
	}
	return nil
}

func (u *U) kint(c int64) *Term { return u.konst(bi(c)) }

func (u *U) atomTerm(a *Atom) *Term {
	at := []int{a.id}
	return &Term{ms: []mono{{monoKey(at), at, b1}}}
}

func (t *Term) isConst() (*big.Int, bool) {
	if len(t.ms) == 0 {
		return b0, true
	}
	if len(t.ms) == 1 && t.ms[0].key == "" {
		return t.ms[0].c, true
	}
	return nil, false
}

func (t *Term) String() string {
	if t.str == "" {
		var sb strings.Builder
		for _, m := range t.ms {
			sb.WriteString(m.c.String())
			sb.WriteByte('.')
			sb.WriteString(m.key)
			sb.WriteByte(' ')
		}
		t.str = sb.String()
		if t.str == "" {
			t.str = "0"
		}
	}
	return t.str
}

func (t *Term) constPart() *big.Int {
	if len(t.ms) > 0 && t.ms[0].key == "" {
		return t.ms[0].c
	}
	return b0
}

// linear: ca*a + cb*b
func (u *U) lin(a *Term, ca *big.Int, b *Term, cb *big.Int) *Term {
	out := make([]mono, 0, len(a.ms)+len(b.ms))
	i, j := 0, 0
	one := func(c *big.Int) bool { return c.IsInt64() && c.Int64() == 1 }
	mul := func(m mono, c *big.Int) mono {
		if one(c) {
			return m
		}
		return mono{m.key, m.atoms, new(big.Int).Mul(m.c, c)}
	}
	for i < len(a.ms) || j < len(b.ms) {
		switch {
		case j >= len(b.ms) || i < len(a.ms) && a.ms[i].key < b.ms[j].key:
			if ca.Sign() != 0 {
				out = append(out, mul(a.ms[i], ca))
			}
			i++
		case i >= len(a.ms) || a.ms[i].key > b.ms[j].key:
			if cb.Sign() != 0 {
				out = append(out, mul(b.ms[j], cb))
			}
			j++
		default:
			c := new(big.Int).Mul(a.ms[i].c, ca)
			c.Add(c, new(big.Int).Mul(b.ms[j].c, cb))
			if c.Sign() != 0 {
				out = append(out, mono{a.ms[i].key, a.ms[i].atoms, c})
			}
			i++
			j++
		}
	}
	return &Term{ms: out}
}

var bm1 = big.NewInt(-1)

func (u *U) add(a, b *Term) *Term { return u.lin(a, b1, b, b1) }
func (u *U) sub(a, b *Term) *Term { return u.lin(a, b1, b, bm1) }
func (u *U) neg(a *Term) *Term    { return u.lin(a, bm1, &Term{}, b0) }
func (u *U) scale(a *Term, c *big.Int) *Term {
	return u.lin(a, c, &Term{}, b0)
}

func (u *U) mul(a, b *Term) *Term {
	if c, ok := a.isConst(); ok {
		return u.scale(b, c)
	}
	if c, ok := b.isConst(); ok {
		return u.scale(a, c)
	}
	if len(a.ms)*len(b.ms) > 4000000 {
		panic(unsupported("a product with too many terms"))
	}
	acc := map[string]*mono{}
	for _, x := range a.ms {
		for _, y := range b.ms {
			at := make([]int, 0, len(x.atoms)+len(y.atoms))
			at = append(append(at, x.atoms...), y.atoms...)
			sort.Ints(at)
			k := monoKey(at)
			c := new(big.Int).Mul(x.c, y.c)
			if m, ok := acc[k]; ok {
				m.c.Add(m.c, c)
			} else {
				acc[k] = &mono{k, at, c}
			}
		}
	}
	return fromMap(acc)
}

func fromMap(acc map[string]*mono) *Term {
	t := &Term{ms: make([]mono, 0, len(acc))}
	for _, m := range acc {
		if m.c.Sign() != 0 {
			t.ms = append(t.ms, *m)
		}
	}
	sort.Slice(t.ms, func(i, j int) bool { return t.ms[i].key < t.ms[j].key })
	return t
}

func (u *U) sum(ts []*Term) *Term {
	acc := map[string]*mono{}
	for _, t := range ts {
		for _, x := range t.ms {
			if m, ok := acc[x.key]; ok {
				m.c = new(big.Int).Add(m.c, x.c)
			} else {
				acc[x.key] = &mono{x.key, x.atoms, x.c}
			}
		}
	}
	return fromMap(acc)
}

func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}

// naive interval of the polynomial
func (u *U) naive(t *Term) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, m := range t.ms {
		l, h := b1, b1
		for i := 0; i < len(m.atoms); {
			a := u.atoms[m.atoms[i]]
			n := 1
			for i+n < len(m.atoms) && m.atoms[i+n] == m.atoms[i] {
				n++
			}
			al, ah := new(big.Int).Exp(a.lo, bi(int64(n)), nil), new(big.Int).Exp(a.hi, bi(int64(n)), nil)
			if n%2 == 0 {
				mx := maxB(al, ah)
				if a.lo.Sign() <= 0 && a.hi.Sign() >= 0 {
					al = b0
				} else {
					al = minB(al, ah)
				}
				ah = mx
			}
			p := []*big.Int{new(big.Int).Mul(l, al), new(big.Int).Mul(l, ah), new(big.Int).Mul(h, al), new(big.Int).Mul(h, ah)}
			l, h = p[0], p[0]
			for _, x := range p[1:] {
				l, h = minB(l, x), maxB(h, x)
			}
			i += n
		}
		if m.c.Sign() >= 0 {
			lo.Add(lo, new(big.Int).Mul(m.c, l))
			hi.Add(hi, new(big.Int).Mul(m.c, h))
		} else {
			lo.Add(lo, new(big.Int).Mul(m.c, h))
			hi.Add(hi, new(big.Int).Mul(m.c, l))
		}
	}
	return
}

// Range gives bounds of a term: interval arithmetic, with remainders num - m*floor(num/m)
// recognised inside the sum.
func (u *U) Range(t *Term) (*big.Int, *big.Int) {
	if t.lo != nil {
		return t.lo, t.hi
	}
	lo, hi := u.naive(t)
	// remainders inside
	rest := t
	al, ah := new(big.Int), new(big.Int)
	for round := 0; round < 64; round++ {
		var best *Atom
		var s, bm *big.Int
		var bn *Term
		for i := len(rest.ms) - 1; i >= 0; i-- {
			m := rest.ms[i]
			if len(m.atoms) != 1 {
				continue
			}
			a := u.atoms[m.atoms[0]]
			if a.kind != 'f' || best != nil && a.id < best.id {
				continue
			}
			if q := u.occurs(rest, a.num, m.c, a.m); q != nil {
				best, s, bn, bm = a, q, a.num, a.m
				continue
			}
			// a finer quotient of the same number
			for _, o := range rest.ms {
				if len(o.atoms) != 1 || o.key == m.key {
					continue
				}
				b := u.atoms[o.atoms[0]]
				if b.kind != 'f' || b.m.Cmp(a.m) >= 0 || b.num.String() != a.num.String() {
					continue
				}
				k, r := new(big.Int).QuoRem(a.m, b.m, new(big.Int))
				if r.Sign() != 0 {
					continue
				}
				t := u.atomTerm(b)
				if q := u.occurs(rest, t, m.c, k); q != nil {
					best, s, bn, bm = a, q, t, k
					break
				}
			}
		}
		if best == nil {
			break
		}
		rem := u.sub(bn, u.scale(u.atomTerm(best), bm))
		rest = u.lin(rest, b1, rem, new(big.Int).Neg(s))
		x := new(big.Int).Mul(s, new(big.Int).Sub(bm, b1))
		if s.Sign() > 0 {
			ah.Add(ah, x)
		} else {
			al.Add(al, x)
		}
		l2, h2 := u.naive(rest)
		lo, hi = maxB(lo, new(big.Int).Add(l2, al)), minB(hi, new(big.Int).Add(h2, ah))
	}
	l2, h2 := u.difference(t)
	if l2 != nil {
		lo, hi = maxB(lo, l2), minB(hi, h2)
	}
	t.lo, t.hi = lo, hi
	return lo, hi
}

// difference: the range of a difference of two remainders.
func (u *U) difference(t *Term) (lo, hi *big.Int) {
	if len(t.ms) > 64 {
		return nil, nil
	}
	for _, x := range t.ms {
		if len(x.atoms) != 1 || x.c.Sign() > 0 {
			continue
		}
		a := u.atoms[x.atoms[0]]
		if a.kind != 'f' || x.c.CmpAbs(a.m) != 0 {
			continue
		}
		for _, y := range t.ms {
			if len(y.atoms) != 1 || y.c.Cmp(a.m) != 0 {
				continue
			}
			b := u.atoms[y.atoms[0]]
			if b.kind != 'f' || b.m.Cmp(a.m) != 0 {
				continue
			}
			d := u.lin(u.sub(a.num, b.num), b1, u.sub(u.atomTerm(b), u.atomTerm(a)), a.m)
			if c, ok := u.sub(t, d).isConst(); ok {
				m := new(big.Int).Sub(a.m, b1)
				return new(big.Int).Sub(c, m), new(big.Int).Add(c, m)
			}
		}
	}
	return nil, nil
}

// occurs: num occurs in rest with a factor q such that c = -q*m.
func (u *U) occurs(rest, num *Term, c, m *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(c, m, new(big.Int))
	if r.Sign() != 0 || q.Sign() == 0 {
		return nil
	}
	q.Neg(q)
	ok := false
	for _, x := range num.ms {
		if x.key == "" {
			continue
		}
		ok = true
		c := rest.coef(x.key)
		if c == nil || c.Sign()*q.Sign()*x.c.Sign() <= 0 || new(big.Int).Abs(c).Cmp(new(big.Int).Abs(new(big.Int).Mul(q, x.c))) < 0 {
			return nil
		}
	}
	if !ok {
		return nil
	}
	return q
}

func (t *Term) coef(key string) *big.Int {
	i := sort.Search(len(t.ms), func(i int) bool { return t.ms[i].key >= key })
	if i < len(t.ms) && t.ms[i].key == key {
		return t.ms[i].c
	}
	return nil
}

func floorDiv(a, m *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, m, new(big.Int))
	if r.Sign() < 0 {
		q.Sub(q, b1)
	}
	return q
}

func (u *U) newAtom(a *Atom, key string) *Atom {
	if x, ok := u.byKey[key]; ok {
		return x
	}
	a.id = len(u.atoms)
	u.atoms = append(u.atoms, a)
	u.byKey[key] = a
	return a
}

// fresh variable in [lo, hi]
func (u *U) variable(name string, lo, hi *big.Int) *Term {
	if lo.Cmp(hi) == 0 {
		return u.konst(lo)
	}
	return u.atomTerm(u.newAtom(&Atom{kind: 'v', name: name, lo: lo, hi: hi}, "v:"+name+":"+lo.String()+":"+hi.String()))
}

// floor returns floor(e/m), m > 0.
func (u *U) floor(e *Term, m *big.Int) *Term {
	if m.Sign() <= 0 {
		panic("floor by a nonpositive number")
	}
	if m.Cmp(b1) == 0 {
		return e
	}
	if c, ok := e.isConst(); ok {
		return u.konst(floorDiv(c, m))
	}
	if c, a, b := u.twoWay(e); c != nil {
		return u.ite(c, u.konst(floorDiv(a, m)), u.konst(floorDiv(b, m)))
	}
	half := new(big.Int).Rsh(m, 1)
	outer := map[string]*mono{}
	red := &Term{}
	g := new(big.Int).Set(m)
	for _, x := range e.ms {
		q, r := new(big.Int).DivMod(x.c, m, new(big.Int))
		if x.key != "" && r.Cmp(half) > 0 {
			r.Sub(r, m)
			q.Add(q, b1)
		}
		if q.Sign() != 0 {
			outer[x.key] = &mono{x.key, x.atoms, q}
		}
		if r.Sign() != 0 {
			red.ms = append(red.ms, mono{x.key, x.atoms, r})
			if x.key != "" {
				g.GCD(nil, nil, g, new(big.Int).Abs(r))
			}
		}
	}
	out := fromMap(outer)
	mm := m
	if g.Cmp(b1) > 0 {
		r2 := &Term{}
		for _, x := range red.ms {
			c := floorDiv(x.c, g)
			if c.Sign() != 0 {
				r2.ms = append(r2.ms, mono{x.key, x.atoms, c})
			}
		}
		red = r2
		mm = new(big.Int).Div(m, g)
	}
	if mm.Cmp(b1) == 0 {
		return u.add(out, red)
	}
	if c, ok := red.isConst(); ok {
		return u.add(out, u.konst(floorDiv(c, mm)))
	}
	lo, hi := u.Range(red)
	ql, qh := floorDiv(lo, mm), floorDiv(hi, mm)
	if ql.Cmp(qh) == 0 {
		return u.add(out, u.konst(ql))
	}
	if at := u.single(red); at != nil && at.op != 0 && u.shift != nil && mm.TrailingZeroBits()+1 == uint(mm.BitLen()) {
		return u.add(out, u.shift(at, mm))
	}
	// floor((floor(N/k)+c)/m) = floor((N+c*k)/(k*m))
	k := len(red.ms)
	if k <= 2 {
		l := red.ms[k-1]
		if (k == 1 || red.ms[0].key == "") && len(l.atoms) == 1 && l.c.Cmp(b1) == 0 {
			a := u.atoms[l.atoms[0]]
			if a.kind == 'f' {
				n := u.add(a.num, u.konst(new(big.Int).Mul(red.constPart(), a.m)))
				return u.add(out, u.floor(n, new(big.Int).Mul(a.m, mm)))
			}
		}
	}
	// floor((g*A+B)/(g*n)) = floor((A+floor(B/g))/n)
	if len(red.ms) > 1 && len(red.ms) <= 64 {
		seen := map[string]bool{}
		for _, x := range red.ms {
			gg := new(big.Int).GCD(nil, nil, mm, new(big.Int).Abs(x.c))
			if gg.Cmp(b1) == 0 || seen[gg.String()] {
				continue
			}
			seen[gg.String()] = true
			A, B := &Term{}, &Term{}
			for _, y := range red.ms {
				q, r := new(big.Int).QuoRem(y.c, gg, new(big.Int))
				if r.Sign() == 0 {
					A.ms = append(A.ms, mono{y.key, y.atoms, q})
				} else {
					B.ms = append(B.ms, y)
				}
			}
			if len(B.ms) == 0 {
				continue
			}
			lo, hi := u.Range(B)
			fl, fh := floorDiv(lo, gg), floorDiv(hi, gg)
			if fl.Cmp(fh) == 0 {
				return u.add(out, u.floor(u.add(A, u.konst(fl)), new(big.Int).Div(mm, gg)))
			}
		}
	}
	key := "f:" + mm.String() + ":" + red.String()
	a := u.newAtom(&Atom{kind: 'f', num: red, m: mm, lo: ql, hi: qh}, key)
	return u.add(out, u.atomTerm(a))
}

func (u *U) mod(e *Term, m *big.Int) *Term {
	if c, a, b := u.twoWay(e); c != nil {
		return u.ite(c, u.konst(new(big.Int).Mod(a, m)), u.konst(new(big.Int).Mod(b, m)))
	}
	red := u.reduce(e, m)
	lo, hi := u.Range(red)
	if lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return red
	}
	if hi.Sign() == 0 && lo.Cmp(big.NewInt(-1)) == 0 && m.Cmp(b1) > 0 {
		// none or all of them
		return u.scale(red, new(big.Int).Sub(b1, m))
	}
	return u.sub(red, u.scale(u.floor(red, m), m))
}

func (u *U) sqrt(e *Term) *Term {
	if c, ok := e.isConst(); ok {
		return u.konst(new(big.Int).Sqrt(c))
	}
	lo, hi := u.Range(e)
	if lo.Sign() < 0 {
		lo = b0
	}
	a := u.newAtom(&Atom{kind: 's', num: e, lo: new(big.Int).Sqrt(lo), hi: new(big.Int).Sqrt(hi)}, "s:"+e.String())
	return u.atomTerm(a)
}

func (u *U) ite(c *F, a, b *Term) *Term {
	switch {
	case c.isTrue():
		return a
	case c.isFalse():
		return b
	case a.String() == b.String():
		return a
	}
	if c.op == '!' {
		c, a, b = c.sub[0], b, a
	}
	al, ah := u.Range(a)
	bl, bh := u.Range(b)
	// under a bound of its own term, the range of a branch is smaller
	al, ah = u.under(c, a, al, ah)
	bl, bh = u.under(u.not(c), b, bl, bh)
	x := u.newAtom(&Atom{kind: 'i', cond: c, a: a, b: b, lo: minB(al, bl), hi: maxB(ah, bh)}, "i:"+strconv.Itoa(c.id)+":"+a.String()+":"+b.String())
	return u.atomTerm(x)
}

// under refines the range of t by a condition that bounds the same polynomial.
func (u *U) under(c *F, t *Term, lo, hi *big.Int) (*big.Int, *big.Int) {
	for _, l := range c.conjuncts() {
		if l.op != 'l' {
			continue
		}
		// l.t <= 0
		for _, s := range []*big.Int{b1, bm1} {
			d := u.lin(t, b1, l.t, new(big.Int).Neg(s))
			if k, ok := d.isConst(); ok { // t = s*l.t + k
				if s.Sign() > 0 {
					hi = minB(hi, k)
				} else {
					lo = maxB(lo, k)
				}
			}
		}
	}
	return lo, hi
}

// F is a formula: 't' true, 'l' t<=0, 'e' t==0, '!' not, '&' and, '|' or, 'b' a boolean variable.
type F struct {
	id   int
	op   byte
	t    *Term
	sub  []*F
	name string
}

func (f *F) isTrue() bool  { return f.op == 't' }
func (f *F) isFalse() bool { return f.op == '!' && f.sub[0].op == 't' }

func (f *F) conjuncts() []*F {
	if f.op == '&' {
		var o []*F
		for _, s := range f.sub {
			o = append(o, s.conjuncts()...)
		}
		return o
	}
	return []*F{f}
}

func (u *U) mk(f *F, key string) *F {
	if x, ok := u.fs[key]; ok {
		return x
	}
	u.nfs++
	f.id = u.nfs
	u.fs[key] = f
	return f
}

func (u *U) tru() *F { return u.mk(&F{op: 't'}, "t") }
func (u *U) fls() *F { return u.not(u.tru()) }
func (u *U) bool(b bool) *F {
	if b {
		return u.tru()
	}
	return u.fls()
}

func (u *U) not(f *F) *F {
	if f.op == '!' {
		return f.sub[0]
	}
	if f.op == 'l' { // not t<=0  <=>  1-t <= 0
		return u.le0(u.sub(u.konst(b1), f.t))
	}
	return u.mk(&F{op: '!', sub: []*F{f}}, "!"+strconv.Itoa(f.id))
}

func (u *U) and(fs ...*F) *F { return u.nary('&', fs) }
func (u *U) or(fs ...*F) *F  { return u.nary('|', fs) }

func (u *U) nary(op byte, fs []*F) *F {
	seen := map[int]*F{}
	var out []*F
	var visit func(f *F) bool
	visit = func(f *F) bool {
		if op == '&' && f.isTrue() || op == '|' && f.isFalse() {
			return true
		}
		if op == '&' && f.isFalse() || op == '|' && f.isTrue() {
			return false
		}
		if f.op == op {
			for _, s := range f.sub {
				if !visit(s) {
					return false
				}
			}
			return true
		}
		if seen[f.id] != nil {
			return true
		}
		if n := u.not(f); seen[n.id] != nil {
			return false
		}
		seen[f.id] = f
		out = append(out, f)
		return true
	}
	for _, f := range fs {
		if !visit(f) {
			return u.bool(op == '|')
		}
	}
	if len(out) == 0 {
		return u.bool(op == '&')
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var sb strings.Builder
	sb.WriteByte(op)
	for _, f := range out {
		sb.WriteString(strconv.Itoa(f.id))
		sb.WriteByte(',')
	}
	return u.mk(&F{op: op, sub: out}, sb.String())
}

func (u *U) iteF(c, a, b *F) *F {
	switch {
	case a == b:
		return a
	case a.isTrue():
		return u.or(c, b)
	case a.isFalse():
		return u.and(u.not(c), b)
	case b.isTrue():
		return u.or(u.not(c), a)
	case b.isFalse():
		return u.and(c, a)
	}
	return u.or(u.and(c, a), u.and(u.not(c), b))
}

// le0: t <= 0
func (u *U) le0(t *Term) *F {
	lo, hi := u.Range(t)
	if hi.Sign() <= 0 {
		return u.tru()
	}
	if lo.Sign() > 0 {
		return u.fls()
	}
	// divide by the content
	g := new(big.Int)
	for _, m := range t.ms {
		if m.key != "" {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	if g.Cmp(b1) > 0 {
		n := &Term{}
		for _, m := range t.ms {
			var c *big.Int
			if m.key == "" {
				// sum <= -c0 : floor(-c0/g)
				c = new(big.Int).Neg(floorDiv(new(big.Int).Neg(m.c), g))
			} else {
				c = new(big.Int).Quo(m.c, g)
			}
			if c.Sign() != 0 {
				n.ms = append(n.ms, mono{m.key, m.atoms, c})
			}
		}
		return u.le0(n)
	}
	// a choice where one side is settled
	if n := len(t.ms); n <= 2 {
		l := t.ms[n-1]
		if (n == 1 || t.ms[0].key == "") && len(l.atoms) == 1 && u.atoms[l.atoms[0]].kind == 'i' {
			a := u.atoms[l.atoms[0]]
			k := u.konst(t.constPart())
			x, y := u.lin(a.a, l.c, k, b1), u.lin(a.b, l.c, k, b1)
			settled := func(t *Term) bool {
				lo, hi := u.Range(t)
				return lo.Sign() > 0 || hi.Sign() <= 0
			}
			if settled(x) || settled(y) {
				return u.iteF(a.cond, u.le0(x), u.le0(y))
			}
		}
	}
	// a single atom plus constant: comparisons of floors, square roots with constants
	if n := len(t.ms); n <= 2 {
		l := t.ms[n-1]
		if (n == 1 || t.ms[0].key == "") && len(l.atoms) == 1 && l.c.CmpAbs(b1) == 0 {
			a := u.atoms[l.atoms[0]]
			c := t.constPart()
			switch a.kind {
			case 'f':
				if l.c.Sign() > 0 { // floor(N/m) <= -c  <=>  N < (-c+1)*m
					k := new(big.Int).Sub(b1, c)
					k.Mul(k, a.m)
					return u.le0(u.add(a.num, u.konst(new(big.Int).Sub(b1, k))))
				}
				// floor(N/m) >= c <=> N >= c*m
				k := new(big.Int).Mul(c, a.m)
				return u.le0(u.sub(u.konst(k), a.num))
			case 's':
				if l.c.Sign() > 0 { // s <= k <=> N < (k+1)^2
					k := new(big.Int).Neg(c)
					if k.Sign() >= 0 {
						k.Add(k, b1)
						k.Mul(k, k)
						return u.le0(u.add(a.num, u.konst(new(big.Int).Sub(b1, k))))
					}
				} else if c.Sign() > 0 { // s >= c <=> N >= c^2
					return u.le0(u.sub(u.konst(new(big.Int).Mul(c, c)), a.num))
				}
			}
		}
	}
	return u.mk(&F{op: 'l', t: t}, "l"+t.String())
}

func (u *U) eq0(t *Term) *F {
	lo, hi := u.Range(t)
	if lo.Sign() > 0 || hi.Sign() < 0 {
		return u.fls()
	}
	if c, ok := t.isConst(); ok {
		return u.bool(c.Sign() == 0)
	}
	if lo.Sign() == 0 && hi.Sign() == 0 {
		return u.tru()
	}
	if n := u.eqMod(t, lo, hi); n != nil && !u.plain {
		t = n
		if lo, hi := u.Range(t); lo.Sign() > 0 || hi.Sign() < 0 {
			return u.fls()
		}
		if c, ok := t.isConst(); ok {
			return u.bool(c.Sign() == 0)
		}
	}
	g := new(big.Int)
	for _, m := range t.ms {
		if m.key != "" {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	if t.ms[len(t.ms)-1].c.Sign() < 0 {
		g.Neg(g)
	}
	if g.Cmp(b1) != 0 {
		n := &Term{}
		for _, m := range t.ms {
			q, r := new(big.Int).QuoRem(m.c, g, new(big.Int))
			if r.Sign() != 0 {
				return u.fls()
			}
			n.ms = append(n.ms, mono{m.key, m.atoms, q})
		}
		t = n
	}
	// words combined bit by bit
	if at := u.single(t); at != nil {
		switch at.op {
		case 'o':
			return u.and(u.eq0(at.xa), u.eq0(at.xb))
		case 'x':
			return u.eq0(u.sub(at.xa, at.xb))
		}
	}
	return u.mk(&F{op: 'e', t: t}, "e"+t.String())
}

// eqMod: a term of absolute value below a prime m is zero if its residue is; the residue is
// scaled so that its leading coefficient is one.
func (u *U) eqMod(t *Term, lo, hi *big.Int) *Term {
	for i := len(t.ms) - 1; i >= 0; i-- {
		x := t.ms[i]
		if len(x.atoms) != 1 || u.atoms[x.atoms[0]].kind != 'f' {
			continue
		}
		m := u.atoms[x.atoms[0]].m
		if m.BitLen() < 4 || !u.prime(m) || new(big.Int).Mod(x.c, m).Sign() != 0 || hi.Cmp(m) >= 0 || new(big.Int).Neg(lo).Cmp(m) >= 0 {
			continue
		}
		red := u.reduce(t, m)
		if len(red.ms) == 0 {
			return red
		}
		inv := new(big.Int).ModInverse(red.ms[len(red.ms)-1].c, m)
		if inv == nil {
			return nil
		}
		return u.mod(u.scale(red, inv), m)
	}
	return nil
}

func (u *U) prime(m *big.Int) bool {
	k := m.String()
	p, ok := u.primes[k]
	if !ok {
		p = m.ProbablyPrime(20)
		u.primes[k] = p
	}
	return p
}

func (u *U) le(a, b *Term) *F { return u.le0(u.sub(a, b)) }
func (u *U) lt(a, b *Term) *F { return u.le0(u.add(u.sub(a, b), u.konst(b1))) }
func (u *U) eq(a, b *Term) *F { return u.eq0(u.sub(a, b)) }

// Unsupported stops the execution of a harness: the claim is reduced.
type Unsupported struct{ what string }

func unsupported(f string, a ...any) Unsupported { return Unsupported{fmt.Sprintf(f, a...)} }

func (u Unsupported) Error() string { return u.what }

// Pretty shows a term with the definitions of its atoms.
func (u *U) Pretty(t *Term) string {
	s := t.String()
	seen := map[int]bool{}
	for _, mo := range t.ms {
		for _, ai := range mo.atoms {
			if seen[ai] || len(seen) > 12 {
				continue
			}
			seen[ai] = true
			at := u.atoms[ai]
			switch at.kind {
			case 'i':
				s += fmt.Sprintf("\n    a%d if ? then %v else %v", at.id, at.a, at.b)
			case 'f':
				s += fmt.Sprintf("\n    a%d floor(%v / %v)", at.id, at.num, at.m)
			default:
				s += fmt.Sprintf("\n    a%d %s [%v, %v]", at.id, at.name, at.lo, at.hi)
			}
		}
	}
	return s
}
