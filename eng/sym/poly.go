package sym

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync/atomic"
)

// Var describes a symbolic variable.
type Var struct {
	Name string
	Kind string // "in", "rand", "chal", "adv", "aux"
	// reduction rule v^Deg -> v^To (Deg == 0: none)
	Deg, To int32
}

type ve struct {
	v int32
	e int32
}

type monoTab struct {
	vars   []Var
	byName map[string]int32

	monos  [][]ve
	monoID map[string]int32
	mulC   map[uint64]int32
}

var tab *monoTab

// Reset drops every variable and monomial.
func Reset() {
	tab = &monoTab{
		byName: map[string]int32{},
		monoID: map[string]int32{},
		mulC:   map[uint64]int32{},
	}
	internMono(nil)
	tokens = map[string]*Poly{}
	cur = nil
	seq = 0
}

func init() { Reset() }

func monoKey(m []ve) string {
	b := make([]byte, 0, len(m)*8)
	for _, x := range m {
		b = binary.LittleEndian.AppendUint32(b, uint32(x.v))
		b = binary.LittleEndian.AppendUint32(b, uint32(x.e))
	}
	return string(b)
}

func internMono(m []ve) int32 {
	k := monoKey(m)
	if id, ok := tab.monoID[k]; ok {
		return id
	}
	id := int32(len(tab.monos))
	tab.monos = append(tab.monos, append([]ve(nil), m...))
	tab.monoID[k] = id
	return id
}

func reduceExp(v, e int32) int32 {
	va := &tab.vars[v]
	if va.Deg == 0 {
		return e
	}
	for e >= va.Deg {
		e = e - va.Deg + va.To
	}
	return e
}

func mulMono(a, b int32) int32 {
	Ticks.Add(1)
	if a == 0 {
		return b
	}
	if b == 0 {
		return a
	}
	if a > b {
		a, b = b, a
	}
	k := uint64(a)<<32 | uint64(b)
	if id, ok := tab.mulC[k]; ok {
		return id
	}
	x, y := tab.monos[a], tab.monos[b]
	out := make([]ve, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j == len(y) || (i < len(x) && x[i].v < y[j].v):
			out = append(out, x[i])
			i++
		case i == len(x) || y[j].v < x[i].v:
			out = append(out, y[j])
			j++
		default:
			out = append(out, ve{x[i].v, reduceExp(x[i].v, x[i].e+y[j].e)})
			i++
			j++
		}
	}
	id := internMono(out)
	tab.mulC[k] = id
	return id
}

// Term is a coefficient times a monomial.
type Term struct {
	m int32
	c Fe
}

// Poly is a sparse polynomial, sorted by monomial id, without zero coefficients. Immutable.
type Poly struct {
	t    []Term
	hash [32]byte
	hok  bool
}

var zeroPoly = &Poly{}

// ConstPoly returns the constant polynomial.
func ConstPoly(c Fe) *Poly {
	if c.IsZero() {
		return zeroPoly
	}
	return &Poly{t: []Term{{0, c}}}
}

// ConstInt returns the constant polynomial of x.
func ConstInt(x int64) *Poly { return ConstPoly(FeFromBig(big.NewInt(x))) }

// NewVar declares (or returns) the variable with this name.
func NewVar(name, kind string) *Poly { return NewVarRule(name, kind, 0, 0) }

// NewVarRule declares a variable with the rewriting rule v^deg = v^to.
func NewVarRule(name, kind string, deg, to int32) *Poly {
	if Conc != nil {
		return Conc.value(name, kind)
	}
	id, ok := tab.byName[name]
	if !ok {
		id = int32(len(tab.vars))
		tab.vars = append(tab.vars, Var{name, kind, deg, to})
		tab.byName[name] = id
	}
	return &Poly{t: []Term{{internMono([]ve{{id, 1}}), feOne}}}
}

// VarInfo returns the variable of a polynomial that is one variable.
func (p *Poly) VarInfo() (Var, bool) {
	if len(p.t) == 1 && p.t[0].c == feOne {
		m := tab.monos[p.t[0].m]
		if len(m) == 1 && m[0].e == 1 {
			return tab.vars[m[0].v], true
		}
	}
	return Var{}, false
}

// IsConst returns the constant, if p is one.
func (p *Poly) IsConst() (Fe, bool) {
	switch {
	case len(p.t) == 0:
		return Fe{}, true
	case len(p.t) == 1 && p.t[0].m == 0:
		return p.t[0].c, true
	}
	return Fe{}, false
}

// Len is the number of monomials.
func (p *Poly) Len() int { return len(p.t) }

// IsZero tells whether the normal form is the zero polynomial.
func (p *Poly) IsZero() bool { return len(p.t) == 0 }

// Ticks counts operations; Solving tells that a solver runs (for the watchdog).
var (
	Ticks   atomic.Int64
	Solving atomic.Bool
)

// AddP returns p + q.
func AddP(p, q *Poly) *Poly {
	Ticks.Add(1)
	if len(p.t) == 0 {
		return q
	}
	if len(q.t) == 0 {
		return p
	}
	out := make([]Term, 0, len(p.t)+len(q.t))
	i, j := 0, 0
	for i < len(p.t) && j < len(q.t) {
		a, b := &p.t[i], &q.t[j]
		switch {
		case a.m < b.m:
			out = append(out, *a)
			i++
		case b.m < a.m:
			out = append(out, *b)
			j++
		default:
			c := feAdd(a.c, b.c)
			if !c.IsZero() {
				out = append(out, Term{a.m, c})
			}
			i++
			j++
		}
	}
	out = append(out, p.t[i:]...)
	out = append(out, q.t[j:]...)
	return &Poly{t: out}
}

// ScaleP returns c * p.
func ScaleP(p *Poly, c Fe) *Poly {
	if c.IsZero() || len(p.t) == 0 {
		return zeroPoly
	}
	if c == feOne {
		return p
	}
	out := make([]Term, len(p.t))
	for i, x := range p.t {
		out[i] = Term{x.m, feMul(x.c, c)}
	}
	return &Poly{t: out}
}

// NegP returns -p.
func NegP(p *Poly) *Poly {
	out := make([]Term, len(p.t))
	for i, x := range p.t {
		out[i] = Term{x.m, feNeg(x.c)}
	}
	return &Poly{t: out}
}

// SubP returns p - q.
func SubP(p, q *Poly) *Poly { return AddP(p, NegP(q)) }

// MulP returns p * q.
func MulP(p, q *Poly) *Poly {
	Ticks.Add(1)
	if c, ok := p.IsConst(); ok {
		return ScaleP(q, c)
	}
	if c, ok := q.IsConst(); ok {
		return ScaleP(p, c)
	}
	acc := make(map[int32]Fe, len(p.t)+len(q.t))
	for _, a := range p.t {
		for _, b := range q.t {
			m := mulMono(a.m, b.m)
			acc[m] = feAdd(acc[m], feMul(a.c, b.c))
		}
	}
	return fromMap(acc)
}

func fromMap(acc map[int32]Fe) *Poly {
	out := make([]Term, 0, len(acc))
	for m, c := range acc {
		if !c.IsZero() {
			out = append(out, Term{m, c})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m < out[j].m })
	return &Poly{t: out}
}

// PowP returns p^e.
func PowP(p *Poly, e int32) *Poly {
	r := ConstPoly(feOne)
	for ; e > 0; e-- {
		r = MulP(r, p)
	}
	return r
}

// EqualP tells whether the normal forms coincide.
func EqualP(p, q *Poly) bool {
	if len(p.t) != len(q.t) {
		return false
	}
	for i := range p.t {
		if p.t[i] != q.t[i] {
			return false
		}
	}
	return true
}

// Subst replaces variables (by name) by polynomials.
func Subst(p *Poly, s map[string]*Poly) *Poly {
	sv := make(map[int32]*Poly, len(s))
	for k, v := range s {
		if id, ok := tab.byName[k]; ok {
			sv[id] = v
		}
	}
	pow := map[ve]*Poly{}
	// group terms: constant-like substitution is the common case
	acc := make(map[int32]Fe, len(p.t))
	for _, t := range p.t {
		var rest []ve
		var repl *Poly
		for _, x := range tab.monos[t.m] {
			if q, ok := sv[x.v]; ok {
				pw, ok := pow[x]
				if !ok {
					pw = PowP(q, x.e)
					pow[x] = pw
				}
				if repl == nil {
					repl = pw
				} else {
					repl = MulP(repl, pw)
				}
			} else {
				rest = append(rest, x)
			}
		}
		if repl == nil {
			acc[t.m] = feAdd(acc[t.m], t.c)
			continue
		}
		base := internMono(rest)
		for _, r := range repl.t {
			m := mulMono(base, r.m)
			acc[m] = feAdd(acc[m], feMul(t.c, r.c))
		}
	}
	return fromMap(acc)
}

// Vars returns the names of the variables of p.
func (p *Poly) Vars() []string {
	seen := map[int32]bool{}
	var out []string
	for _, t := range p.t {
		for _, x := range tab.monos[t.m] {
			if !seen[x.v] {
				seen[x.v] = true
				out = append(out, tab.vars[x.v].Name)
			}
		}
	}
	sort.Strings(out)
	return out
}

// Has tells whether the variable occurs in p.
func (p *Poly) Has(name string) bool {
	id, ok := tab.byName[name]
	if !ok {
		return false
	}
	for _, t := range p.t {
		for _, x := range tab.monos[t.m] {
			if x.v == id {
				return true
			}
		}
	}
	return false
}

// CoeffsIn groups p by the power of the variables selected by sel: the result maps the
// selected sub-monomial (printable) to its coefficient polynomial.
func (p *Poly) CoeffsIn(sel func(Var) bool) map[string]*Poly {
	acc := map[string]map[int32]Fe{}
	for _, t := range p.t {
		var key, rest []ve
		for _, x := range tab.monos[t.m] {
			if sel(tab.vars[x.v]) {
				key = append(key, x)
			} else {
				rest = append(rest, x)
			}
		}
		k := monoStr(key)
		if acc[k] == nil {
			acc[k] = map[int32]Fe{}
		}
		m := internMono(rest)
		acc[k][m] = feAdd(acc[k][m], t.c)
	}
	out := map[string]*Poly{}
	for k, v := range acc {
		out[k] = fromMap(v)
	}
	return out
}

func monoStr(m []ve) string {
	var s []string
	for _, x := range m {
		if x.e == 1 {
			s = append(s, tab.vars[x.v].Name)
		} else {
			s = append(s, fmt.Sprintf("%s^%d", tab.vars[x.v].Name, x.e))
		}
	}
	return strings.Join(s, "*")
}

// Hash is a digest of the normal form that does not depend on the order of creation.
func (p *Poly) Hash() [32]byte {
	if p.hok {
		return p.hash
	}
	ls := make([]string, len(p.t))
	for i, t := range p.t {
		m := append([]ve(nil), tab.monos[t.m]...)
		names := make([]string, len(m))
		for j, x := range m {
			names[j] = fmt.Sprintf("%s^%d", tab.vars[x.v].Name, x.e)
		}
		sort.Strings(names)
		ls[i] = strings.Join(names, "*") + ":" + t.c.Big().Text(16)
	}
	sort.Strings(ls)
	h := sha256.New()
	for _, l := range ls {
		h.Write([]byte(l))
		h.Write([]byte{0})
	}
	h.Sum(p.hash[:0])
	p.hok = true
	return p.hash
}

// Eval evaluates p under an assignment (variables absent are zero).
func (p *Poly) Eval(a map[string]*big.Int) *big.Int {
	r := new(big.Int)
	for _, t := range p.t {
		x := t.c.Big()
		for _, y := range tab.monos[t.m] {
			v := a[tab.vars[y.v].Name]
			if v == nil {
				v = new(big.Int)
			}
			x.Mul(x, new(big.Int).Exp(v, big.NewInt(int64(y.e)), P))
			x.Mod(x, P)
		}
		r.Add(r, x)
	}
	return r.Mod(r, P)
}

// String prints p (shortened).
func (p *Poly) String() string {
	if len(p.t) == 0 {
		return "0"
	}
	var s []string
	half := new(big.Int).Rsh(P, 1)
	for i, t := range p.t {
		if i == 12 {
			s = append(s, fmt.Sprintf("... (%d monomials)", len(p.t)))
			break
		}
		c := t.c.Big()
		if c.Cmp(half) > 0 {
			c.Sub(c, P)
		}
		cs := c.String()
		if len(cs) > 12 {
			cs = cs[:10] + ".."
		}
		if t.m == 0 {
			s = append(s, cs)
		} else {
			s = append(s, cs+"*"+monoStr(tab.monos[t.m]))
		}
	}
	return strings.Join(s, " + ")
}
