package main

import (
	"fmt"
	"math/big"
	"strings"
)

// A query once more in bit vectors wide enough that nothing overflows: every atom has
// bounds, so the translation is exact.

type bvPrinter struct {
	p *printer
	w int
}

func (b *bvPrinter) num(c *big.Int) string {
	x := new(big.Int).Mod(c, pow2(uint(b.w)))
	return fmt.Sprintf("(_ bv%s %d)", x, b.w)
}

func (b *bvPrinter) term(t *Term) string {
	r := ""
	for _, m := range t.ms {
		x := ""
		switch len(m.atoms) {
		case 0:
			x = b.num(m.c)
		default:
			x = an(m.atoms[0])
			for _, a := range m.atoms[1:] {
				x = "(bvmul " + x + " " + an(a) + ")"
			}
			if m.c.Cmp(b1) != 0 {
				// a power of two is a shift
				ab := new(big.Int).Abs(m.c)
				if k := ab.TrailingZeroBits(); ab.BitLen() == int(k)+1 {
					if k > 0 {
						x = "(bvshl " + x + " " + b.num(bi(int64(k))) + ")"
					}
				} else {
					x = "(bvmul " + b.num(ab) + " " + x + ")"
				}
				if m.c.Sign() < 0 {
					x = "(bvneg " + x + ")"
				}
			}
		}
		if r == "" {
			r = x
		} else {
			r = "(bvadd " + r + " " + x + ")"
		}
	}
	if r == "" {
		return b.num(b0)
	}
	return r
}

func (b *bvPrinter) f(f *F) string {
	switch f.op {
	case 't':
		return "true"
	case 'b':
		return "|" + f.name + "|"
	case 'l':
		return "(bvsle " + b.term(f.t) + " " + b.num(b0) + ")"
	case 'e':
		return "(= " + b.term(f.t) + " " + b.num(b0) + ")"
	case '!':
		return "(not " + b.f(f.sub[0]) + ")"
	}
	op := map[byte]string{'&': "and", '|': "or"}[f.op]
	var ps []string
	for _, s := range f.sub {
		ps = append(ps, b.f(s))
	}
	return "(" + op + " " + strings.Join(ps, " ") + ")"
}

// width of the intermediate results of a term.
func (b *bvPrinter) need(t *Term) {
	s := new(big.Int)
	for _, m := range t.ms {
		x := new(big.Int).Abs(m.c)
		for _, a := range m.atoms {
			at := b.p.u.atoms[a]
			x.Mul(x, maxB(new(big.Int).Abs(at.lo), new(big.Int).Abs(at.hi)))
		}
		s.Add(s, x)
	}
	b.w = max(b.w, s.BitLen()+2)
}

func (b *bvPrinter) needF(f *F) {
	if f.t != nil {
		b.need(f.t)
	}
	for _, s := range f.sub {
		b.needF(s)
	}
}

func (s *Solver) bvText(fs []*F, limit int) string {
	p := &printer{u: s.u, bv: true, atoms: map[int]bool{}, monos: map[string][]int{}}
	for _, f := range fs {
		p.collectF(f)
	}
	b := &bvPrinter{p: p, w: 8}
	for _, f := range fs {
		b.needF(f)
	}
	for _, id := range p.order {
		a := s.u.atoms[id]
		switch a.kind {
		case 's':
			return ""
		case 'f', 'q':
			if a.op != 0 {
				b.need(a.xa)
				b.need(a.xb)
				break
			}
			b.p.u.def(a)
			b.need(a.num)
		case 'd':
			b.need(a.num)
			b.need(a.b)
		case 'i':
			b.needF(a.cond)
			b.need(a.a)
			b.need(a.b)
		}
		one := &Term{ms: []mono{{monoKey([]int{id}), []int{id}, b1}}}
		if a.m != nil {
			one = s.u.scale(one, a.m)
			one = s.u.add(one, s.u.konst(a.m))
		}
		b.need(one)
	}
	if b.w > limit {
		return ""
	}
	var sb strings.Builder
	for _, id := range p.order {
		a := s.u.atoms[id]
		x := an(id)
		switch {
		case a.kind == 'i':
			fmt.Fprintf(&sb, "(define-fun %s () (_ BitVec %d) (ite %s %s %s))\n", x, b.w, b.f(a.cond), b.term(a.a), b.term(a.b))
		case a.op != 0:
			fmt.Fprintf(&sb, "(define-fun %s () (_ BitVec %d) (%s %s %s))\n", x, b.w, map[byte]string{'o': "bvor", 'x': "bvxor"}[a.op], b.term(a.xa), b.term(a.xb))
		case a.kind == 'q':
			fmt.Fprintf(&sb, "(define-fun %s () (_ BitVec %d) %s)\n", x, b.w, b.term(a.num))
		case a.kind == 'f' && int(a.m.TrailingZeroBits())+1 == a.m.BitLen():
			fmt.Fprintf(&sb, "(define-fun %s () (_ BitVec %d) (bvashr %s %s))\n", x, b.w, b.term(a.num), b.num(bi(int64(a.m.TrailingZeroBits()))))
		default:
			d := new(big.Int).Sub(a.hi, a.lo)
			k := max(d.BitLen(), 1)
			fmt.Fprintf(&sb, "(declare-const %sr (_ BitVec %d))\n", x, k)
			fmt.Fprintf(&sb, "(assert (bvule %sr (_ bv%s %d)))\n", x, d, k)
			e := fmt.Sprintf("((_ zero_extend %d) %sr)", b.w-k, x)
			if a.lo.Sign() != 0 {
				e = "(bvadd " + b.num(a.lo) + " " + e + ")"
			}
			fmt.Fprintf(&sb, "(define-fun %s () (_ BitVec %d) %s)\n", x, b.w, e)
		}
	}
	for _, id := range p.order {
		a := s.u.atoms[id]
		x := an(id)
		switch {
		case a.kind == 'f' && int(a.m.TrailingZeroBits())+1 != a.m.BitLen():
			fmt.Fprintf(&sb, "(assert (let ((n %s) (k (bvmul %s %s))) (and (bvsle k n) (bvslt n (bvadd k %s)))))\n", b.term(a.num), b.num(a.m), x, b.num(a.m))
		case a.kind == 'd':
			fmt.Fprintf(&sb, "(assert (and (bvsle %s %s) (bvslt %s %s)))\n", b.num(b0), b.term(a.num), b.term(a.b), b.num(b0))
		}
	}
	for _, f := range fs {
		fmt.Fprintf(&sb, "(assert %s)\n", b.f(f))
	}
	return sb.String()
}
