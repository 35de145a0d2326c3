package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kernel is a basis of the combinations of the numbers that are free of the named symbols
// modulo a prime. The numbers must be affine in these symbols, with constant coefficients.
func (m *M) kernel(xs []*Term, q *big.Int, names map[string]bool) [][]*big.Int {
	u := m.u
	named := func(a *Atom) bool {
		if a.kind != 'v' {
			return false
		}
		n, _, _ := strings.Cut(a.name, "#")
		return names[n]
	}
	inside := map[int]bool{}
	var hidden func(t *Term) bool
	var hiddenF func(f *F) bool
	atomHidden := func(id int) bool {
		if r, ok := inside[id]; ok {
			return r
		}
		inside[id] = false
		a := u.atoms[id]
		r := named(a)
		for _, t := range []*Term{a.num, a.a, a.b, a.xa, a.xb} {
			r = r || t != nil && hidden(t)
		}
		r = r || a.cond != nil && hiddenF(a.cond)
		if b, ok := u.bal[id]; ok {
			r = r || hidden(b.red)
		}
		if b, ok := u.rems[id]; ok {
			r = r || hidden(b.t)
		}
		inside[id] = r
		return r
	}
	hidden = func(t *Term) bool {
		for _, x := range t.ms {
			for _, id := range x.atoms {
				if atomHidden(id) {
					return true
				}
			}
		}
		return false
	}
	hiddenF = func(f *F) bool {
		if f.t != nil && hidden(f.t) {
			return true
		}
		for _, g := range f.sub {
			if hiddenF(g) {
				return true
			}
		}
		return false
	}
	n := len(xs)
	rows := make([]map[int]*big.Int, n) // by symbol
	comb := make([][]*big.Int, n)
	for i, x := range xs {
		rows[i] = map[int]*big.Int{}
		comb[i] = make([]*big.Int, n)
		for j := range comb[i] {
			comb[i][j] = new(big.Int)
		}
		comb[i][i].SetInt64(1)
		for _, t := range u.reduce(x, q).ms {
			if len(t.atoms) == 1 && named(u.atoms[t.atoms[0]]) {
				rows[i][t.atoms[0]] = new(big.Int).Mod(t.c, q)
				continue
			}
			for _, id := range t.atoms {
				if atomHidden(id) {
					panic(unsupported("a number that is not affine in the randomness: %.200s", u.Pretty(&Term{ms: []mono{t}})))
				}
			}
		}
	}
	used := make([]bool, n)
	for i := 0; i < n; i++ {
		piv := -1
		for k, c := range rows[i] {
			if c.Sign() != 0 && (piv < 0 || k < piv) {
				piv = k
			}
		}
		if piv < 0 {
			continue
		}
		used[i] = true
		inv := new(big.Int).ModInverse(rows[i][piv], q)
		for j := i + 1; j < n; j++ {
			c, ok := rows[j][piv]
			if !ok || c.Sign() == 0 {
				continue
			}
			f := new(big.Int).Mul(c, inv)
			f.Mod(f, q)
			for k, d := range rows[i] {
				e, ok := rows[j][k]
				if !ok {
					e = new(big.Int)
					rows[j][k] = e
				}
				e.Sub(e, new(big.Int).Mul(f, d))
				e.Mod(e, q)
			}
			for k := range comb[j] {
				comb[j][k].Sub(comb[j][k], new(big.Int).Mul(f, comb[i][k]))
				comb[j][k].Mod(comb[j][k], q)
			}
		}
	}
	var out [][]*big.Int
	for i := range rows {
		if !used[i] {
			out = append(out, comb[i])
		}
	}
	return out
}

func init() {
	intrinsics[vpkg+"Kernel"] = func(m *M, _ *ssa.Function, a []Value) Value {
		m.noSpec("kernel")
		var xs []*Term
		for _, x := range a[0].(Slice).arr {
			xs = append(xs, m.bigOf(x))
		}
		q, ok := m.bigOf(a[1]).isConst()
		if !ok {
			panic(unsupported("a symbolic modulus"))
		}
		names := map[string]bool{}
		for _, x := range a[2].(Slice).arr {
			names[x.(string)] = true
		}
		k := m.kernel(xs, q, names)
		var out []Value
		var txt [][]string
		for _, r := range k {
			var vs []Value
			var ts []string
			for _, c := range r {
				vs = append(vs, m.newBig(m.u.konst(c)))
				ts = append(ts, c.String())
			}
			out = append(out, Slice{vs})
			txt = append(txt, ts)
		}
		b, _ := json.Marshal(txt)
		n := 0
		for m.tags[fmt.Sprintf("kernel:%d", n)] != nil {
			n++
		}
		m.tags[fmt.Sprintf("kernel:%d", n)] = string(b)
		debugf("  kernel of %d numbers: %d\n", len(xs), len(k))
		return Slice{out}
	}
}
