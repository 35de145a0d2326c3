// Ill-formed assignments: wrong lengths, wrong numbers of witnesses, other circuit types.
// The shape of an assignment is the choice that is explored; its values stay symbolic.
package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/hlib"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

type E = *sym.S
type W = circ.W
type PW = circ.PW

type Leaf struct {
	X W
	Y PW
}

type Deep struct {
	Tag  int
	In   *Leaf
	Rows [2][]W
	Pub  [][]PW
}

// Nest has witnesses in every kind of container the walkers know.
type Nest struct {
	A    W
	P    PW
	S    Leaf
	Ptr  *Leaf
	L    []W
	LP   []PW
	Arr  [2]Leaf
	I    any
	LI   []any
	D    *Deep
	Last PW
	End  W
}

// Other has the fields of Nest but is another type.
type Other Nest

func blank() *Nest {
	return &Nest{Ptr: &Leaf{}, L: make([]W, 2), LP: make([]PW, 2), I: &Leaf{}, LI: []any{&Leaf{}, &Leaf{}},
		D: &Deep{In: &Leaf{}, Rows: [2][]W{make([]W, 1), make([]W, 2)}, Pub: [][]PW{make([]PW, 1), make([]PW, 1)}}}
}

// secrets and publics are the places of the vectors in declaration order.
func (c *Nest) secrets() []*W {
	return []*W{&c.A, &c.S.X, &c.Ptr.X, &c.L[0], &c.L[1], &c.Arr[0].X, &c.Arr[1].X, &c.I.(*Leaf).X, &c.LI[0].(*Leaf).X, &c.LI[1].(*Leaf).X,
		&c.D.In.X, &c.D.Rows[0][0], &c.D.Rows[1][0], &c.D.Rows[1][1], &c.End}
}

func (c *Nest) publics() []*PW {
	return []*PW{&c.P, &c.S.Y, &c.Ptr.Y, &c.LP[0], &c.LP[1], &c.Arr[0].Y, &c.Arr[1].Y, &c.I.(*Leaf).Y, &c.LI[0].(*Leaf).Y, &c.LI[1].(*Leaf).Y,
		&c.D.In.Y, &c.D.Pub[0][0], &c.D.Pub[1][0], &c.Last}
}

// Define ties every secret vector to two public ones, each with its own factors.
func (c *Nest) Define(ctx *circ.Ctx) {
	s, p := c.secrets(), c.publics()
	for i := range s {
		var k circ.AC
		k.AddTermWithConst(sym.Int(-1), nil, *s[i])
		k.AddTermWithConst(sym.Int(int64(i+2)), *p[i%len(p)])
		k.AddTermWithConst(sym.Int(int64(3*i+1)), *p[(i+5)%len(p)])
		ctx.AddArithmeticConstraint(k)
	}
}

func (c *Other) Define(ctx *circ.Ctx) { (*Nest)(c).Define(ctx) }

// ByValue can be passed without a pointer.
type ByValue struct {
	A W
	P PW
}

func (c ByValue) Define(ctx *circ.Ctx) {
	var k circ.AC
	k.AddTermWithConst(sym.Int(1), nil, c.A)
	k.AddTermWithConst(sym.Int(1), c.P)
	ctx.AddArithmeticConstraint(k)
}

const n = 4

func fill(c *Nest) {
	p := c.publics()
	for i := range p {
		*p[i] = circ.Vec(fmt.Sprintf("p%d_", i), n)
	}
	s := c.secrets()
	for i := range s {
		v := make([]E, n)
		for j := range v {
			a := new(sym.S).Mul(sym.Int(int64(i+2)), (*p[i%len(p)])[j])
			v[j] = a.Add(a, new(sym.S).Mul(sym.Int(int64(3*i+1)), (*p[(i+5)%len(p)])[j]))
		}
		*s[i] = v
	}
}

func resize(v []E, l int) []E {
	if l < 0 {
		return nil
	}
	out := make([]E, l)
	for i := range out {
		if i < len(v) {
			out[i] = v[i]
		} else {
			out[i] = sym.In(fmt.Sprintf("extra%d", i))
		}
	}
	return out
}

// change is one way to spoil an assignment.
type change struct {
	name string
	// prove/verify: which side has to refuse
	prove, verify bool
	do            func(c *Nest) circuit
}

type circuit = buckler.Circuit[E]

type result struct {
	compile error
	prove   error
	proved  bool
	verify  bool
	vpanic  any
	ppanic  any
}

func attempt(ch *change) (r result) {
	prv, vrf, err := buckler.Compile(n, circuit(blank()), []byte("crs"))
	if err != nil {
		r.compile = err
		return
	}
	good := blank()
	fill(good)
	pf, err := prv.Prove(good)
	if err != nil {
		r.compile = err
		return
	}
	if ch == nil {
		r.proved = true
		r.verify = vrf.Verify(good, pf)
		return
	}
	bad := blank()
	fill(bad)
	x := ch.do(bad)
	if ch.prove {
		func() {
			defer func() { r.ppanic = recover(); unsupported(r.ppanic) }()
			pf, err := prv.Prove(x)
			r.prove, r.proved = err, err == nil && pf != nil
		}()
	}
	if ch.verify {
		func() {
			defer func() { r.vpanic = recover(); unsupported(r.vpanic) }()
			r.verify = vrf.Verify(x, pf)
		}()
	}
	return
}

func unsupported(p any) {
	if u, ok := p.(sym.Unsupported); ok {
		panic(u)
	}
}

// judge says what is wrong with the outcome, or "".
func judge(ch *change, r result) string {
	switch {
	case r.compile != nil:
		return "a well-formed circuit is refused: " + r.compile.Error()
	case ch == nil && !r.verify:
		return "a well-formed satisfying assignment is not accepted"
	case ch == nil:
		return ""
	case r.ppanic != nil:
		return fmt.Sprintf("Prove panics instead of returning an error: %v", r.ppanic)
	case r.vpanic != nil:
		return fmt.Sprintf("Verify panics instead of rejecting: %v", r.vpanic)
	case ch.prove && r.proved:
		return "Prove accepts it"
	case ch.prove && r.prove == nil:
		return "Prove returns neither a proof nor an error"
	case ch.verify && r.verify:
		return "Verify accepts it"
	}
	return ""
}

func runCase(ch *change) {
	nm := "well-formed"
	if ch != nil {
		nm = ch.name
	}
	name := hlib.Case("%s", nm)
	if !hlib.Want(name) {
		return
	}
	runPolicy(ch, nm, name, false)
	if ch == nil && len(hlib.R.Violations) == 0 {
		runPolicy(ch, nm, name, true)
	}
}

func runPolicy(ch *change, nm, name string, decide bool) {
	sym.Reset()
	// what an ill-formed assignment meets must not depend on the challenges' luck
	policy := sym.Generic
	if ch == nil && decide {
		policy = sym.Decide
	}
	paths, complete := sym.Explore(policy, 8, func() any { return attempt(ch) })
	if !complete {
		hlib.Reduce("%s: path limit", name)
	}
	for i, p := range paths {
		hlib.R.Obligations++
		what := ""
		if p.Panic != nil {
			if u, ok := p.Panic.(sym.Unsupported); ok {
				hlib.Reduce("%s: %v", name, u)
				continue
			}
			what = fmt.Sprintf("panic: %v", p.Panic)
		} else {
			what = judge(ch, p.Result.(result))
		}
		if what == "" {
			hlib.R.Discharged++
			if i > 0 {
				continue
			}
		}
		r := sym.Solve(p.PC, name)
		if r.Status == "unsat" {
			if what != "" {
				hlib.R.Discharged++
			}
			continue
		}
		if r.Status != "sat" {
			hlib.Reduce("%s: path undecided", name)
			continue
		}
		m := r.Model
		if m == nil {
			m = map[string]*big.Int{}
		}
		res, pan := sym.RunConcrete(&sym.Concrete{Model: m, Native: true}, func() any { return attempt(ch) })
		got := ""
		if pan != nil {
			got = fmt.Sprintf("panic: %v", pan)
		} else {
			got = judge(ch, res.(result))
		}
		switch {
		case what == "" && got == "":
			hlib.R.Witnesses++
			hlib.R.Validated++
		case got != "":
			hlib.Violate(hlib.Violation{Key: nm, Case: name, What: nm + ": " + got, Model: hlib.Model(m), Replay: got, Real: true})
		default:
			hlib.Reduce("%s: %s does not replay", name, what)
		}
	}
}

// byValue: circuits that are not pointers, and no circuit at all.
func byValue() {
	name := hlib.Case("not a pointer")
	if !hlib.Want(name) {
		return
	}
	sym.Reset()
	hlib.R.Obligations++
	try := func() any {
		prv, vrf, err := buckler.Compile(n, circuit(&ByValue{}), []byte("crs"))
		if err != nil {
			return err.Error()
		}
		a := circ.Vec("a", n)
		b := make([]E, n)
		for i := range b {
			b[i] = new(sym.S).Neg(a[i])
		}
		pf, err := prv.Prove(&ByValue{A: a, P: b})
		if err != nil {
			return err.Error()
		}
		for i, x := range []circuit{ByValue{A: a, P: b}, nil, (*ByValue)(nil)} {
			if _, err := prv.Prove(x); err == nil {
				return fmt.Sprintf("Prove accepts variant %d", i)
			}
			if vrf.Verify(x, pf) {
				return fmt.Sprintf("Verify accepts variant %d", i)
			}
		}
		return ""
	}
	paths, _ := sym.Explore(sym.Decide, 8, try)
	for _, p := range paths {
		what, _ := p.Result.(string)
		if p.Panic != nil {
			what = fmt.Sprintf("panic: %v", p.Panic)
		}
		if what != "" {
			hlib.Violate(hlib.Violation{Key: name, Case: name, What: "an assignment that is not a pointer to the compiled circuit: " + what, Replay: what, Real: true})
			return
		}
	}
	hlib.R.Discharged++
}

func main() {
	defer hlib.Write()
	hlib.R.Functions = []string{"buckler.Compile", "buckler.walker.firstWalk", "buckler.walker.prvWalk", "buckler.walker.vrfWalk", "buckler.Prover.Prove", "buckler.Verifier.Verify"}
	runCase(nil)
	lens := []int{-1, 0, 1, n - 1, n + 1, 2 * n}
	ns, np := len(blank().secrets()), len(blank().publics())
	for i := range ns {
		for _, l := range lens {
			runCase(&change{fmt.Sprintf("secret vector %d of length %d", i, l), true, false, func(c *Nest) circuit {
				s := c.secrets()
				*s[i] = resize(*s[i], l)
				return c
			}})
		}
	}
	for i := range np {
		for _, l := range lens {
			runCase(&change{fmt.Sprintf("public vector %d of length %d", i, l), true, true, func(c *Nest) circuit {
				s := c.publics()
				*s[i] = resize(*s[i], l)
				return c
			}})
		}
	}
	// lengths that add up
	for i := range ns {
		runCase(&change{fmt.Sprintf("secret vectors %d and %d of lengths %d and %d", i, (i+1)%ns, n-1, n+1), true, false, func(c *Nest) circuit {
			s := c.secrets()
			*s[i], *s[(i+1)%ns] = resize(*s[i], n-1), resize(*s[(i+1)%ns], n+1)
			return c
		}})
	}
	for i := range np {
		runCase(&change{fmt.Sprintf("public vectors %d and %d of lengths %d and %d", i, (i+1)%np, n-1, n+1), true, true, func(c *Nest) circuit {
			s := c.publics()
			*s[i], *s[(i+1)%np] = resize(*s[i], n-1), resize(*s[(i+1)%np], n+1)
			return c
		}})
	}
	// numbers of vectors
	sv := func() W { return circ.Vec("more", n) }
	pv := func() PW { return PW(circ.Vec("more", n)) }
	for _, ch := range []change{
		{"no secret vectors in a slice", true, false, func(c *Nest) circuit { c.L = nil; return c }},
		{"one secret vector less in a slice", true, false, func(c *Nest) circuit { c.L = c.L[:1]; return c }},
		{"one secret vector more in a slice", true, false, func(c *Nest) circuit { c.L = append(c.L, sv()); return c }},
		{"one public vector less in a slice", true, true, func(c *Nest) circuit { c.LP = c.LP[:1]; return c }},
		{"no public vectors in a slice", true, true, func(c *Nest) circuit { c.LP = nil; return c }},
		{"one public vector more in a slice", true, true, func(c *Nest) circuit { c.LP = append(c.LP, pv()); return c }},
		{"many public vectors more in a slice", true, true, func(c *Nest) circuit {
			for range 9 {
				c.LP = append(c.LP, pv())
			}
			return c
		}},
		{"nil pointer", true, true, func(c *Nest) circuit { c.Ptr = nil; return c }},
		{"nil interface", true, true, func(c *Nest) circuit { c.I = nil; return c }},
		{"one interface less", true, true, func(c *Nest) circuit { c.LI = c.LI[:1]; return c }},
		{"one interface more", true, true, func(c *Nest) circuit { c.LI = append(c.LI, &Leaf{sv(), pv()}); return c }},
		{"one interface nil", true, true, func(c *Nest) circuit { c.LI[1] = nil; return c }},
		{"nil inner struct", true, true, func(c *Nest) circuit { c.D = nil; return c }},
		{"nested secret row shorter", true, false, func(c *Nest) circuit { c.D.Rows[1] = c.D.Rows[1][:1]; return c }},
		{"nested secret row longer", true, false, func(c *Nest) circuit { c.D.Rows[0] = append(c.D.Rows[0], sv()); return c }},
		{"nested public rows longer", true, true, func(c *Nest) circuit { c.D.Pub = append(c.D.Pub, []PW{pv()}); return c }},
		{"nested public rows shorter", true, true, func(c *Nest) circuit { c.D.Pub = c.D.Pub[:1]; return c }},
		{"everything missing", true, true, func(c *Nest) circuit { return &Nest{} }},
		{"nil assignment", true, true, func(c *Nest) circuit { return (*Nest)(nil) }},
		{"another type with the same fields", true, true, func(c *Nest) circuit { return (*Other)(c) }},
		{"another circuit", true, true, func(c *Nest) circuit { return &ByValue{A: sv(), P: pv()} }},
	} {
		runCase(&ch)
	}
	byValue()
}
