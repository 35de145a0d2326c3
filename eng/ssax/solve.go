package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Solver talks to z3 over a pipe; every query is sent whole.
type Solver struct {
	u       *U
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	timeout int // ms

	Queries, Unsat, Sat, Unknown int
	Time                         time.Duration
	Samples                      []string
	MaxMonos                     int
	cache                        map[string]string
	models                       map[string]map[string]*big.Int
	last                         map[string]*big.Int // a model met before
	facts                        func() []*F         // what is known of words
	factAtoms                    map[int][]int
	light                        bool // little effort on products
}

func newSolver(u *U) *Solver {
	return &Solver{u: u, bin: "z3-new", timeout: 20000, cache: map[string]string{}, models: map[string]map[string]*big.Int{}}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func num(c *big.Int) string {
	if c.Sign() < 0 {
		return "(- " + new(big.Int).Neg(c).String() + ")"
	}
	return c.String()
}

type printer struct {
	u      *U
	atoms  map[int]bool
	order  []int
	monos  map[string][]int
	morder []string
	abs    bool         // products are abstracted
	real   bool         // over the reals
	bv     bool         // bitwise operations are kept
	defs   map[int]bool // the atoms whose definitions are used, if not all are
	nm     int
}

func (p *printer) atom(id int) {
	if p.atoms[id] {
		return
	}
	p.atoms[id] = true
	a := p.u.atoms[id]
	if p.defs != nil && !p.defs[id] {
		p.order = append(p.order, id)
		return
	}
	if p.bv && a.op != 0 {
		p.collect(a.xa)
		p.collect(a.xb)
		p.order = append(p.order, id)
		return
	}
	p.u.def(a)
	switch a.kind {
	case 'f', 's', 'q':
		p.collect(a.num)
	case 'd':
		p.collect(a.num)
		p.collect(a.b)
	case 'i':
		p.collectF(a.cond)
		p.collect(a.a)
		p.collect(a.b)
	}
	p.order = append(p.order, id)
}

func (p *printer) collect(t *Term) {
	p.nm = max(p.nm, len(t.ms))
	for _, m := range t.ms {
		for _, a := range m.atoms {
			p.atom(a)
		}
		if len(m.atoms) > 1 {
			if _, ok := p.monos[m.key]; !ok {
				p.monos[m.key] = m.atoms
				p.morder = append(p.morder, m.key)
			}
		}
	}
}

func (p *printer) collectF(f *F) {
	if f.t != nil {
		p.collect(f.t)
	}
	for _, s := range f.sub {
		p.collectF(s)
	}
}

func an(id int) string     { return fmt.Sprintf("x%d", id) }
func mn(key string) string { return "m" + strings.ReplaceAll(key, "*", "_") }

func (p *printer) term(t *Term) string {
	if len(t.ms) == 0 {
		return "0"
	}
	var ps []string
	for _, m := range t.ms {
		v := ""
		switch len(m.atoms) {
		case 0:
			ps = append(ps, num(m.c))
			continue
		case 1:
			v = an(m.atoms[0])
		default:
			v = mn(m.key)
		}
		if m.c.Cmp(b1) == 0 {
			ps = append(ps, v)
		} else {
			ps = append(ps, "(* "+num(m.c)+" "+v+")")
		}
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return "(+ " + strings.Join(ps, " ") + ")"
}

func (p *printer) f(f *F) string {
	switch f.op {
	case 't':
		return "true"
	case 'b':
		return "|" + f.name + "|"
	case 'l':
		return "(<= " + p.term(f.t) + " 0)"
	case 'e':
		return "(= " + p.term(f.t) + " 0)"
	case '!':
		if p.real {
			return p.neg(f.sub[0])
		}
		return "(not " + p.f(f.sub[0]) + ")"
	}
	op := map[byte]string{'&': "and", '|': "or"}[f.op]
	var ps []string
	for _, s := range f.sub {
		ps = append(ps, p.f(s))
	}
	return "(" + op + " " + strings.Join(ps, " ") + ")"
}

// atomsOf collects the atoms under a formula, definitions included.
// neg negates a formula; integers that are not zero are one away from it.
func (p *printer) neg(f *F) string {
	switch f.op {
	case '!':
		return p.f(f.sub[0])
	case 'l':
		return "(<= 1 " + p.term(f.t) + ")"
	case 'e':
		t := p.term(f.t)
		return "(or (<= 1 " + t + ") (<= " + t + " (- 1)))"
	case '&', '|':
		op := map[byte]string{'&': "or", '|': "and"}[f.op]
		var ps []string
		for _, s := range f.sub {
			ps = append(ps, p.neg(s))
		}
		return "(" + op + " " + strings.Join(ps, " ") + ")"
	}
	return "(not " + p.f(f) + ")"
}

// relaxed is the text over the reals, with products abstracted: what has no real solution has
// no integer solution. Empty where there are square roots.
func (s *Solver) relaxed(fs []*F) string {
	t, p := s.textOpt(fs, true, nil, true)
	for _, id := range p.order {
		if s.u.atoms[id].kind == 's' {
			return ""
		}
	}
	return strings.ReplaceAll(t, " Int)", " Real)")
}

func (s *Solver) atomsOf(f *F) map[int]bool {
	p := &printer{u: s.u, atoms: map[int]bool{}, monos: map[string][]int{}}
	p.collectF(f)
	return p.atoms
}

// near gives the atoms at most so many definitions away from the formulas.
func (s *Solver) near(fs []*F, depth int) map[int]bool {
	defs := map[int]bool{}
	p := &printer{u: s.u, atoms: map[int]bool{}, monos: map[string][]int{}, defs: defs}
	for _, f := range fs {
		p.collectF(f)
	}
	from := 0
	for d := 0; d < depth && from < len(p.order); d++ {
		level := p.order[from:]
		from = len(p.order)
		for _, id := range level {
			if s.u.atoms[id].kind != 'v' {
				defs[id] = true
				p.atoms[id] = false
			}
		}
		for _, id := range level {
			if defs[id] {
				p.expand(id)
			}
		}
	}
	return defs
}

// free: a question about input or named words only.
func (s *Solver) free(goal *F) bool {
	q := &printer{u: s.u, atoms: map[int]bool{}, monos: map[string][]int{}, defs: map[int]bool{}}
	q.collectF(goal)
	for id := range q.atoms {
		if a := s.u.atoms[id]; a.kind != 'v' && (a.kind != 'q' || a.name != "word") {
			return false
		}
	}
	return true
}

// local gives the question, its definitions to a depth, and what is known of their atoms.
func (s *Solver) local(all []*F, goal *F, depth int) ([]*F, map[int]bool) {
	defs := s.near([]*F{goal}, depth)
	p := &printer{u: s.u, atoms: map[int]bool{}, monos: map[string][]int{}, defs: defs}
	p.collectF(goal)
	out := []*F{goal}
	for _, f := range all {
		if f == goal {
			continue
		}
		q := &printer{u: s.u, atoms: map[int]bool{}, monos: map[string][]int{}, defs: map[int]bool{}}
		q.collectF(f)
		in := true
		for a := range q.atoms {
			in = in && p.atoms[a]
		}
		for k := range q.monos {
			in = in && p.monos[k] != nil
		}
		if in {
			out = append(out, f)
		}
	}
	return out, defs
}

func (p *printer) expand(id int) {
	p.atoms[id] = true
	a := p.u.atoms[id]
	o := p.defs
	p.defs = map[int]bool{}
	p.u.def(a)
	switch a.kind {
	case 'f', 's', 'q':
		p.collect(a.num)
	case 'd':
		p.collect(a.num)
		p.collect(a.b)
	case 'i':
		p.collectF(a.cond)
		p.collect(a.a)
		p.collect(a.b)
	}
	p.defs = o
}

func (s *Solver) text(fs []*F, abs bool) (string, *printer) { return s.textDefs(fs, abs, nil) }

func (s *Solver) textDefs(fs []*F, abs bool, defs map[int]bool) (string, *printer) {
	return s.textOpt(fs, abs, defs, false)
}

func (s *Solver) textOpt(fs []*F, abs bool, defs map[int]bool, real bool) (string, *printer) {
	p := &printer{u: s.u, atoms: map[int]bool{}, monos: map[string][]int{}, abs: abs, defs: defs, real: real}
	for _, f := range fs {
		p.collectF(f)
	}
	var sb strings.Builder
	for _, id := range p.order {
		fmt.Fprintf(&sb, "(declare-const %s Int)\n", an(id))
	}
	if len(p.morder) > 0 {
		for _, k := range p.morder {
			fmt.Fprintf(&sb, "(declare-const %s Int)\n", mn(k))
			at := p.monos[k]
			if abs {
				one := &Term{ms: []mono{{k, at, b1}}}
				lo, hi := s.u.naive(one)
				fmt.Fprintf(&sb, "(assert (and (<= %s %s) (<= %s %s)))\n", num(lo), mn(k), mn(k), num(hi))
				if len(at) == 2 && at[0] != at[1] {
					// McCormick: (x-xl)(y-yl)>=0 and its kin
					x, y := s.u.atoms[at[0]], s.u.atoms[at[1]]
					for i, b := range [][2]*big.Int{{x.lo, y.lo}, {x.hi, y.hi}, {x.lo, y.hi}, {x.hi, y.lo}} {
						if i == 0 && x.lo.Sign() == 0 && y.lo.Sign() == 0 || i == 1 && len(p.morder) > 60 {
							continue
						}
						op := ">="
						if (b[0] == x.lo) != (b[1] == y.lo) {
							op = "<="
						}
						fmt.Fprintf(&sb, "(assert (%s (+ %s (* %s %s) (* %s %s) %s) 0))\n", op, mn(k),
							num(new(big.Int).Neg(b[1])), an(at[0]), num(new(big.Int).Neg(b[0])), an(at[1]), num(new(big.Int).Mul(b[0], b[1])))
					}
				}
			} else {
				var ps []string
				for _, a := range at {
					ps = append(ps, an(a))
				}
				fmt.Fprintf(&sb, "(assert (= %s (* %s)))\n", mn(k), strings.Join(ps, " "))
			}
		}
	}
	for _, id := range p.order {
		a := s.u.atoms[id]
		x := an(id)
		fmt.Fprintf(&sb, "(assert (and (<= %s %s) (<= %s %s)))\n", num(a.lo), x, x, num(a.hi))
		if defs != nil && !defs[id] {
			continue
		}
		switch a.kind {
		case 'f':
			n := p.term(a.num)
			fmt.Fprintf(&sb, "(assert (let ((n %s)) (and (<= (* %s %s) n) (<= n (+ (* %s %s) %s)))))\n", n, num(a.m), x, num(a.m), x, num(new(big.Int).Sub(a.m, b1)))
		case 'i':
			fmt.Fprintf(&sb, "(assert (= %s (ite %s %s %s)))\n", x, p.f(a.cond), p.term(a.a), p.term(a.b))
		case 'd': // 0 <= remainder < divisor
			fmt.Fprintf(&sb, "(assert (and (<= 0 %s) (< %s 0)))\n", p.term(a.num), p.term(a.b))
		case 'q':
			fmt.Fprintf(&sb, "(assert (= %s %s))\n", x, p.term(a.num))
		case 's':
			n := p.term(a.num)
			fmt.Fprintf(&sb, "(assert (and (<= (* %s %s) %s) (< %s (* (+ %s 1) (+ %s 1)))))\n", x, x, n, n, x, x)
		}
	}
	for _, f := range fs {
		fmt.Fprintf(&sb, "(assert %s)\n", p.f(f))
	}
	s.MaxMonos = max(s.MaxMonos, p.nm)
	return sb.String(), p
}

func (s *Solver) ask(text string, timeout int, vars []string) (string, map[string]*big.Int) {
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	var sb strings.Builder
	sb.WriteString("(reset)\n(set-option :timeout ")
	fmt.Fprint(&sb, timeout)
	sb.WriteString(")\n(set-option :model_evaluator.completion true)\n")
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n(echo \"done\")\n")
	if os.Getenv("SSAX_DUMP") != "" {
		os.WriteFile(os.Getenv("SSAX_DUMP"), []byte(sb.String()), 0o644)
	}
	io.WriteString(s.in, sb.String())
	res, bad := "", false
	defer func() {
		if os.Getenv("SSAX_DUMP") != "" && res != "sat" && res != "unsat" {
			os.WriteFile(os.Getenv("SSAX_DUMP")+".unknown", []byte(sb.String()), 0o644)
		}
	}()
	killed := false
	timer := time.AfterFunc(time.Duration(timeout)*time.Millisecond+10*time.Second, func() { killed = true; s.cmd.Process.Kill() })
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			timer.Stop()
			s.stop()
			_ = killed
			return "unknown", nil
		}
		l = strings.TrimSpace(l)
		if l == "done" {
			break
		}
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			res = l
		} else if strings.HasPrefix(l, "(error") {
			debugf("solver: %s\n", l)
			bad = true
		}
	}
	timer.Stop()
	if res == "timeout" || res == "" || bad {
		res = "unknown"
	}
	if res != "sat" || len(vars) == 0 {
		return res, nil
	}
	io.WriteString(s.in, "(get-value ("+strings.Join(vars, " ")+"))\n(echo \"done\")\n")
	var mb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.stop()
			return "unknown", nil
		}
		if strings.TrimSpace(l) == "done" {
			break
		}
		mb.WriteString(l)
	}
	m := map[string]*big.Int{}
	for _, part := range splitPairs(mb.String()) {
		m[part[0]] = parseNum(part[1])
	}
	return res, m
}

// splitPairs parses ((x 1) (y (- 2))).
func splitPairs(t string) [][2]string {
	var out [][2]string
	t = strings.TrimSpace(t)
	if len(t) < 2 {
		return nil
	}
	t = t[1 : len(t)-1]
	depth, st := 0, 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			if depth == 0 {
				st = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 {
				x := strings.TrimSpace(t[st+1 : i])
				k := strings.IndexAny(x, " \n")
				if k > 0 {
					out = append(out, [2]string{x[:k], strings.TrimSpace(x[k:])})
				}
			}
		}
	}
	return out
}

func parseNum(t string) *big.Int {
	neg := strings.Contains(t, "-")
	if k := strings.Index(t, "#x"); k >= 0 {
		d := strings.Trim(t[k+2:], ") \n")
		v, _ := new(big.Int).SetString(d, 16)
		if v.Bit(4*len(d)-1) == 1 {
			v.Sub(v, pow2(uint(4*len(d))))
		}
		return v
	}
	if k := strings.Index(t, "#b"); k >= 0 {
		d := strings.Trim(t[k+2:], ") \n")
		v, _ := new(big.Int).SetString(d, 2)
		if v.Bit(len(d)-1) == 1 {
			v.Sub(v, pow2(uint(len(d))))
		}
		return v
	}
	t = strings.Trim(t, "()- \n")
	v, ok := new(big.Int).SetString(t, 10)
	if !ok {
		return new(big.Int)
	}
	if neg {
		v.Neg(v)
	}
	return v
}

// cone keeps the conditions that share atoms with the goal, transitively.
func (s *Solver) cone(pc []*F, goal []*F) []*F {
	at := map[int]bool{}
	for _, g := range goal {
		for a := range s.atomsOf(g) {
			at[a] = true
		}
	}
	sets := make([]map[int]bool, len(pc))
	for i, f := range pc {
		sets[i] = s.atomsOf(f)
	}
	in := make([]bool, len(pc))
	for again := true; again; {
		again = false
		for i := range pc {
			if in[i] {
				continue
			}
			hit := false
			for a := range sets[i] {
				if at[a] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				again = true
				for a := range sets[i] {
					at[a] = true
				}
			}
		}
	}
	var out []*F
	for i, f := range pc {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

// known gives the facts about the atoms of a query.
func (s *Solver) known(fs []*F) (out []*F) {
	all := s.facts()
	if len(all) == 0 {
		return nil
	}
	if s.factAtoms == nil {
		s.factAtoms = map[int][]int{}
	}
	p := &printer{u: s.u, atoms: map[int]bool{}, monos: map[string][]int{}}
	for _, f := range fs {
		p.collectF(f)
	}
	for _, f := range all {
		at, ok := s.factAtoms[f.id]
		if !ok {
			for a := range s.atomsOf(f) {
				at = append(at, a)
			}
			s.factAtoms[f.id] = at
		}
		in := true
		for _, a := range at {
			if !p.atoms[a] {
				in = false
				break
			}
		}
		if in {
			out = append(out, f)
		}
	}
	return out
}

// cvc5 tells whether a query with products is unsatisfiable by tangent planes.
func (s *Solver) cvc5(text string, timeout int) bool {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	c := exec.Command("cvc5", "--lang=smt2", "--nl-ext-tplanes", fmt.Sprintf("--tlimit=%d", timeout), "-")
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n")
	out, _ := c.Output()
	return strings.TrimSpace(string(out)) == "unsat"
}

// Check decides the satisfiability of pc and goal. With model, the values of all atoms
// are returned for sat.
func (s *Solver) Check(pc []*F, goal *F, timeout int, model bool) (string, map[string]*big.Int) {
	if goal.isFalse() {
		return "unsat", nil
	}
	all := append([]*F{}, pc...)
	if !model {
		all = s.cone(pc, []*F{goal})
	}
	all = append(all, goal)
	all = append(all, s.known(all)...)
	ids := make([]int, len(all))
	for i, f := range all {
		ids[i] = f.id
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids, model, timeout, s.light)
	if r, ok := s.cache[key]; ok {
		return r, s.models[key]
	}
	s.Queries++
	text, p := s.text(all, true)
	if len(s.Samples) < 6 && len(text) < 4000 {
		s.Samples = append(s.Samples, text)
	}
	var vars []string
	if model {
		for _, id := range p.order {
			if s.u.atoms[id].kind == 'v' {
				vars = append(vars, an(id))
			}
		}
	}
	how := ""
	res, m := "", map[string]*big.Int(nil)
	if g := s.guess(all, p.order); g != nil {
		res, how = "sat", " (met)"
		s.last = map[string]*big.Int{}
		m = map[string]*big.Int{}
		for _, id := range p.order {
			if a := s.u.atoms[id]; a.kind == 'v' {
				m[an(id)] = g[id]
				s.last[a.name] = g[id]
			}
		}
		if !model {
			m = nil
		}
	} else {
		// first with the definitions nearest to the question only
		if len(p.order) > 8 {
			for d := 1; d <= 2 && res != "unsat"; d++ {
				fs, defs := s.local(all, goal, d)
				t, _ := s.textOpt(fs, true, defs, true)
				if r, _ := s.ask(strings.ReplaceAll(t, " Int)", " Real)"), 1000, nil); r == "unsat" {
					res, how = r, " (local)"
				}
			}
			for d := 1; d <= 3 && res != "unsat" && (d == 1 || !s.light || len(p.morder) <= 8); d++ {
				defs := s.near(all, d)
				if len(defs) == 0 {
					continue
				}
				t, _ := s.textDefs(all, true, defs)
				if r, _ := s.ask(t, 400, nil); r == "unsat" {
					res, how = r, " (near)"
				}
			}
		}
		if res != "unsat" && s.light && len(p.morder) > 40 && s.free(goal) {
			res, how = "unknown", " (light)"
		}
		if res == "" {
			if t := s.relaxed(all); t != "" {
				r, _ := s.ask(t, map[bool]int{false: 2000, true: 8000}[len(p.morder) > 40], nil)
				if r == "unsat" {
					res, how = r, " (relaxed)"
				} else if s.light && len(p.morder) > 8 {
					res, how = "unknown", " (light)"
				}
			}
		}
		if res == "" && s.light {
			timeout = min(timeout, 700)
		}
		if res == "" {
			res, m = s.ask(text, timeout, vars)
		}
		if res == "unknown" && s.light {
			how = " (light)"
		}
	}
	if len(p.morder) > 0 && res != "unsat" && how == "" {
		text, _ = s.text(all, false)
		res, m = s.ask(text, max(timeout/4, min(timeout, 4000)), vars)
		if res == "unknown" && s.cvc5(text, timeout) {
			res, how = "unsat", " (cvc5)"
		}
		if res == "unknown" && timeout > 4000 {
			res, m = s.ask(text, timeout, vars)
		}
	}
	if res == "unknown" && how == "" {
		if t := s.bvText(all, 400); t != "" {
			r2, m2 := s.ask(t, timeout, vars)
			if r2 != "unknown" {
				res, m, how = r2, m2, " (bits)"
			}
		}
	}
	debugf("  query %d atoms %d products %d conds: %s%s\n", len(p.order), len(p.morder), len(all), res, how)
	switch res {
	case "unsat":
		s.Unsat++
	case "sat":
		s.Sat++
	default:
		s.Unknown++
	}
	if m != nil {
		named := map[string]*big.Int{}
		for _, id := range p.order {
			if a := s.u.atoms[id]; a.kind == 'v' {
				named[a.name] = m[an(id)]
			}
		}
		m = named
	} else if model && res == "sat" {
		m = map[string]*big.Int{}
	}
	s.cache[key] = res
	s.models[key] = m
	return res, m
}
