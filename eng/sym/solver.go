package sym

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Formula is a quantifier-free formula over finite-field (dis)equalities.
type Formula struct {
	Op   string // "eq", "ne", "or", "and"
	A, B *Poly
	Sub  []Formula
}

func Eq(a, b *Poly) Formula     { return Formula{Op: "eq", A: a, B: b} }
func Ne(a, b *Poly) Formula     { return Formula{Op: "ne", A: a, B: b} }
func Or(fs ...Formula) Formula  { return Formula{Op: "or", Sub: fs} }
func And(fs ...Formula) Formula { return Formula{Op: "and", Sub: fs} }
func (f Formula) String() string {
	switch f.Op {
	case "eq":
		return f.A.String() + " == " + f.B.String()
	case "ne":
		return f.A.String() + " != " + f.B.String()
	}
	var s []string
	for _, x := range f.Sub {
		s = append(s, x.String())
	}
	return "(" + strings.Join(s, " "+f.Op+" ") + ")"
}

// MapF applies g to every polynomial of f.
func MapF(f Formula, g func(*Poly) *Poly) Formula {
	o := Formula{Op: f.Op}
	if f.A != nil {
		o.A, o.B = g(f.A), g(f.B)
	}
	for _, x := range f.Sub {
		o.Sub = append(o.Sub, MapF(x, g))
	}
	return o
}

// Holds evaluates f under an assignment.
func (f Formula) Holds(a map[string]*big.Int) bool {
	switch f.Op {
	case "eq":
		return f.A.Eval(a).Cmp(f.B.Eval(a)) == 0
	case "ne":
		return f.A.Eval(a).Cmp(f.B.Eval(a)) != 0
	case "or":
		for _, x := range f.Sub {
			if x.Holds(a) {
				return true
			}
		}
		return false
	}
	for _, x := range f.Sub {
		if !x.Holds(a) {
			return false
		}
	}
	return true
}

// Result is the answer of the solver.
type Result struct {
	Status string // "sat", "unsat", "unknown"
	Model  map[string]*big.Int
	Detail string
}

// Stats counts the work of this process.
var Stats struct {
	Queries, Unsat, Sat, Unknown int
	Paths                        int
	SolverTime                   time.Duration
	MaxMonomials                 int
	Samples                      []string
}

// Timeout is the limit of one query in seconds.
var Timeout = 60

// SolverCmd is the solver binary.
var SolverCmd = func() string {
	if s := os.Getenv("VERIF_FF_SOLVER"); s != "" {
		return s
	}
	return "z3-new"
}()

func emitPoly(w *bytes.Buffer, p *Poly, seen map[int32]bool) {
	if len(p.t) == 0 {
		w.WriteString("(as ff0 F)")
		return
	}
	if len(p.t) > 1 {
		w.WriteString("(ff.add")
	}
	for _, t := range p.t {
		m := tab.monos[t.m]
		if len(p.t) > 1 {
			w.WriteByte(' ')
		}
		n := 0
		for _, x := range m {
			n += int(x.e)
			seen[x.v] = true
		}
		one := t.c == feOne
		if n == 0 || !one || n > 1 {
			if n > 0 {
				w.WriteString("(ff.mul ")
			}
			if n == 0 || !one {
				fmt.Fprintf(w, "(as ff%s F)", t.c.Big().String())
			}
		}
		for _, x := range m {
			for k := int32(0); k < x.e; k++ {
				fmt.Fprintf(w, " |%s|", tab.vars[x.v].Name)
			}
		}
		if n > 1 || (n == 1 && !one) {
			w.WriteByte(')')
		}
	}
	if len(p.t) > 1 {
		w.WriteByte(')')
	}
	if len(p.t) > Stats.MaxMonomials {
		Stats.MaxMonomials = len(p.t)
	}
}

func emit(w *bytes.Buffer, f Formula, seen map[int32]bool) {
	switch f.Op {
	case "eq", "ne":
		if f.Op == "ne" {
			w.WriteString("(not ")
		}
		w.WriteString("(= ")
		emitPoly(w, f.A, seen)
		w.WriteByte(' ')
		emitPoly(w, f.B, seen)
		w.WriteByte(')')
		if f.Op == "ne" {
			w.WriteByte(')')
		}
	default:
		if len(f.Sub) == 0 {
			if f.Op == "or" {
				w.WriteString("false")
			} else {
				w.WriteString("true")
			}
			return
		}
		w.WriteString("(" + f.Op)
		for _, x := range f.Sub {
			w.WriteByte(' ')
			emit(w, x, seen)
		}
		w.WriteByte(')')
	}
}

var modelRe = regexp.MustCompile(`\(define-fun (\|[^|]*\||\S+) \(\) (?:F|\(_ FiniteField \d+\))\s*\(as ff(\d+) `)

// Solve asks for a model of the conjunction of fs. The side conditions v^d = v^t of
// rewritten variables are first left out (they are already used by the normal forms); only
// if that weaker query is satisfiable are they added.
func Solve(fs []Formula, what string) Result {
	Ticks.Add(1)
	Solving.Store(true)
	defer Solving.Store(false)
	if r, ok := specialised(fs, what); ok {
		return r
	}
	r := solve1(fs, what, false)
	if r.Status == "unsat" {
		return r
	}
	for i := range tab.vars {
		if tab.vars[i].Deg != 0 {
			return solve1(fs, what+" (with side conditions)", true)
		}
	}
	return r
}

// specialised looks for a model of a large query with most variables fixed: the solver is
// asked about the instance. Only a model is an answer.
func specialised(fs []Formula, what string) (Result, bool) {
	size := 0
	vars := map[string]bool{}
	var polys func(f Formula)
	polys = func(f Formula) {
		if f.A != nil {
			size += len(f.A.t) + len(f.B.t)
			for _, p := range []*Poly{f.A, f.B} {
				for _, v := range p.Vars() {
					vars[v] = true
				}
			}
		}
		for _, x := range f.Sub {
			polys(x)
		}
	}
	for _, f := range fs {
		polys(f)
	}
	if size < 200 {
		return Result{}, false
	}
	free := map[string]bool{}
	for _, f := range fs {
		if f.Op != "eq" {
			continue
		}
		d := SubP(f.A, f.B)
		for _, v := range d.Vars() {
			if free[v] || tab.vars[tab.byName[v]].Deg != 0 {
				continue
			}
			ds := d.Degs(v)
			lin := ds[1] != nil
			for e := range ds {
				lin = lin && e <= 1
			}
			if !lin {
				continue
			}
			free[v] = true
			break
		}
	}
	for try := range 2 {
		fix := map[string]*Poly{}
		for v := range vars {
			if free[v] {
				continue
			}
			h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s", try, v)))
			x := new(big.Int).SetBytes(h[:])
			if tab.vars[tab.byName[v]].Deg != 0 {
				x.SetInt64(int64(h[0] & 1))
			}
			fix[v] = ConstPoly(FeFromBig(x))
		}
		var gs []Formula
		for _, f := range fs {
			gs = append(gs, MapF(f, func(p *Poly) *Poly { return Subst(p, fix) }))
		}
		old := Timeout
		Timeout = 10
		r := solve1(gs, what+" (instance)", true)
		Timeout = old
		if r.Status != "sat" {
			continue
		}
		for v, p := range fix {
			c, _ := p.IsConst()
			r.Model[v] = c.Big()
		}
		for _, f := range fs {
			if !f.Holds(r.Model) {
				return Result{}, false
			}
		}
		return r, true
	}
	return Result{}, false
}

func solve1(fs []Formula, what string, side bool) Result {
	var body bytes.Buffer
	seen := map[int32]bool{}
	for _, f := range fs {
		body.WriteString("(assert ")
		emit(&body, f, seen)
		body.WriteString(")\n")
	}
	var q bytes.Buffer
	fmt.Fprintf(&q, "(define-sort F () (_ FiniteField %s))\n", P)
	order := make([]int, 0, len(seen))
	for v := range seen {
		order = append(order, int(v))
	}
	sort.Ints(order)
	for _, v := range order {
		fmt.Fprintf(&q, "(declare-const |%s| F)\n", tab.vars[v].Name)
	}
	// side conditions of the rewriting rules
	for _, v := range order {
		if va := tab.vars[v]; side && va.Deg != 0 {
			n := "|" + va.Name + "|"
			fmt.Fprintf(&q, "(assert (= (ff.mul%s (as ff1 F)) (ff.mul%s (as ff1 F))))\n", strings.Repeat(" "+n, int(va.Deg)), strings.Repeat(" "+n, int(va.To)))
		}
	}
	q.Write(body.Bytes())
	q.WriteString("(check-sat)\n(get-model)\n")
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, Stats.Queries), q.Bytes(), 0o644)
	}

	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(Timeout+5)*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, SolverCmd, "-in", fmt.Sprintf("-T:%d", Timeout))
	cmd.Stdin = &q
	out, _ := cmd.CombinedOutput()
	dt := time.Since(t0)
	Stats.SolverTime += dt
	Stats.Queries++
	s := string(out)
	first, rest, _ := strings.Cut(s, "\n")
	r := Result{Status: "unknown", Detail: first}
	switch strings.TrimSpace(first) {
	case "unsat":
		r.Status = "unsat"
		Stats.Unsat++
	case "sat":
		r.Status = "sat"
		r.Model = map[string]*big.Int{}
		for _, m := range modelRe.FindAllStringSubmatch(rest, -1) {
			v, _ := new(big.Int).SetString(m[2], 10)
			r.Model[strings.Trim(m[1], "|")] = v
		}
		for _, f := range fs {
			if !f.Holds(r.Model) {
				r.Status = "unknown"
				r.Detail = "the solver's model does not satisfy the query"
			}
		}
		if r.Status == "sat" {
			Stats.Sat++
		}
	}
	if len(Stats.Samples) < 6 || r.Status == "unknown" && len(Stats.Samples) < 12 {
		Stats.Samples = append(Stats.Samples, fmt.Sprintf("%s: %d assertions, %d variables, %d bytes -> %s in %dms", what, len(fs), len(seen), body.Len(), r.Status, dt.Milliseconds()))
	}
	Debugf("[solve] %s: %d assertions, %d vars, %d bytes -> %s (%s) %v\n", what, len(fs), len(seen), body.Len(), r.Status, r.Detail, dt)
	return r
}
