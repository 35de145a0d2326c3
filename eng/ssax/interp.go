package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugOn = os.Getenv("VERIF_DEBUG") != ""

func debugf(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

// M is a machine: one harness run.
type M struct {
	u      *U
	s      *Solver
	prog   *ssa.Program
	ld     *Loader
	global map[*ssa.Global]*Value
	inInit int
	inited map[*ssa.Package]bool

	pc       []*F // path condition
	pcKnown  map[int]bool
	facts    []*F               // bounds of the words computed so far
	univ     map[*ssa.Call]bool // carries dropped that are zero whatever the arguments
	univDone map[*ssa.Function]bool
	inUniv   bool
	trace    []int // decisions to replay
	taken    []int // decisions of this run
	alts     [][]int

	vars    map[string]int // fresh names of this path
	params  map[string]int64
	job     *Job
	spec    int // depth of speculation (merging)
	specC   []*F
	births  int
	born    map[*Value]int
	journal []jent
	stack   []*frame
	steps   int64
	max     int64
	end     time.Time
	funcs   map[string]bool
	pdoms   map[*ssa.Function][]int
	slots   map[*ssa.Function]map[ssa.Value]int
	tags    map[string]any
	ring    *ringState

	asserts map[string]*assertRes
	order   []string
	paths   int
	forks   int
	reduced map[string]bool
	covers  map[string]bool
}

type jent struct {
	p   *Value
	old Value
}

type assertRes struct {
	msg                    string
	proved, failed, unsure int
}

type frame struct {
	fn     *ssa.Function
	env    []Value
	slot   map[ssa.Value]int
	free   []Value
	defers []*ssa.Defer
	dargs  [][]Value
	pos    token.Pos
	panicv *Panic
	recov  bool
}

func (m *M) where() string {
	if len(m.stack) == 0 {
		return ""
	}
	for i := len(m.stack) - 1; i >= 0; i-- {
		f := m.stack[i]
		if f.pos.IsValid() {
			p := m.prog.Fset.Position(f.pos)
			return fmt.Sprintf("%s (%s:%d)", f.fn.String(), p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
		}
	}
	return m.stack[len(m.stack)-1].fn.String()
}

func (m *M) backtrace() string {
	var sb strings.Builder
	for i := len(m.stack) - 1; i >= 0; i-- {
		f := m.stack[i]
		p := m.prog.Fset.Position(f.pos)
		fmt.Fprintf(&sb, "  %s %s:%d\n", f.fn.String(), p.Filename, p.Line)
	}
	return sb.String()
}

// mergeFail: two sides of a branch cannot be merged.
type mergeFail struct{ why string }

// infeasible ends a path.
type infeasible struct{}

func (m *M) noSpec(why string) {
	if m.spec > 0 {
		panic(mergeFail{why})
	}
}

func (m *M) store(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if o, ok := (*p).(Struct); ok && len(o) == len(x) {
			for i := range x {
				m.store(&o[i], x[i])
			}
			return
		}
	case Array:
		if o, ok := (*p).(Array); ok && len(o) == len(x) {
			for i := range x {
				m.store(&o[i], x[i])
			}
			return
		}
	}
	if m.spec > 0 {
		m.journal = append(m.journal, jent{p, *p})
	}
	*p = v
}

// ---- conversions between values and terms

func (m *M) term(v Value) *Term {
	switch x := v.(type) {
	case int64:
		return m.u.kint(x)
	case uint64:
		if x == 0 {
			return &Term{}
		}
		return m.u.konst(new(big.Int).SetUint64(x))
	case *Term:
		return x
	}
	panic(unsupported("not an integer: %T at %s\n%s", v, m.where(), m.backtrace()))
}

func (m *M) formula(v Value) *F {
	switch x := v.(type) {
	case bool:
		return m.u.bool(x)
	case *F:
		return x
	}
	panic(unsupported("not a boolean: %T", v))
}

func boolVal(f *F) Value {
	if f.isTrue() {
		return true
	}
	if f.isFalse() {
		return false
	}
	return f
}

// intVal makes a value of basic type b out of a term that is in its range.
func (m *M) intVal(t *Term, b *types.Basic) Value {
	if c, ok := t.isConst(); ok {
		if isSigned(b) {
			return c.Int64()
		}
		return c.Uint64()
	}
	return t
}

// wrap reduces a term into the range of type b.
func (m *M) wrap(t *Term, b *types.Basic) Value {
	w := width(b)
	mod := pow2(w)
	if c, ok := t.isConst(); ok {
		c = new(big.Int).Mod(c, mod)
		if isSigned(b) && c.Bit(int(w)-1) == 1 {
			c.Sub(c, mod)
		}
		return m.intVal(m.u.konst(c), b)
	}
	lo, hi := m.u.Range(t)
	if lo.Sign() < 0 || hi.Cmp(mod) >= 0 {
		for _, c := range m.specC {
			lo, hi = m.u.under(c, t, lo, hi)
		}
	}
	if isSigned(b) {
		h := pow2(w - 1)
		if lo.Cmp(new(big.Int).Neg(h)) >= 0 && hi.Cmp(h) < 0 {
			return t
		}
		q := m.u.floor(m.u.add(t, m.u.konst(h)), mod)
		if lo.Sign() >= 0 && hi.Cmp(mod) < 0 {
			q = m.u.floor(t, h)
		}
		return m.intVal(m.u.sub(t, m.u.scale(q, mod)), b)
	}
	if lo.Sign() >= 0 && hi.Cmp(mod) < 0 {
		return t
	}
	if w == 64 && lo.Sign() >= 0 && m.quick(m.u.lt(t, m.u.konst(mod))) == 1 {
		return t
	}
	return m.intVal(m.u.mod(t, mod), b)
}

// ---- path conditions and decisions

func (m *M) assume(f *F) {
	if f.isTrue() {
		return
	}
	for _, c := range f.conjuncts() {
		m.pc = append(m.pc, c)
		m.pcKnown[c.id] = true
	}
}

func (m *M) conds() []*F {
	return append(append([]*F{}, m.pc...), m.specC...)
}

// quick evaluates a condition without the solver: 1 true, 0 false, -1 unknown.
func (m *M) quick(f *F) int {
	switch {
	case f.isTrue():
		return 1
	case f.isFalse():
		return 0
	case m.pcKnown[f.id]:
		return 1
	case m.pcKnown[m.u.not(f).id]:
		return 0
	}
	n := m.u.not(f)
	for _, c := range m.specC {
		if c == f {
			return 1
		}
		if c == n {
			return 0
		}
	}
	if f.op == '&' || f.op == '|' {
		all := true
		for _, s := range f.sub {
			switch r := m.quick(s); {
			case r == 0 && f.op == '&':
				return 0
			case r == 1 && f.op == '|':
				return 1
			case r < 0:
				all = false
			}
		}
		if all {
			if f.op == '&' {
				return 1
			}
			return 0
		}
	}
	if f.op == '!' {
		if r := m.quick(f.sub[0]); r >= 0 {
			return 1 - r
		}
	}
	return -1
}

func (m *M) check(goal *F, timeout int) string {
	if time.Now().After(m.end) {
		panic(unsupported("time limit"))
	}
	r, _ := m.s.Check(m.conds(), goal, timeout, false)
	return r
}

// feasible tells which sides of a condition are possible (unknown counts as possible).
func (m *M) feasible(f *F) (t, e bool) {
	switch m.quick(f) {
	case 1:
		return true, false
	case 0:
		return false, true
	}
	m.s.light = true
	defer func() { m.s.light = false }()
	if m.check(f, 3000) == "unsat" {
		return false, true
	}
	if m.check(m.u.not(f), 3000) == "unsat" {
		return true, false
	}
	return true, true
}

// decide forks on a condition.
func (m *M) decide(f *F) bool {
	switch m.quick(f) {
	case 1:
		return true
	case 0:
		return false
	}
	t, e := m.feasible(f)
	if t != e {
		if m.spec == 0 {
			if t {
				m.assume(f)
			} else {
				m.assume(m.u.not(f))
			}
		}
		return t
	}
	m.noSpec("decision")
	k := m.choose(2)
	if k == 0 {
		m.assume(f)
		return true
	}
	m.assume(m.u.not(f))
	return false
}

// choose picks one of n alternatives, all of which get explored.
func (m *M) choose(n int) int {
	i := len(m.taken)
	if i < len(m.trace) {
		m.taken = append(m.taken, m.trace[i])
		return m.trace[i]
	}
	for k := n - 1; k > 0; k-- {
		m.alts = append(m.alts, append(append([]int{}, m.taken...), k))
	}
	m.forks++
	debugf("  fork at %s\n", m.where())
	m.taken = append(m.taken, 0)
	return 0
}

// concretize forks over the values of a term (few of them).
func (m *M) concretize(t *Term, limit int) *big.Int {
	if c, ok := t.isConst(); ok {
		return c
	}
	lo, hi := m.u.Range(t)
	n := new(big.Int).Sub(hi, lo)
	if !n.IsInt64() || n.Int64() > int64(limit) {
		panic(unsupported("too many values for an index or length at %s", m.where()))
	}
	for v := new(big.Int).Set(lo); v.Cmp(hi) < 0; v = new(big.Int).Add(v, b1) {
		if m.decide(m.u.eq(t, m.u.konst(v))) {
			return v
		}
	}
	return hi
}

func (m *M) concInt(v Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case uint64:
		return int64(x)
	}
	return m.concretize(m.term(v), 4096).Int64()
}

// require: a run-time check of the language.
func (m *M) require(f *F, msg string) {
	if f.isTrue() {
		return
	}
	if m.spec > 0 {
		switch m.quick(f) {
		case 1:
			return
		case 0:
			m.panicf("%s", msg)
		}
		if m.check(m.u.not(f), 5000) == "unsat" {
			return
		}
		panic(mergeFail{"run-time check"})
	}
	if !m.decide(f) {
		m.panicf("%s", msg)
	}
}

// ---- execution

func (m *M) slotsOf(fn *ssa.Function) map[ssa.Value]int {
	if s, ok := m.slots[fn]; ok {
		return s
	}
	s := map[ssa.Value]int{}
	for _, p := range fn.Params {
		s[p] = len(s)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				s[v] = len(s)
			}
		}
	}
	m.slots[fn] = s
	return s
}

func (m *M) call(fn *ssa.Function, args []Value, env []Value) Value {
	if r, ok := m.intrinsic(fn, args); ok {
		return r
	}
	if fn.Synthetic == "package initializer" {
		m.initPkg(fn.Pkg)
		return nil
	}
	if fn.Blocks == nil {
		panic(unsupported("no code for %s", fn))
	}
	if len(m.stack) > 400 {
		panic(unsupported("call depth at %s", fn))
	}
	if fn.Pkg != nil {
		m.note(fn)
		m.initPkg(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		m.note(o)
		m.initPkg(o.Pkg)
	}
	fr := &frame{fn: fn, slot: m.slotsOf(fn), free: env}
	fr.env = make([]Value, len(fr.slot))
	for i, p := range fn.Params {
		fr.env[fr.slot[p]] = args[i]
	}
	m.stack = append(m.stack, fr)
	n := len(m.stack)
	hasDefer := fn.Recover != nil
	if !hasDefer {
		r := m.run(fr, fn.Blocks[0], nil, nil)
		m.stack = m.stack[:n-1]
		return r.ret
	}
	return m.callDefer(fr, n)
}

func (m *M) callDefer(fr *frame, n int) (ret Value) {
	m.noSpec("defer")
	var r result
	func() {
		defer func() {
			if e := recover(); e != nil {
				p, ok := e.(*Panic)
				if !ok {
					panic(e)
				}
				fr.panicv = p
			}
		}()
		r = m.run(fr, fr.fn.Blocks[0], nil, nil)
	}()
	m.stack = m.stack[:n]
	if fr.panicv != nil {
		m.runDefers(fr)
		if fr.panicv != nil {
			m.stack = m.stack[:n-1]
			panic(fr.panicv)
		}
		r = m.run(fr, fr.fn.Recover, nil, nil)
	}
	m.stack = m.stack[:n-1]
	return r.ret
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		k := len(fr.defers) - 1
		d, a := fr.defers[k], fr.dargs[k]
		fr.defers, fr.dargs = fr.defers[:k], fr.dargs[:k]
		m.invoke(fr, &d.Call, a)
	}
}

type result struct {
	ret     Value
	stopped bool            // reached the stop block
	from    *ssa.BasicBlock // by this edge
}

// run executes from block b until return or until stop is about to be entered.
func (m *M) run(fr *frame, b, prev, stop *ssa.BasicBlock) result {
	for {
		// phis
		i := 0
		if prev != nil {
			m.phis(fr, b, prev)
		}
		for i < len(b.Instrs) {
			if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
				break
			}
			i++
		}
		var next *ssa.BasicBlock
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			m.steps++
			if m.steps > m.max {
				panic(unsupported("step limit at %s", m.where()))
			}
			if m.steps&0xffff == 0 && time.Now().After(m.end) {
				panic(unsupported("time limit"))
			}
			if p := in.Pos(); p.IsValid() {
				fr.pos = p
			}
			switch x := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return result{}
				case 1:
					return result{ret: m.get(fr, x.Results[0])}
				}
				t := make(Tuple, len(x.Results))
				for j, r := range x.Results {
					t[j] = m.get(fr, r)
				}
				return result{ret: t}
			case *ssa.If:
				c := m.get(fr, x.Cond)
				switch v := c.(type) {
				case bool:
					if v {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				case *F:
					r, nb, np, done := m.branch(fr, b, v, stop)
					if done {
						return r
					}
					if np != nil { // merged at nb: phis are set
						if nb == stop {
							panic("internal: merged at the stop block")
						}
						b, prev = nb, nil
						goto cont
					}
					next = nb
				default:
					panic(unsupported("condition %T", c))
				}
			case *ssa.Panic:
				v := m.get(fr, x.X)
				panic(&Panic{v: v, at: m.where()})
			default:
				m.exec(fr, in)
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			panic(unsupported("block without end"))
		}
		if next == stop {
			return result{stopped: true, from: b}
		}
		prev, b = b, next
	cont:
	}
}

func (m *M) phis(fr *frame, b, prev *ssa.BasicBlock) {
	vals := m.phiVals(fr, b, prev)
	for i, v := range vals {
		fr.env[fr.slot[b.Instrs[i].(*ssa.Phi)]] = v
	}
}

func (m *M) phiVals(fr *frame, b, prev *ssa.BasicBlock) []Value {
	var vals []Value
	k := -1
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if k < 0 {
			for j, p := range b.Preds {
				if p == prev {
					k = j
					break
				}
			}
		}
		vals = append(vals, m.get(fr, phi.Edges[k]))
	}
	return vals
}

// branch handles a symbolic condition. Either the two sides merge (np != nil with the join
// block, or done with a merged return), or one side is taken.
// wordTest: whether a large sum of products is zero, as of the top word of a long product.
func (m *M) wordTest(c *F) bool {
	if c.op == '!' {
		c = c.sub[0]
	}
	if c.op != 'e' || m.s.free(c) {
		return false
	}
	p := &printer{u: m.u, atoms: map[int]bool{}, monos: map[string][]int{}}
	p.collectF(c)
	return len(p.morder) > 100
}

func (m *M) branch(fr *frame, b *ssa.BasicBlock, c *F, stop *ssa.BasicBlock) (r result, nb, np *ssa.BasicBlock, done bool) {
	switch m.quick(c) {
	case 1:
		return result{}, b.Succs[0], nil, false
	case 0:
		return result{}, b.Succs[1], nil, false
	}
	if m.spec >= 3 || len(m.specC) > 3 || m.wordTest(c) {
		// deep speculation: avoid following impossible sides
		t, e := m.feasible(c)
		if t != e {
			if t {
				return result{}, b.Succs[0], nil, false
			}
			return result{}, b.Succs[1], nil, false
		}
	}
	if m.spec < 60 {
		j := m.ipdom(fr.fn, b)
		if r, ok := m.merge(fr, b, c, j, stop); ok {
			if j == nil || r.stopped {
				return r, nil, nil, true
			}
			return result{}, j, b, false
		}
	} else {
		panic(mergeFail{"depth"})
	}
	if m.spec > 0 {
		// a side may be impossible
		t, e := m.feasible(c)
		if t && e {
			panic(mergeFail{"inner branch"})
		}
		if t {
			return result{}, b.Succs[0], nil, false
		}
		return result{}, b.Succs[1], nil, false
	}
	if m.decide(c) {
		return result{}, b.Succs[0], nil, false
	}
	return result{}, b.Succs[1], nil, false
}

// birth remembers when the cells of a new variable came to be, during the execution of a
// side of a branch.
func (m *M) birth(p *Value, max int) {
	if m.born == nil {
		m.born = map[*Value]int{}
	}
	m.born[p] = m.births
	var in []Value
	switch x := (*p).(type) {
	case Struct:
		in = x
	case Array:
		in = x
	}
	if len(in) <= max {
		for i := range in {
			m.birth(&in[i], max/len(in))
		}
	}
}

type side struct {
	born0, born1 int
	r            result
	env          []Value
	writes       map[*Value]Value
	order        []*Value
	phi          []Value
	fail         string
	panicv       *Panic
}

// merge runs both sides of a branch up to the join j (nil: function return), where
// everything they changed becomes conditional. If the region's end is the stop block of an
// enclosing region, that is reported as stopped with merged environment.
func (m *M) merge(fr *frame, b *ssa.BasicBlock, c *F, j, stop *ssa.BasicBlock) (result, bool) {
	if m.spec == 0 {
		m.born = nil
	}
	if fr.fn.Recover != nil && j == nil {
		return result{}, false
	}
	if stop != nil && j == nil {
		// the sides may return although the enclosing region expects to reach its stop
		return result{}, false
	}
	if j == stop && j != nil {
		return m.mergeStop(fr, b, c, j)
	}
	A := m.side(fr, b, b.Succs[0], c, j)
	if A.fail != "" {
		debugf("  no merge at %s: %s\n", m.where(), A.fail)
		return result{}, false
	}
	B := m.side(fr, b, b.Succs[1], m.u.not(c), j)
	if B.fail != "" {
		debugf("  no merge at %s: %s\n", m.where(), B.fail)
		return result{}, false
	}
	return m.join(fr, c, A, B, j)
}

func (m *M) mergeStop(fr *frame, b *ssa.BasicBlock, c *F, j *ssa.BasicBlock) (result, bool) {
	A := m.side(fr, b, b.Succs[0], c, j)
	if A.fail != "" {
		return result{}, false
	}
	B := m.side(fr, b, b.Succs[1], m.u.not(c), j)
	if B.fail != "" {
		return result{}, false
	}
	r, ok := m.join(fr, c, A, B, j)
	if !ok {
		return r, false
	}
	// the joined phi values are already in env; mark it
	r.stopped = true
	r.from = nil // phis are set
	return r, true
}

func (m *M) side(fr *frame, b, succ *ssa.BasicBlock, c *F, j *ssa.BasicBlock) (s side) {
	saveEnv := fr.env
	fr.env = append([]Value{}, saveEnv...)
	jn := len(m.journal)
	sn := len(m.stack)
	savePos := fr.pos
	nd := len(fr.defers)
	nf := len(m.facts)
	defer func() { m.facts = m.facts[:nf] }()
	s.born0 = m.births
	m.spec++
	m.specC = append(m.specC, c)
	saveVars := map[string]int{}
	for k, v := range m.vars {
		saveVars[k] = v
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case mergeFail:
					s.fail = x.why
				case *Panic:
					s.panicv = x
					s.fail = "panic: " + show(x.v)
				case Unsupported:
					if x.what == "time limit" {
						panic(e)
					}
					s.fail = x.what
				default:
					panic(e)
				}
			}
		}()
		if succ == j {
			s.r = result{stopped: true, from: b}
		} else {
			s.r = m.run(fr, succ, b, j)
		}
		if j != nil {
			if !s.r.stopped {
				panic(mergeFail{"returns inside"})
			}
			if s.r.from != nil {
				s.phi = m.phiVals(fr, j, s.r.from)
			} else {
				for _, in := range j.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					s.phi = append(s.phi, fr.env[fr.slot[p]])
				}
			}
		}
	}()
	s.born1 = m.births
	m.stack = m.stack[:sn]
	fr.pos = savePos
	s.env = fr.env
	fr.env = saveEnv
	if len(fr.defers) != nd {
		fr.defers, fr.dargs = fr.defers[:nd], fr.dargs[:nd]
		s.fail = "defer"
	}
	m.spec--
	m.specC = m.specC[:len(m.specC)-1]
	for k, v := range m.vars {
		if saveVars[k] != v {
			s.fail = "fresh symbols"
		}
	}
	m.vars = saveVars
	// collect and undo
	s.writes = map[*Value]Value{}
	for i := jn; i < len(m.journal); i++ {
		p := m.journal[i].p
		if _, ok := s.writes[p]; !ok {
			s.order = append(s.order, p)
		}
		s.writes[p] = *p
	}
	for i := len(m.journal) - 1; i >= jn; i-- {
		*m.journal[i].p = m.journal[i].old
	}
	m.journal = m.journal[:jn]
	// a panic on an impossible side is no obstacle, but then there is nothing to merge
	return s
}

func (m *M) join(fr *frame, c *F, A, B side, j *ssa.BasicBlock) (r result, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if x, is := e.(mergeFail); is {
				debugf("  no merge at %s: %s\n", m.where(), x.why)
				ok = false
				return
			}
			panic(e)
		}
	}()
	type w struct {
		p *Value
		v Value
	}
	var ws []w
	seen := map[*Value]bool{}
	for _, p := range append(append([]*Value{}, A.order...), B.order...) {
		if seen[p] {
			continue
		}
		seen[p] = true
		va, oka := A.writes[p]
		if !oka {
			va = *p
		}
		vb, okb := B.writes[p]
		if n := m.born[p]; n > 0 && oka != okb {
			// a variable that the other side does not have
			if oka && n > A.born0 && n <= A.born1 {
				ws = append(ws, w{p, va})
				continue
			}
			if okb && n > B.born0 && n <= B.born1 {
				ws = append(ws, w{p, vb})
				continue
			}
		}
		if !okb {
			vb = *p
		}
		ws = append(ws, w{p, m.iteVal(c, va, vb)})
	}
	var phis []Value
	if j != nil {
		for i := range A.phi {
			phis = append(phis, m.iteVal(c, A.phi[i], B.phi[i]))
		}
	} else {
		r.ret = m.iteVal(c, A.r.ret, B.r.ret)
	}
	for _, x := range ws {
		m.store(x.p, x.v)
	}
	for i, v := range phis {
		fr.env[fr.slot[j.Instrs[i].(*ssa.Phi)]] = v
	}
	return r, true
}

func (m *M) iteVal(c *F, a, b Value) Value {
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil
		}
	case int64, uint64, *Term:
		if a == b {
			return a
		}
		switch b.(type) {
		case int64, uint64, *Term:
			ta, tb := m.term(a), m.term(b)
			t := m.u.ite(c, ta, tb)
			if k, ok := t.isConst(); ok {
				switch a.(type) {
				case int64:
					return k.Int64()
				case uint64:
					return k.Uint64()
				}
				switch b.(type) {
				case int64:
					return k.Int64()
				case uint64:
					return k.Uint64()
				}
			}
			return t
		}
	case bool, *F:
		switch b.(type) {
		case bool, *F:
			return boolVal(m.u.iteF(c, m.formula(a), m.formula(b)))
		}
	case BigV:
		if y, ok := b.(BigV); ok {
			return BigV{m.u.ite(c, x.t, y.t)}
		}
	case float64:
		if y, ok := b.(float64); ok && (x == y || math.IsNaN(x) && math.IsNaN(y)) {
			return a
		}
		switch b.(type) {
		case float64, *UFloat:
			return &UFloat{}
		}
	case *UFloat:
		if a == b {
			return a
		}
		switch b.(type) {
		case float64, *UFloat:
			return &UFloat{}
		}
	case string:
		if y, ok := b.(string); ok && x == y {
			return a
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x) == len(y) {
			o := make(Struct, len(x))
			for i := range x {
				o[i] = m.iteVal(c, x[i], y[i])
			}
			return o
		}
	case Array:
		if y, ok := b.(Array); ok && len(x) == len(y) {
			o := make(Array, len(x))
			for i := range x {
				o[i] = m.iteVal(c, x[i], y[i])
			}
			return o
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			o := make(Tuple, len(x))
			for i := range x {
				o[i] = m.iteVal(c, x[i], y[i])
			}
			return o
		}
	case Slice:
		if y, ok := b.(Slice); ok && len(x.arr) == len(y.arr) && cap(x.arr) == cap(y.arr) {
			if cap(x.arr) == 0 && (x.arr == nil) == (y.arr == nil) {
				return a
			}
			if cap(x.arr) > 0 && &x.arr[:1][0] == &y.arr[:1][0] {
				return a
			}
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x.p == y.p {
			return a
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.T == nil && y.T == nil {
				return a
			}
			if x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
				return Iface{x.T, m.iteVal(c, x.V, y.V)}
			}
		}
	case *ssa.Function, *Closure, *MapV:
		if a == b {
			return a
		}
	}
	panic(mergeFail{fmt.Sprintf("values %T / %T", a, b)})
}

// ipdom computes the immediate postdominator; nil is the function exit.
func (m *M) ipdom(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	pd, ok := m.pdoms[fn]
	if !ok {
		pd = postdoms(fn)
		m.pdoms[fn] = pd
	}
	if k := pd[b.Index]; k >= 0 {
		return fn.Blocks[k]
	}
	return nil
}

// postdoms: iterative sets; blocks ending in a panic count as not reaching the exit, so
// that a guard clause does not move the join.
func postdoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	exit := n
	succ := make([][]int, n+1)
	for i, b := range fn.Blocks {
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			succ[i] = []int{exit}
		case *ssa.Panic:
			succ[i] = nil
		default:
			for _, s := range b.Succs {
				succ[i] = append(succ[i], s.Index)
			}
		}
	}
	// sets as bitmaps
	full := make([]bool, n+1)
	for i := range full {
		full[i] = true
	}
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = append([]bool{}, full...)
	}
	pd[exit] = make([]bool, n+1)
	pd[exit][exit] = true
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nw := append([]bool{}, full...)
			if len(succ[i]) == 0 {
				// a panic: postdominated by everything
				nw = append([]bool{}, full...)
			}
			for _, s := range succ[i] {
				for k := range nw {
					nw[k] = nw[k] && pd[s][k]
				}
			}
			nw[i] = true
			for k := range nw {
				if nw[k] != pd[i][k] {
					pd[i] = nw
					ch = true
					break
				}
			}
		}
	}
	out := make([]int, n)
	for i := range out {
		// the immediate one: the candidate with the most postdominators
		best, bc := -1, -1
		for k := 0; k <= n; k++ {
			if k == i || !pd[i][k] {
				continue
			}
			c := 0
			for _, x := range pd[k] {
				if x {
					c++
				}
			}
			if k < n && c > n { // a panic block
				continue
			}
			if c > bc {
				best, bc = k, c
			}
		}
		if best == exit {
			best = -1
		}
		out[i] = best
	}
	return out
}

func (m *M) get(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constant(x)
	case *ssa.Global:
		return Ptr{p: m.globalCell(x)}
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	}
	i, ok := fr.slot[v]
	if !ok {
		panic(unsupported("no value for %s", v))
	}
	return fr.env[i]
}

func (m *M) globalCell(g *ssa.Global) *Value {
	if g.Pkg != nil {
		m.initPkg(g.Pkg)
	}
	c, ok := m.global[g]
	if !ok {
		z := zero(deref(g.Type()))
		c = &z
		m.global[g] = c
	}
	return c
}

// initPkg runs the initialization of packages of the repository (and a few others).
func (m *M) note(fn *ssa.Function) {
	if m.inInit == 0 {
		m.funcs[fn.String()] = true
	}
}

func (m *M) initPkg(p *ssa.Package) {
	if m.inited[p] {
		return
	}
	m.inited[p] = true
	path := p.Pkg.Path()
	ok := strings.HasPrefix(path, "github.com/sp301415/") && !strings.Contains(path, "/zzverif")
	switch path {
	case "io", "errors", "encoding/binary", "bytes", "github.com/tuneinsight/lattigo/v6/utils/buffer", "github.com/tuneinsight/lattigo/v6/ring", "slices", "sort", "strconv":
		ok = path == "io" || strings.Contains(path, "lattigo/v6/ring")
	}
	if !ok {
		return
	}
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	// package initialization is concrete: no path state
	spec, specC := m.spec, m.specC
	m.spec, m.specC = 0, nil
	m.inInit++
	defer func() { m.inInit-- }()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if x, is := e.(Unsupported); is {
					debugf("init of %s: %s\n", path, x.what)
					return
				}
				panic(e)
			}
		}()
		n := len(m.stack)
		defer func() { m.stack = m.stack[:n] }()
		fr := &frame{fn: f, slot: m.slotsOf(f)}
		fr.env = make([]Value, len(fr.slot))
		m.stack = append(m.stack, fr)
		m.run(fr, f.Blocks[0], nil, nil)
	}()
	m.spec, m.specC = spec, specC
}

func (m *M) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			panic(unsupported("constant of type parameter %v", tp))
		}
		panic(unsupported("constant of type %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		if isSigned(b) {
			v, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				panic(unsupported("constant %v", c))
			}
			return v
		}
		v, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return v
	case b.Info()&types.IsFloat != 0:
		v, _ := constant.Float64Val(c.Value)
		return v
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	}
	panic(unsupported("constant of type %v", t))
}
