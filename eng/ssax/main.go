package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	tokAND = token.AND
	tokXOR = token.XOR
)

// Job is one harness run.
type Job struct {
	Pkg       string           `json:"pkg"`  // directory in the repository
	Func      string           `json:"func"` // harness function
	Params    map[string]int64 `json:"params"`
	Name      string           `json:"name"`
	Seconds   int              `json:"seconds"` // time limit
	Timeout   int              `json:"timeout"` // per assertion, ms
	Binary    string           `json:"binary"`  // native test binary
	Setup     bool             `json:"setup"`   // needs a dump
	Contracts []string         `json:"contracts"`
	dump      *dumpFile
	und       *undump
}

// Config is the input of the program.
type Config struct {
	Repo     string            `json:"repo"`
	Overlay  map[string]string `json:"overlay"`
	Flags    []string          `json:"flags"`
	Patterns []string          `json:"patterns"`
	Jobs     []Job             `json:"jobs"`
	Report   string            `json:"report"`
	Scratch  string            `json:"scratch"`
}

// Violation as in hlib.
type Violation struct {
	Key    string            `json:"key"`
	What   string            `json:"what"`
	Case   string            `json:"case"`
	Model  map[string]string `json:"model"`
	Replay string            `json:"replay"`
	Real   bool              `json:"real"`
}

// Report as in hlib.
type Report struct {
	Cases       []string    `json:"cases"`
	Obligations int         `json:"obligations"`
	Discharged  int         `json:"discharged"`
	Witnesses   int         `json:"witnesses"`
	Validated   int         `json:"validated"`
	Violations  []Violation `json:"violations"`
	Reduced     []string    `json:"reduced"`
	Notes       []string    `json:"notes"`
	Functions   []string    `json:"functions"`
	Queries     int         `json:"queries"`
	Unsat       int         `json:"unsat"`
	Sat         int         `json:"sat"`
	Unknown     int         `json:"unknown"`
	Paths       int         `json:"paths"`
	SolverS     float64     `json:"solver_s"`
	MaxMonos    int         `json:"max_monomials"`
	Samples     []string    `json:"samples"`
}

var rep Report
var cfg Config

func writeReport() {
	b, _ := json.MarshalIndent(&rep, "", " ")
	if cfg.Report != "" {
		os.WriteFile(cfg.Report, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

func (m *M) assert(f *F, msg string) {
	r := m.asserts[msg]
	if r == nil {
		r = &assertRes{msg: msg}
		m.asserts[msg] = r
		m.order = append(m.order, msg)
	}
	rep.Obligations++
	if m.quick(f) == 1 {
		r.proved++
		rep.Discharged++
		return
	}
	n := m.u.not(f)
	// conjunctions one by one
	if f.op == '&' && len(f.sub) > 1 {
		rep.Obligations--
		for _, s := range f.sub {
			m.assert(s, msg)
		}
		return
	}
	if time.Now().After(m.end) {
		panic(unsupported("time limit"))
	}
	to := m.job.Timeout
	if to == 0 {
		to = 20000
	}
	res, _ := m.s.Check(m.conds(), n, to, false)
	switch res {
	case "unsat":
		r.proved++
		rep.Discharged++
		m.assume(f)
	case "sat":
		_, mod := m.s.Check(m.conds(), n, to, true)
		r.failed++
		m.violation(msg, mod)
		m.assume(f)
		panic(infeasible{}) // enough on this path
	default:
		r.unsure++
		m.reduce("%s: undecided at %s", msg, m.where())
		m.assume(f)
	}
}

// possible: the formula must be satisfiable on this path.
func (m *M) possible(f *F, msg string) {
	r := m.asserts[msg]
	if r == nil {
		r = &assertRes{msg: msg}
		m.asserts[msg] = r
		m.order = append(m.order, msg)
	}
	rep.Obligations++
	to := m.job.Timeout
	if to == 0 {
		to = 20000
	}
	res := "sat"
	if !f.isTrue() {
		res, _ = m.s.Check(m.conds(), f, to, false)
	}
	switch res {
	case "sat":
		r.proved++
		rep.Discharged++
	case "unsat":
		if c, mod := m.s.Check(m.conds(), m.u.tru(), to, true); c == "sat" {
			r.failed++
			m.violation(msg, mod)
		} else if c == "unsat" {
			panic(infeasible{})
		} else {
			r.unsure++
			m.reduce("%s: undecided", msg)
		}
	default:
		r.unsure++
		m.reduce("%s: undecided at %s", msg, m.where())
	}
}

func (m *M) reduce(f string, a ...any) {
	s := m.job.Name + ": " + fmt.Sprintf(f, a...)
	if !m.reduced[s] {
		m.reduced[s] = true
		debugf("REDUCED %s\n", s)
		rep.Reduced = append(rep.Reduced, s)
	}
}

func (m *M) cover(msg string) {
	if m.covers[msg] {
		return
	}
	r, _ := m.s.Check(m.pc, m.u.tru(), 10000, true)
	if r == "sat" {
		m.covers[msg] = true
		rep.Witnesses++
	}
}

var tried = map[string]int{}

// violation replays a counterexample natively and records it.
func (m *M) violation(msg string, mod map[string]*big.Int) {
	if mod == nil {
		m.reduce("%s: a counterexample without values", msg)
		return
	}
	vals := map[string]string{}
	for k, v := range mod {
		vals[k] = v.String()
	}
	for k, v := range m.tags {
		if s, ok := v.(string); ok && strings.HasPrefix(k, "kernel:") {
			vals[k] = s
		}
	}
	key := m.job.Name + "/" + msg
	if tried[key] >= 3 {
		return
	}
	for _, v := range rep.Violations {
		if v.Key == key && v.Real {
			return
		}
	}
	tried[key]++
	v := Violation{Key: key, What: msg, Case: m.job.Name, Model: vals}
	real, out := m.replay(vals, msg)
	v.Real, v.Replay = real, out
	debugf("VIOLATION %s real=%v %v\n", key, real, vals)
	if !real && os.Getenv("VERIF_DEBUG") != "" {
		debugf("%s\n", out)
	}
	rep.Violations = append(rep.Violations, v)
	if real {
		rep.Validated++
		writeReport()
	}
}

func (m *M) replay(vals map[string]string, msg string) (bool, string) {
	if m.job.Binary == "" {
		return false, "no native binary"
	}
	d, err := os.MkdirTemp(cfg.Scratch, "replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(d)
	mf := filepath.Join(d, "model.json")
	b, _ := json.Marshal(vals)
	os.WriteFile(mf, b, 0o644)
	out := native(m.job, d, "VERIF_MODEL="+mf)
	tail := out
	if len(tail) > 600 {
		tail = tail[len(tail)-600:]
	}
	for _, l := range strings.Split(out, "\n") {
		if msg == "panic" || strings.HasPrefix(msg, "panic:") {
			if strings.HasPrefix(l, "ZZPANIC") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				return true, l
			}
		} else if l == "ZZFAIL "+msg {
			return true, "the assertion fails natively with these values"
		} else if strings.HasPrefix(l, "ZZPANIC") {
			return true, "natively: " + l
		}
	}
	return false, tail
}

func native(j *Job, dir string, env ...string) string {
	c := exec.Command(j.Binary, "-test.run", "^TestZZVerif$", "-test.v", "-test.timeout", "120s")
	c.Dir = dir
	p, _ := json.Marshal(j.Params)
	c.Env = append(os.Environ(), env...)
	c.Env = append(c.Env, "VERIF_HARNESS="+j.Func, "VERIF_PARAMS="+string(p))
	o, err := c.CombinedOutput()
	s := string(o)
	if err != nil {
		s += "\n" + err.Error()
	}
	return s
}

func runJob(ld *Loader, j *Job, pkg *ssa.Package) {
	fn := pkg.Func(j.Func)
	if fn == nil {
		rep.Reduced = append(rep.Reduced, "no harness "+j.Func)
		return
	}
	rep.Cases = append(rep.Cases, j.Name)
	t0 := time.Now()
	if j.Setup {
		d, err := os.MkdirTemp(cfg.Scratch, "dump")
		if err == nil {
			f := filepath.Join(d, "dump.json")
			out := native(j, d, "VERIF_DUMP="+f)
			j.dump, err = readDump(f)
			os.RemoveAll(d)
			if err != nil {
				// the setup itself fails in the code under test
				if i := strings.Index(out, "panic:"); i >= 0 {
					rep.Violations = append(rep.Violations, Violation{Key: j.Name + "/setup", What: "the setup panics: " + strings.SplitN(out[i:], "\n", 2)[0], Case: j.Name, Real: true, Replay: "native run"})
					rep.Obligations++
					return
				}
				rep.Reduced = append(rep.Reduced, j.Name+": setup: "+out)
				return
			}
		}
	}
	if j.Seconds == 0 {
		j.Seconds = 120
	}
	u := newU()
	m := &M{u: u, s: newSolver(u), prog: ld.prog, ld: ld, job: j,
		max: 400_000_000, end: time.Now().Add(time.Duration(j.Seconds) * time.Second),
		funcs: map[string]bool{}, pdoms: map[*ssa.Function][]int{}, slots: map[*ssa.Function]map[ssa.Value]int{},
		asserts: map[string]*assertRes{}, reduced: map[string]bool{}, covers: map[string]bool{}}
	u.shift = m.shiftBits
	m.s.facts = func() []*F { return m.facts }
	defer m.s.stop()
	work := [][]int{nil}
	for len(work) > 0 {
		m.trace = work[len(work)-1]
		work = work[:len(work)-1]
		m.reset()
		stop := m.path(fn)
		work = append(work, m.alts...)
		rep.Paths++
		if stop != "" {
			m.reduce("%s", stop)
			if strings.Contains(stop, "limit") {
				if len(work) > 0 {
					m.reduce("%d paths not explored", len(work))
				}
				break
			}
		}
		if m.paths > 5000 {
			m.reduce("more than 5000 paths")
			break
		}
	}
	for f := range m.funcs {
		if strings.Contains(f, "sp301415/ringo-snark") && !strings.Contains(f, "zzverif") && !strings.Contains(f, ".ZZ") && !strings.Contains(f, ".zz") {
			rep.Functions = append(rep.Functions, strings.ReplaceAll(f, "github.com/sp301415/ringo-snark/", ""))
		}
	}
	sort.Strings(rep.Functions)
	rep.Queries += m.s.Queries
	rep.Unsat += m.s.Unsat
	rep.Sat += m.s.Sat
	rep.Unknown += m.s.Unknown
	rep.SolverS += m.s.Time.Seconds()
	rep.MaxMonos = max(rep.MaxMonos, m.s.MaxMonos)
	if len(rep.Samples) < 4 {
		rep.Samples = append(rep.Samples, m.s.Samples[:min(2, len(m.s.Samples))]...)
	}
	debugf("== %s: %d paths, %d queries, %d atoms, %d steps, %.1fs (solver %.1fs)\n", j.Name, m.paths, m.s.Queries, len(u.atoms), m.steps, time.Since(t0).Seconds(), m.s.Time.Seconds())
	for _, o := range m.order {
		a := m.asserts[o]
		debugf("   %-60s proved %d failed %d unsure %d\n", o, a.proved, a.failed, a.unsure)
	}
	if len(m.order) == 0 && len(m.reduced) == 0 {
		m.reduce("no assertion was reached")
	}
}

func (m *M) reset() {
	m.global = map[*ssa.Global]*Value{}
	m.inited = map[*ssa.Package]bool{}
	m.pc = nil
	m.pcKnown = map[int]bool{}
	m.facts = nil
	m.taken, m.alts = nil, nil
	m.vars = map[string]int{}
	m.spec, m.specC, m.journal, m.stack = 0, nil, nil, nil
	m.tags = map[string]any{}
	m.ring = nil
	m.job.und = nil
}

// path runs one path; the text says why it stopped early, if so.
func (m *M) path(fn *ssa.Function) (stop string) {
	m.paths++
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case infeasible:
			case Unsupported:
				stop = x.what
				debugf("unsupported: %s\n%s", x.what, m.backtrace())
			case mergeFail:
				stop = "merge: " + x.why
			case *Panic:
				// a panic nobody recovered
				r, mod := m.s.Check(m.pc, m.u.tru(), 20000, true)
				rep.Obligations++
				switch r {
				case "unsat":
					rep.Discharged++
				case "sat":
					debugf("panic %s at %s\n", show(x.v), x.at)
					m.violation("panic: "+show(x.v)+" in "+x.at, mod)
				default:
					stop = "undecided whether a panic is reachable: " + show(x.v) + " " + x.at
				}
			default:
				panic(e)
			}
		}
	}()
	m.call(fn, nil, nil)
	return ""
}

func main() {
	cf := flag.String("config", "", "configuration file")
	st := flag.String("stub", "", "a package directory whose functions are replaced")
	sf := flag.String("stubs", "", "their bodies")
	out := flag.String("out", "", "where the changed files go")
	flag.Parse()
	if *st != "" {
		if err := stubDir(*st, *sf, *out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	b, err := os.ReadFile(*cf)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &cfg); err != nil {
		panic(err)
	}
	ov := map[string][]byte{}
	for k, f := range cfg.Overlay {
		c, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		ov[k] = c
	}
	t0 := time.Now()
	ld, err := load(cfg.Repo, ov, cfg.Flags, os.Environ(), cfg.Patterns)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	debugf("loaded in %.1fs\n", time.Since(t0).Seconds())
	built := map[string]*ssa.Package{}
	for i := range cfg.Jobs {
		j := &cfg.Jobs[i]
		if j.Name == "" {
			j.Name = j.Func
			var ks []string
			for k := range j.Params {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				j.Name += fmt.Sprintf(" %s=%d", k, j.Params[k])
			}
		}
		path := "github.com/sp301415/ringo-snark/" + j.Pkg
		p := built[path]
		if p == nil {
			p = ld.pkgs[path]
			if p == nil {
				rep.Reduced = append(rep.Reduced, "no package "+path)
				continue
			}
			p.Build()
			built[path] = p
		}
		runJob(ld, j, p)
	}
	writeReport()
}
