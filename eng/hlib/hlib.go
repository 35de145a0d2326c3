// Package hlib is the reporting side of the harnesses.
package hlib

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sp301415/ringo-snark/zzverif/sym"
)

// Violation is a reported failure.
type Violation struct {
	Key    string            `json:"key"`    // stable identification (known findings are matched on it)
	What   string            `json:"what"`   // human readable
	Case   string            `json:"case"`   // harness case
	Model  map[string]string `json:"model"`  // solver assignment
	Replay string            `json:"replay"` // outcome of the concrete replay
	Real   bool              `json:"real"`   // reproduced against the real code
}

// Report is what a harness process writes.
type Report struct {
	Cases       []string    `json:"cases"`
	Obligations int         `json:"obligations"`
	Discharged  int         `json:"discharged"`
	Witnesses   int         `json:"witnesses"` // reachability witnesses confirmed
	Validated   int         `json:"validated"` // solver assignments re-run on the real code with the predicted result
	Violations  []Violation `json:"violations"`
	Reduced     []string    `json:"reduced"` // undecided within the limits: the claim is reduced
	Notes       []string    `json:"notes"`
	Functions   []string    `json:"functions"`

	Queries   int      `json:"queries"`
	Unsat     int      `json:"unsat"`
	Sat       int      `json:"sat"`
	Unknown   int      `json:"unknown"`
	Paths     int      `json:"paths"`
	SolverS   float64  `json:"solver_s"`
	MaxMonos  int      `json:"max_monomials"`
	Samples   []string `json:"samples"`
	WallS     float64  `json:"wall_s"`
	Bounds    []string `json:"bounds"`
	ReplayOf  string   `json:"replay_of,omitempty"`
	ReplayHit bool     `json:"replay_hit,omitempty"`
}

// R is the report of this process.
var R Report
var t0 = time.Now()

func init() { debug.SetPanicOnFault(true) }

// Tier is quick or thorough.
var Tier = func() string {
	if t := os.Getenv("VERIF_TIER"); t != "" {
		return t
	}
	return "quick"
}()

// Thorough tells the tier.
func Thorough() bool { return Tier == "thorough" }

// Case starts a case.
func Case(f string, a ...any) string {
	return fmt.Sprintf(f, a...)
}

// Only restricts the run to cases containing this text (debugging, replay).
var Only = os.Getenv("VERIF_ONLY")

// Enough tells that a violation is reported already and the time is better not spent.
func Enough() bool {
	return len(R.Violations) > 0 && time.Since(t0) > 60*time.Second
}

// Want tells whether a case is to be run.
func Want(name string) bool {
	k := shardCtr
	shardCtr++
	if Only != "" && !strings.Contains(name, Only) {
		return false
	}
	if k%shardN != shardI || Enough() {
		return false
	}
	R.Cases = append(R.Cases, name)
	curCase.Store(name)
	watchOnce.Do(func() { go watch() })
	if f := os.Getenv("VERIF_CUR"); f != "" {
		os.WriteFile(f, []byte(name), 0o644)
	}
	sym.Debugf("== case %s  (%.1fs)\n", name, time.Since(t0).Seconds())
	return true
}

var (
	curCase   atomic.Value
	watchOnce sync.Once
)

// HangAfter is how long code under test may run without touching a value.
var HangAfter = 100 * time.Second

// watch reports code under test that does not come back.
func watch() {
	last, since := sym.Ticks.Load(), time.Now()
	for {
		time.Sleep(2 * time.Second)
		if n := sym.Ticks.Load(); n != last || sym.Solving.Load() {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) < HangAfter {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		_, st, ok := strings.Cut(string(buf), "\nmain.main()")
		_ = st
		if !ok {
			continue
		}
		// the frames of the main goroutine
		i := strings.Index(string(buf), "goroutine 1 ")
		if i < 0 {
			continue
		}
		st, _, _ = strings.Cut(string(buf[i:]), "\n\n")
		for _, l := range strings.Split(st, "\n") {
			if !strings.Contains(l, "ringo-snark/") || strings.HasPrefix(l, "\t") {
				continue
			}
			if !strings.Contains(l, "/zzverif/") {
				f, _, _ := strings.Cut(l, "(0x")
				Violate(Violation{Key: "hang/" + fmt.Sprint(curCase.Load()), Case: fmt.Sprint(curCase.Load()),
					What:   fmt.Sprintf("the code does not return: %v s in %s without touching a value", int(HangAfter.Seconds()), f),
					Replay: "stack taken from the running code", Real: true})
				os.Exit(0)
			}
			break
		}
		since = time.Now()
	}
}

// Sharding over several processes.
var shardCtr, shardI, shardN = func() (int, int, int) {
	i, n := 0, 1
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &i, &n)
	}
	return 0, i, max(n, 1)
}()

// Violate records a violation.
func Violate(v Violation) {
	sym.Debugf("VIOLATION %s: %s\n", v.Key, v.What)
	for _, o := range R.Violations {
		if o.Key == v.Key {
			return
		}
	}
	R.Violations = append(R.Violations, v)
	if os.Getenv("VERIF_REPORT") != "" {
		Write() // a later timeout must not lose it
	}
}

// Reduce records an undecided obligation.
func Reduce(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	sym.Debugf("REDUCED %s\n", s)
	R.Reduced = append(R.Reduced, s)
}

// Model prints a model.
func Model(m map[string]*big.Int) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = v.String()
	}
	return o
}

// Write stores the report where the wrapper expects it.
func Write() {
	R.Queries, R.Unsat, R.Sat, R.Unknown = sym.Stats.Queries, sym.Stats.Unsat, sym.Stats.Sat, sym.Stats.Unknown
	R.Paths = sym.Stats.Paths
	R.SolverS = sym.Stats.SolverTime.Seconds()
	R.MaxMonos = sym.Stats.MaxMonomials
	R.Samples = sym.Stats.Samples
	R.WallS = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(&R, "", " ")
	if f := os.Getenv("VERIF_REPORT"); f != "" {
		os.WriteFile(f, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

// Prove asks the solver to refute the negation of goal under assumptions; it counts as
// one obligation. It returns "proved", "refuted" or "unknown".
func Prove(what string, assume []sym.Formula, negGoal sym.Formula) (string, map[string]*big.Int) {
	R.Obligations++
	r := sym.Solve(append(append([]sym.Formula{}, assume...), negGoal), what)
	switch r.Status {
	case "unsat":
		R.Discharged++
		return "proved", nil
	case "sat":
		return "refuted", r.Model
	}
	return "unknown", nil
}

// Reachable asks for a model of the assumptions (a vacuity check).
func Reachable(what string, assume []sym.Formula) bool {
	r := sym.Solve(assume, what+" (reachability)")
	if r.Status == "sat" {
		R.Witnesses++
		return true
	}
	return false
}
