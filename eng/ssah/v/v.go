// Package v is the interface between harnesses and the symbolic executor. Executed
// natively, symbols take the values of a counterexample (VERIF_MODEL) instead.
package v

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"unsafe"
)

var model = map[string]string{}
var count = map[string]int{}
var dump = os.Getenv("VERIF_DUMP")
var dumps = map[string]any{}

type skip struct{}

func init() {
	if f := os.Getenv("VERIF_MODEL"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &model); err != nil {
			panic(err)
		}
	}
}

// Run executes a harness natively: to write the dump of its setup, or to replay.
func Run(f func()) {
	defer func() {
		if dump != "" {
			b, _ := json.Marshal(map[string]any{"roots": dumps, "objs": objs, "arrs": arrs})
			if err := os.WriteFile(dump, b, 0o644); err != nil {
				panic(err)
			}
		}
		if e := recover(); e != nil {
			if _, ok := e.(skip); ok {
				return
			}
			if dump != "" {
				panic(e)
			}
			fmt.Printf("ZZPANIC %v\n", e)
		}
	}()
	f()
	fmt.Println("ZZDONE")
}

func value(name string, lo, hi *big.Int) *big.Int {
	if dump != "" {
		panic(skip{})
	}
	k := count[name]
	count[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	r := new(big.Int).Set(lo)
	if lo.Sign() <= 0 && hi.Sign() >= 0 {
		r.SetInt64(0)
	}
	if s, ok := model[name]; ok {
		r.SetString(s, 10)
	}
	return r
}

// U64 is a symbolic word.
func U64(name string, lo, hi uint64) uint64 {
	return value(name, new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi)).Uint64()
}

// I64 is a symbolic signed word.
func I64(name string, lo, hi int64) int64 {
	return value(name, big.NewInt(lo), big.NewInt(hi)).Int64()
}

// Byte is a symbolic byte.
func Byte(name string) byte { return byte(value(name, big.NewInt(0), big.NewInt(255)).Uint64()) }

// Bool is a symbolic truth value.
func Bool(name string) bool { return value(name, big.NewInt(0), big.NewInt(1)).Sign() != 0 }

// Big is a symbolic integer.
func Big(name string, lo, hi *big.Int) *big.Int { return value(name, lo, hi) }

// Assume restricts the executions.
func Assume(c bool) {
	if dump != "" {
		panic(skip{})
	}
	if !c {
		fmt.Println("ZZASSUME")
		os.Exit(0)
	}
}

// Assert states what must hold.
func Assert(c bool, msg string) {
	if dump != "" {
		panic(skip{})
	}
	if !c {
		fmt.Printf("ZZFAIL %s\n", msg)
	}
}

// Possible states what must be satisfiable on every path that reaches it.
func Possible(c bool, msg string) { Assert(c, msg) }

// Add adds and asserts that there is no overflow.
func Add(x, y uint64, msg string) uint64 {
	Assert(x <= ^uint64(0)-y, msg)
	return x + y
}

// Sub subtracts and asserts that there is no overflow.
func Sub(x, y uint64, msg string) uint64 {
	Assert(x >= y, msg)
	return x - y
}

// Show prints a value (for debugging).
func Show(name string, x any) { fmt.Printf("ZZSHOW %s %v\n", name, x) }

// Cover marks a point that must be reachable.
func Cover(msg string) {
	if dump != "" {
		panic(skip{})
	}
}

// Float is a number of which nothing is known.
func Float(name string) float64 { return 0 }

// Balanced is the balanced integer with these residues (native: none, see Symbolic).
func Balanced(words, moduli []uint64) *big.Int {
	Q, x := big.NewInt(1), new(big.Int)
	for _, q := range moduli {
		Q.Mul(Q, new(big.Int).SetUint64(q))
	}
	for l, q := range moduli {
		m := new(big.Int).SetUint64(q)
		g := new(big.Int).Div(Q, m)
		g.Mul(g, new(big.Int).ModInverse(g, m))
		x.Add(x, g.Mul(g, new(big.Int).SetUint64(words[l])))
	}
	x.Mod(x, Q)
	if new(big.Int).Lsh(x, 1).Cmp(Q) > 0 {
		x.Sub(x, Q)
	}
	return x
}

// Most is a number that the absolute value of x does not exceed.
func Most(x *big.Int) *big.Int { return new(big.Int).Abs(x) }

// SameHash tells whether two outputs of a hash function have the same input
// (natively, whether they are equal).
func SameHash(a, b []byte) bool { return bytes.Equal(a, b) }

var kernels int

// Kernel is a basis of the combinations of the numbers that are free of the symbols with
// these names modulo a prime (natively, that of the counterexample).
func Kernel(xs []*big.Int, q *big.Int, names []string) [][]*big.Int {
	if dump != "" {
		panic(skip{})
	}
	var txt [][]string
	json.Unmarshal([]byte(model[fmt.Sprintf("kernel:%d", kernels)]), &txt)
	kernels++
	var out [][]*big.Int
	for _, r := range txt {
		var row []*big.Int
		for _, t := range r {
			x, _ := new(big.Int).SetString(t, 10)
			row = append(row, x)
		}
		out = append(out, row)
	}
	return out
}

// Symbolic tells whether the executor runs (false natively).
func Symbolic() bool { return false }

// MustPanic tells whether f panics.
func MustPanic(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(skip); ok {
				panic(e)
			}
			p = true
		}
	}()
	f()
	return false
}

// Param is a parameter of the job.
func Param(name string) int {
	var p map[string]int
	json.Unmarshal([]byte(os.Getenv("VERIF_PARAMS")), &p)
	return p[name]
}

// Setup runs f natively; the executor starts from a copy of what it returns.
func Setup[T any](name string, f func() T) T {
	r := f()
	if dump != "" {
		dumps[name] = node(reflect.ValueOf(&r).Elem())
	}
	return r
}

// --- dumping of object graphs

type key struct {
	p unsafe.Pointer
	t reflect.Type
}

var (
	objs   = []any{}
	objID  = map[key]int{}
	arrs   = []any{}
	arrID  = map[key]int{}
	bigInt = reflect.TypeOf(big.Int{})
)

func node(v reflect.Value) any {
	if v.Type() == bigInt {
		if v.CanAddr() {
			return map[string]any{"b": (*big.Int)(unsafe.Pointer(v.UnsafeAddr())).String()}
		}
		return nil
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(math.Float64bits(v.Float()))
	case reflect.String:
		return v.String()
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		k := key{v.UnsafePointer(), v.Type()}
		id, ok := objID[k]
		if !ok {
			id = len(objs)
			objID[k] = id
			objs = append(objs, nil)
			objs[id] = node(v.Elem())
		}
		return map[string]any{"p": id}
	case reflect.Struct:
		o := make([]any, v.NumField())
		for i := range o {
			o[i] = node(v.Field(i))
		}
		return o
	case reflect.Array:
		o := make([]any, v.Len())
		for i := range o {
			o[i] = node(v.Index(i))
		}
		return o
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		k := key{v.UnsafePointer(), v.Type()}
		full := v.Slice(0, v.Cap())
		if v.Cap() == 0 {
			return map[string]any{"l": -1, "n": 0}
		}
		id, ok := arrID[k]
		if !ok {
			id = len(arrs)
			arrID[k] = id
			arrs = append(arrs, nil)
			o := make([]any, full.Len())
			for i := range o {
				o[i] = node(full.Index(i))
			}
			arrs[id] = o
		}
		return map[string]any{"l": id, "n": v.Len()}
	}
	return nil
}
