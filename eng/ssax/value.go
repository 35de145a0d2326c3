package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: int64 (signed), uint64 (unsigned and uintptr), *Term, bool, *F, float64, *UFloat, string,
// *BStr (a string of symbolic bytes), Struct, Array, Slice, Ptr, Iface, *Closure, *ssa.Function,
// *ssa.Builtin, *MapV, Tuple, BigV, Opaque, complex128, nil (func).
type Value any

type Struct []Value
type Array []Value

// Slice shares its backing array with other slices; nil when arr is nil.
type Slice struct{ arr []Value }

// Ptr points at a cell; rest are the cells from there on when it lies in an array.
type Ptr struct {
	p    *Value
	rest []Value
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

type mapEnt struct{ k, v Value }
type MapV struct {
	m     map[string]*mapEnt
	order []string
}

type Tuple []Value

// BigV is the content of a big.Int.
type BigV struct{ t *Term }

// UFloat is a floating-point number known only as the conversion of an integer (t != nil) or not at all.
type UFloat struct{ t *Term }

// BStr is a string made of symbolic bytes.
type BStr struct{ b []Value }

func bigConst(v *big.Int) BigV { return BigV{&Term{ms: nonzero(v)}} }

func nonzero(v *big.Int) []mono {
	if v.Sign() == 0 {
		return nil
	}
	return []mono{{"", nil, new(big.Int).Set(v)}}
}

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func isSigned(b *types.Basic) bool {
	return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func width(b *types.Basic) uint {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.UntypedRune:
		return 32
	}
	return 64
}

// zero value of a type
func zero(t types.Type) Value {
	if isBigInt(t) {
		return BigV{&Term{}}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return false
		case x.Info()&types.IsInteger != 0:
			if isSigned(x) {
				return int64(0)
			}
			return uint64(0)
		case x.Info()&types.IsFloat != 0:
			return float64(0)
		case x.Info()&types.IsString != 0:
			return ""
		case x.Info()&types.IsComplex != 0:
			return complex128(0)
		case x.Kind() == types.UnsafePointer:
			return Ptr{}
		case x.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Struct:
		s := make(Struct, x.NumFields())
		for i := range s {
			s[i] = zero(x.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, x.Len())
		if x.Len() > 0 {
			z := zero(x.Elem())
			switch z.(type) {
			case Struct, Array:
				a[0] = z
				for i := 1; i < len(a); i++ {
					a[i] = zero(x.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return Ptr{}
	case *types.Signature:
		return nil
	case *types.Tuple:
		o := make(Tuple, x.Len())
		for i := range o {
			o[i] = zero(x.At(i).Type())
		}
		return o
	}
	panic(unsupported("zero value of %v", t))
}

// clone copies aggregates.
func clone(v Value) Value {
	switch x := v.(type) {
	case Struct:
		o := make(Struct, len(x))
		for i := range x {
			o[i] = clone(x[i])
		}
		return o
	case Array:
		o := make(Array, len(x))
		for i := range x {
			o[i] = clone(x[i])
		}
		return o
	}
	return v
}

// Panic is a panic of the program under test.
type Panic struct {
	v  Value
	at string
}

func (m *M) panicf(f string, a ...any) {
	panic(&Panic{v: Iface{T: types.Typ[types.String], V: fmt.Sprintf(f, a...)}, at: m.where()})
}

func show(v Value) string {
	switch x := v.(type) {
	case Iface:
		return show(x.V)
	case string:
		return x
	case Ptr:
		if x.p != nil {
			return "&" + show(*x.p)
		}
		return "nil"
	case Struct:
		s := "{"
		for _, e := range x {
			s += show(e) + " "
		}
		return s + "}"
	case *Term:
		return "<symbolic>"
	}
	return fmt.Sprint(v)
}
