//go:build zzideal

package circ

import (
	"fmt"
	"reflect"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/zzverif/sym"
)

// Shape is the shape of an honest proof.
type Shape struct {
	Coms, Evals int
	// Scalars are the names of the fields that hold one field element.
	Scalars []string
	HasOpen bool
	// Len of the committed polynomials in the honest proof.
	Len []int
	// Decl[d] is the index of the commitment of the d-th declared witness (-1: unknown).
	Decl []int
}

// ShapeOf reads the shape of an honest proof of sc.
func ShapeOf(pf *buckler.Proof[E]) *Shape {
	s := &Shape{}
	v := reflect.ValueOf(pf).Elem()
	for i := range v.NumField() {
		switch f := v.Field(i).Interface().(type) {
		case []*jindo.Commitment:
			s.Coms = len(f)
		case []E:
			s.Evals = len(f)
		case E:
			if f != nil {
				s.Scalars = append(s.Scalars, v.Type().Field(i).Name)
			}
		case *jindo.Proof:
			s.HasOpen = f != nil
		}
	}
	return s
}

// Fill makes a proof of this shape.
func (s *Shape) Fill(com func(k int) *jindo.Commitment, eval func(k int) E, scalar func(name string) E) *buckler.Proof[E] {
	pf := &buckler.Proof[E]{}
	v := reflect.ValueOf(pf).Elem()
	for i := range v.NumField() {
		switch v.Field(i).Interface().(type) {
		case []*jindo.Commitment:
			l := make([]*jindo.Commitment, s.Coms)
			for k := range l {
				l[k] = com(k)
			}
			v.Field(i).Set(reflect.ValueOf(l))
		case []E:
			l := make([]E, s.Evals)
			for k := range l {
				l[k] = eval(k)
			}
			v.Field(i).Set(reflect.ValueOf(l))
		case E:
			for _, n := range s.Scalars {
				if n == v.Type().Field(i).Name {
					v.Field(i).Set(reflect.ValueOf(scalar(n)))
				}
			}
		case *jindo.Proof:
			if s.HasOpen {
				v.Field(i).Set(reflect.ValueOf(&jindo.Proof{}))
			}
		}
	}
	return pf
}

// Commitments of a proof.
func Commitments(pf *buckler.Proof[E]) []*jindo.Commitment {
	v := reflect.ValueOf(pf).Elem()
	for i := range v.NumField() {
		if l, ok := v.Field(i).Interface().([]*jindo.Commitment); ok {
			return l
		}
	}
	return nil
}

// Part is one component of a proof (or of the public input) that can be changed.
type Part struct {
	Name string
	Kind string // "com", "scalar", "eval"
	Idx  int
}

// Parts lists the components of a proof of this shape.
func (s *Shape) Parts() (out []Part) {
	for k := range s.Coms {
		out = append(out, Part{fmt.Sprintf("commitment %d", k), "com", k})
	}
	for i, n := range s.Scalars {
		out = append(out, Part{n, "scalar", i})
	}
	for k := range s.Evals {
		out = append(out, Part{fmt.Sprintf("evaluation %d", k), "eval", k})
	}
	return
}

// SlotBasis is the list of the polynomials (degree < n) with one slot 1 and the others 0.
func SlotBasis(n int, inv func(out, in []E)) [][]*sym.Poly {
	out := make([][]*sym.Poly, n)
	for i := range n {
		v, o := Zero(n), Zero(n)
		v[i] = sym.Int(1)
		inv(o, v)
		for j := range n {
			out[i] = append(out[i], o[j].P())
		}
	}
	return out
}
