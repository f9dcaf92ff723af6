package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Cell struct {
	name string
	typ  types.Type
}

type pathEl struct {
	field int   // struct field
	idx   *Term // array index (when non-nil)
	typ   types.Type
}

// Ptr is an address the executor resolves itself.
type Ptr struct {
	cell *Cell
	comp string // heap component, when cell == nil
	ref  *Term
	idx  *Term // slice element when non-nil
	glob *ssa.Global
	root types.Type // type of the root object
	path []pathEl
	typ  types.Type // pointee type
}

func (p *Ptr) key() string {
	s := fmt.Sprintf("%p|%s|%p|%p|%p", p.cell, p.comp, p.ref, p.idx, p.glob)
	for _, e := range p.path {
		s += fmt.Sprintf("/%d,%p", e.field, e.idx)
	}
	return s
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
	term  *Term
}
type Tuple []Value
type IfaceV struct {
	dyn types.Type
	v   Value
}
type CellSlice struct { // slice over a fixed array cell (varargs)
	cell *Cell
	n    int
	elem types.Type
}
type CellArr struct { // contents of such an array
	elems []Value
}
type MapIter struct {
	visited *Cell
	ref     *Term
	m       *types.Map
	dom0    *Term
	strv    *Term // string iteration
	pos     *Cell
}
type Builtin struct{ name string }
type Poison struct{ why string }

type State struct {
	pc    *Term
	cells map[*Cell]Value
	heap  map[string]*Term
	regs  map[ssa.Value]Value
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, cells: make(map[*Cell]Value, len(s.cells)), heap: make(map[string]*Term, len(s.heap)), regs: make(map[ssa.Value]Value, len(s.regs))}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	return n
}

func sameVal(a, b Value) bool {
	if _, tp := a.(Tuple); !tp && a == b {
		return true
	}
	switch x := a.(type) {
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && x.key() == y.key()
	case *Closure:
		y, ok := b.(*Closure)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.dyn, y.dyn) && sameVal(x.v, y.v)
	case *CellArr:
		y, ok := b.(*CellArr)
		if !ok || len(x.elems) != len(y.elems) {
			return false
		}
		for i := range x.elems {
			if !sameVal(x.elems[i], y.elems[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *CellSlice:
		y, ok := b.(*CellSlice)
		return ok && *x == *y
	case *MapIter:
		y, ok := b.(*MapIter)
		return ok && *x == *y
	}
	return false
}
