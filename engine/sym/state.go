// Package sym is the language-independent part of the verification-condition
// generator: symbolic states, memory, control-flow execution with merging at
// joins, loop summaries, and the theory of block absorption.
package sym

import (
	"fmt"

	"verif/engine/term"
)

type N = *term.Node

// Val is a symbolic value: N (scalar), Ptr, Slice, Str, Iface, Fun, Agg or Tuple.
type Val interface{}

type Ptr struct {
	O   *Obj // nil: nil pointer
	Off N    // in cells of O
}
type Slice struct {
	O             *Obj // nil: nil slice
	Off, Len, Cap N
	Stride        int // cells per element
}
type Str struct{ S Slice }
type Iface struct {
	T interface{} // dynamic type; nil: nil interface
	V Val
}
type Fun struct {
	F    interface{}
	Bind []Val
}
type Agg []Val
type Tuple []Val

type Kind int

const (
	Local  Kind = iota // created by the code under execution
	Recv               // argument the contract lets the code write
	Input              // argument the code must not write
	Global             // package-level variable
	ConstK             // literal data
)

type Obj struct {
	ID    int
	Name  string
	Kind  Kind
	N     int         // number of cells; -1 when symbolic
	EW    int         // element width for symbolic-length objects
	Len   N           // number of cells when symbolic
	Typ   interface{} // frontend type
	Ghost interface{}
	// Layout groups byte cells into little-endian scalars (offset -> size).
	Layout map[int]int
}

// Mem is an immutable content.
type Mem struct {
	Cells []Val // fixed size
	FA    *FA   // symbolic size
	owner *State
}

// FA is a functional array of scalars.
type FA struct {
	Kind      int // 0 uninterpreted base, 1 zero, 2 store, 3 copy, 4 ite, 5 cells
	UF        string
	W         int
	Prev      *FA
	Idx, Val  N
	Src       *FA
	SOff, Cnt N
	Cond      N
	Alt       *FA
	Cells     []N
}

const (
	faBase = iota
	faZero
	faStore
	faCopy
	faIte
	faCells
)

func (x *Exec) Sel(f *FA, idx N) N {
	c := x.C
	switch f.Kind {
	case faBase:
		return c.App(f.W, f.UF, idx)
	case faZero:
		return c.Const(f.W, 0)
	case faStore:
		e := c.Eq(idx, f.Idx)
		if e.IsTrue() {
			return f.Val
		}
		r := x.Sel(f.Prev, idx)
		return c.Ite(e, f.Val, r)
	case faCopy:
		rel := c.Sub(idx, f.Idx)
		in := c.Ult(rel, f.Cnt)
		if in.IsTrue() {
			return x.Sel(f.Src, c.Add(rel, f.SOff))
		}
		if in.IsFalse() {
			return x.Sel(f.Prev, idx)
		}
		return c.Ite(in, x.Sel(f.Src, c.Add(rel, f.SOff)), x.Sel(f.Prev, idx))
	case faIte:
		return c.Ite(f.Cond, x.Sel(f.Prev, idx), x.Sel(f.Alt, idx))
	case faCells:
		if idx.IsConst() {
			if idx.K < uint64(len(f.Cells)) {
				return f.Cells[idx.K]
			}
			return c.Const(f.W, 0) // outside: never reached under the bounds obligations
		}
		return x.mux(f.Cells, idx)
	}
	panic("sel")
}

// mux selects among cells with a symbolic index.
func (x *Exec) mux(cells []N, idx N) N {
	c := x.C
	n := len(cells)
	if idx.Max() < uint64(n)-1 {
		n = int(idx.Max()) + 1
	}
	var rec func(lo, hi int) N
	rec = func(lo, hi int) N {
		if hi-lo == 1 {
			return cells[lo]
		}
		mid := (lo + hi) / 2
		a, b := rec(lo, mid), rec(mid, hi)
		if a == b {
			return a
		}
		return c.Ite(c.Ult(idx, c.Const(idx.W, uint64(mid))), a, b)
	}
	if n == 0 {
		return c.Const(8, 0)
	}
	return rec(0, n)
}

type State struct {
	PC   []N
	Heap map[*Obj]*Mem
	Regs map[interface{}]Val
	iter map[int]int
}

func (s *State) Fork() *State {
	s.disown()
	t := &State{PC: s.PC[:len(s.PC):len(s.PC)], Heap: make(map[*Obj]*Mem, len(s.Heap)+4), Regs: make(map[interface{}]Val, len(s.Regs)+8)}
	for k, v := range s.Heap {
		t.Heap[k] = v
	}
	for k, v := range s.Regs {
		t.Regs[k] = v
	}
	if s.iter != nil {
		t.iter = make(map[int]int, len(s.iter))
		for k, v := range s.iter {
			t.iter[k] = v
		}
	}
	return t
}

func (s *State) Assume(n N) {
	if n.IsTrue() {
		return
	}
	for _, p := range s.PC {
		if p == n {
			return
		}
	}
	s.PC = append(s.PC[:len(s.PC):len(s.PC)], n)
}

// wcells gives a privately owned cell slice of o in s.
func (s *State) wcells(o *Obj) []Val {
	m := s.Heap[o]
	if m.owner != s {
		m = &Mem{Cells: append([]Val(nil), m.Cells...), owner: s}
		s.Heap[o] = m
	}
	return m.Cells
}

// disown must be called when a state is forked and the original goes on.
func (s *State) disown() {
	for o, m := range s.Heap {
		if m.owner == s {
			s.Heap[o] = &Mem{Cells: m.Cells, FA: m.FA}
		}
	}
}

// Split forks s into two independent states.
func (s *State) Split() (*State, *State) { return s, s.Fork() }

type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return "unsupported: " + u.Msg }

func Unsup(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}
