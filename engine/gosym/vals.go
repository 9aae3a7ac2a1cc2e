package gosym

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

type (
	N     = sym.N
	Val   = sym.Val
	State = sym.State
)

// M couples a program with an executor.
type M struct {
	*Prog
	X        *sym.Exec
	globals  map[*ssa.Global]*sym.Obj
	GlobalSt map[*sym.Obj]*sym.Mem // contents after package initialisation
	strs     map[string]sym.Slice
	// Hook intercepts calls; handled=false means: execute the body.
	Hook    func(m *M, st *State, f *ssa.Function, args []Val) (outs []sym.Outcome, handled bool)
	inited  map[*ssa.Package]bool
	opaque  int
	Foreign map[string]bool // functions outside the module that were executed
	lazy    bool
	initSt  *State
}

func NewM(p *Prog, seed uint64) *M {
	iw := int(p.Sizes.Sizeof(types.Typ[types.Int])) * 8
	return &M{Prog: p, X: sym.NewExec(iw, seed), globals: map[*ssa.Global]*sym.Obj{}, GlobalSt: map[*sym.Obj]*sym.Mem{}, strs: map[string]sym.Slice{}, inited: map[*ssa.Package]bool{}, Foreign: map[string]bool{}}
}

// NewState is a state that holds the globals.
func (m *M) NewState() *State {
	st := &State{Heap: map[*sym.Obj]*sym.Mem{}, Regs: map[interface{}]Val{}}
	for o, c := range m.GlobalSt {
		st.Heap[o] = c
	}
	return st
}

func (m *M) nilSlice(stride int) sym.Slice {
	z := m.X.Int(0)
	return sym.Slice{O: nil, Off: z, Len: z, Cap: z, Stride: stride}
}

// Zero gives the leaves of the zero value of t.
func (m *M) Zero(t types.Type) []Val {
	c := m.X.C
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []Val
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, m.Zero(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		e := m.Zero(u.Elem())
		out := make([]Val, 0, len(e)*int(u.Len()))
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, e...)
		}
		return out
	case *types.Basic:
		if w, _, ok := m.intInfo(t); ok {
			return []Val{c.Const(w, 0)}
		}
		if u.Info()&types.IsString != 0 {
			return []Val{sym.Str{S: m.nilSlice(1)}}
		}
		if u.Kind() == types.UnsafePointer {
			return []Val{sym.Ptr{}}
		}
		return []Val{opaqueVal{t.String()}}
	case *types.Pointer:
		return []Val{sym.Ptr{}}
	case *types.Slice:
		return []Val{m.nilSlice(m.layout(u.Elem()).n)}
	case *types.Interface:
		return []Val{sym.Iface{}}
	case *types.Signature:
		return []Val{sym.Fun{}}
	}
	return []Val{opaqueVal{"nil " + t.String()}}
}

// Fresh gives the leaves of an arbitrary value of t made of scalars.
func (m *M) Fresh(t types.Type, name string) []Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []Val
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, m.Fresh(u.Field(i).Type(), name+"."+u.Field(i).Name())...)
		}
		return out
	case *types.Array:
		var out []Val
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, m.Fresh(u.Elem(), name+"["+itoa(int(i))+"]")...)
		}
		return out
	}
	if w, _, ok := m.intInfo(t); ok {
		return []Val{m.X.C.Var(w, name)}
	}
	return []Val{opaqueVal{name}}
}

func itoa(i int) string {
	return constant.MakeInt64(int64(i)).ExactString()
}

type opaqueVal struct{ what string }

func (m *M) wrap(t types.Type, cells []Val) Val {
	if isAgg(t) {
		return sym.Agg(cells)
	}
	return cells[0]
}

func leaves(t types.Type, v Val) []Val {
	if isAgg(t) {
		return []Val(v.(sym.Agg))
	}
	return []Val{v}
}

func (m *M) strConst(s string) sym.Str {
	if sl, ok := m.strs[s]; ok {
		return sym.Str{S: sl}
	}
	if s == "" {
		return sym.Str{S: m.nilSlice(1)}
	}
	o := m.X.NewObj("string", sym.ConstK, len(s))
	cells := make([]Val, len(s))
	for i := range cells {
		cells[i] = m.X.C.Const(8, uint64(s[i]))
	}
	m.GlobalSt[o] = &sym.Mem{Cells: cells}
	n := m.X.Int(int64(len(s)))
	sl := sym.Slice{O: o, Off: m.X.Int(0), Len: n, Cap: n, Stride: 1}
	m.strs[s] = sl
	return sym.Str{S: sl}
}

func (m *M) constVal(st *State, k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return m.wrap(t, m.Zero(t))
	}
	if w, _, ok := m.intInfo(t); ok {
		if w == 1 {
			return m.X.C.Bool(constant.BoolVal(k.Value))
		}
		v := constant.ToInt(k.Value)
		if i, exact := constant.Int64Val(v); exact {
			return m.X.C.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return m.X.C.Const(w, u)
	}
	if k.Value.Kind() == constant.String {
		s := m.strConst(constant.StringVal(k.Value))
		if s.S.O != nil {
			if _, ok := st.Heap[s.S.O]; !ok {
				st.Heap[s.S.O] = m.GlobalSt[s.S.O]
			}
		}
		return s
	}
	return opaqueVal{"constant of type " + t.String()}
}

// global gives the object of a package-level variable.
func (m *M) global(st *State, g *ssa.Global) *sym.Obj {
	o := m.globals[g]
	if o == nil {
		et := g.Type().(*types.Pointer).Elem()
		o = m.X.NewObj(g.RelString(nil), sym.Global, m.layout(et).n)
		o.Typ = et
		m.globals[g] = o
		if inModule(g.Pkg) {
			m.GlobalSt[o] = &sym.Mem{Cells: m.Zero(et)}
		} else {
			m.GlobalSt[o] = &sym.Mem{Cells: m.Fresh(et, g.RelString(nil))}
		}
	}
	if _, ok := st.Heap[o]; !ok {
		st.Heap[o] = m.GlobalSt[o]
	}
	return o
}
