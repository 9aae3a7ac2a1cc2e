package gosym

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

func (m *M) opaqueStr(st *State) sym.Str {
	m.opaque++
	l := m.X.C.Fresh(m.X.IW, "strlen")
	o := m.X.NewFA(st, fmt.Sprintf("opaque%d", m.opaque), sym.Input, 8, l)
	return sym.Str{S: sym.Slice{O: o, Off: m.X.Int(0), Len: l, Cap: l, Stride: 1}}
}

type opaqueType struct{ name string }

func one(st *State, rs ...Val) []sym.Outcome { return []sym.Outcome{{St: st, Ret: rs}} }

func (m *M) call(st *State, cc *ssa.CallCommon, site ssa.Instruction) []sym.Outcome {
	var args []Val
	if cc.IsInvoke() {
		v, ok := m.val(st, cc.Value).(sym.Iface)
		if !ok {
			sym.Unsup("method call on %T", m.val(st, cc.Value))
		}
		if v.T == nil {
			m.X.Require(st, "nil", "method call on a nil interface is unreachable", m.X.C.False())
			return nil
		}
		t, ok := v.T.(types.Type)
		if !ok {
			sym.Unsup("method %s of an opaque value", cc.Method.Name())
		}
		f := m.SSA.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
		if f == nil {
			sym.Unsup("no method %s on %s", cc.Method.Name(), t)
		}
		args = append(args, v.V)
		for _, a := range cc.Args {
			args = append(args, m.val(st, a))
		}
		return m.Call(st, f, nil, args)
	}
	for _, a := range cc.Args {
		args = append(args, m.val(st, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return m.builtin(st, b, cc, args)
	}
	f, ok := m.val(st, cc.Value).(sym.Fun)
	if !ok {
		sym.Unsup("call of %T", m.val(st, cc.Value))
	}
	if f.F == nil {
		m.X.Require(st, "nil", "call of a nil function is unreachable", m.X.C.False())
		return nil
	}
	return m.Call(st, f.F.(*ssa.Function), f.Bind, args)
}

// Call runs f on args; the registers of st are preserved.
func (m *M) Call(st *State, f *ssa.Function, bind, args []Val) []sym.Outcome {
	if m.Hook != nil {
		if outs, ok := m.Hook(m, st, f, args); ok {
			return outs
		}
	}
	if outs, ok := m.foreign(st, f, args); ok {
		return outs
	}
	g := m.fn(f)
	saved := st.Regs
	st.Regs = map[interface{}]Val{}
	for i, p := range f.Params {
		st.Regs[p] = args[i]
	}
	for i, p := range f.FreeVars {
		st.Regs[p] = bind[i]
	}
	if !inModule(pkgOf(f)) {
		m.Foreign[shortName(f)] = true
	}
	pos := m.X.Pos
	outs := m.X.CallFn(g, st)
	m.X.Pos = pos
	for i := range outs {
		if i == 0 {
			outs[i].St.Regs = saved
			continue
		}
		r := make(map[interface{}]Val, len(saved)+1)
		for k, v := range saved {
			r[k] = v
		}
		outs[i].St.Regs = r
	}
	if len(outs) > 1 {
		r := make(map[interface{}]Val, len(saved)+1)
		for k, v := range saved {
			r[k] = v
		}
		outs[0].St.Regs = r
	}
	return outs
}

func pkgOf(f *ssa.Function) *ssa.Package {
	if f.Pkg != nil {
		return f.Pkg
	}
	if f.Parent() != nil {
		return pkgOf(f.Parent())
	}
	if o := f.Origin(); o != nil && o != f {
		return pkgOf(o)
	}
	return nil
}

func (m *M) foreign(st *State, f *ssa.Function, args []Val) ([]sym.Outcome, bool) {
	p := pkgOf(f)
	if p == nil || inModule(p) {
		if p != nil && f.Name() == "init" && f.Synthetic != "" && m.inited[p] {
			return one(st), true
		}
		if p != nil && f.Name() == "init" && f.Synthetic != "" {
			m.inited[p] = true
		}
		return nil, false
	}
	if f.Name() == "init" {
		return one(st), true
	}
	c := m.X.C
	switch f.String() {
	case "math/bits.RotateLeft32", "math/bits.RotateLeft64":
		x, k := m.n(args[0]), m.n(args[1])
		if k.IsConst() {
			return one(st, c.RotlC(x, int(k.K)&(x.W-1))), true
		}
		s := c.And(c.Extract(k, 0, x.W), c.Const(x.W, uint64(x.W-1)))
		inv := c.And(c.Neg(s), c.Const(x.W, uint64(x.W-1)))
		return one(st, c.Or(c.Shl(x, s), c.Lshr(x, inv))), true
	case "runtime.KeepAlive", "runtime.GC", "runtime.Gosched":
		return one(st), true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return one(st), true
	}
	switch p.Pkg.Path() {
	case "fmt":
		switch f.Name() {
		case "Sprintf", "Sprint", "Sprintln":
			return one(st, m.opaqueStr(st)), true
		case "Errorf":
			return one(st, sym.Iface{T: opaqueType{"fmt.Errorf"}}), true
		}
	}
	return nil, false
}

func (m *M) width(t types.Type) int {
	w, _, ok := m.intInfo(t)
	if !ok {
		return 0
	}
	return w
}

func (m *M) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val) []sym.Outcome {
	x := m.X
	c := x.C
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case sym.Slice:
			return one(st, v.Len)
		case sym.Str:
			return one(st, v.S.Len)
		}
	case "cap":
		if v, ok := args[0].(sym.Slice); ok {
			return one(st, v.Cap)
		}
	case "min", "max":
		if _, ok := args[0].(N); ok {
			_, signed, _ := m.intInfo(cc.Args[0].Type())
			r := m.n(args[0])
			for _, a := range args[1:] {
				q := m.n(a)
				var lt N
				if signed {
					lt = c.Slt(r, q)
				} else {
					lt = c.Ult(r, q)
				}
				if b.Name() == "min" {
					r = c.Ite(lt, r, q)
				} else {
					r = c.Ite(lt, q, r)
				}
			}
			return one(st, r)
		}
	case "append":
		a, ok := args[0].(sym.Slice)
		if !ok {
			break
		}
		var e sym.Slice
		switch v := args[1].(type) {
		case sym.Slice:
			e = v
		case sym.Str:
			e = v.S
		}
		return m.appendTo(st, a, e, cc.Args[0].Type().Underlying().(*types.Slice).Elem())
	case "copy":
		d := args[0].(sym.Slice)
		var s sym.Slice
		switch v := args[1].(type) {
		case sym.Slice:
			s = v
		case sym.Str:
			s = v.S
		}
		return m.copyTo(st, d, s, elemOf(cc.Args[0].Type()))
	case "clear":
		if s, ok := args[0].(sym.Slice); ok {
			if s.O == nil {
				return one(st)
			}
			et := elemOf(cc.Args[0].Type())
			z := m.Zero(et)
			if s.Len.IsConst() {
				var v []Val
				for i := uint64(0); i < s.Len.K; i++ {
					v = append(v, z...)
				}
				x.Store(st, sym.Ptr{O: s.O, Off: s.Off}, v)
				return one(st)
			}
			if w := m.width(et); w > 0 {
				t := x.ZeroFA(st, "zero", w, s.Len)
				x.Copy(st, sym.Ptr{O: s.O, Off: s.Off}, sym.Ptr{O: t, Off: x.Int(0)}, s.Len, w, nil, nil)
				delete(st.Heap, t)
				return one(st)
			}
		}
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "print", "println":
		return one(st)
	case "String":
	case "SliceData", "StringData":
		if s, ok := args[0].(sym.Slice); ok {
			return one(st, sym.Ptr{O: s.O, Off: s.Off})
		}
	case "Slice":
		if p, ok := args[0].(sym.Ptr); ok && p.O != nil && p.O.N >= 0 && p.Off.IsConst() {
			n := m.toIW(st, m.n(args[1]), cc.Args[1].Type())
			et := cc.Args[0].Type().Underlying().(*types.Pointer).Elem()
			stride := m.layout(et).n
			x.Require(st, "bounds", "unsafe.Slice inside the object", c.Ule(n, x.Int(int64((p.O.N-int(p.Off.K))/stride))))
			return one(st, sym.Slice{O: p.O, Off: p.Off, Len: n, Cap: n, Stride: stride})
		}
	}
	sym.Unsup("builtin %s", b.Name())
	return nil
}

func (m *M) move(st *State, d, s sym.Slice, n N, et types.Type) {
	x := m.X
	w := m.width(et)
	cnt := x.C.MulC(n, uint64(d.Stride))
	if w == 0 && !cnt.IsConst() {
		sym.Unsup("copy of a symbolic number of %s", et)
	}
	var dl, sl N
	if d.Len != nil {
		dl = x.C.MulC(d.Len, uint64(d.Stride))
	}
	if s.Len != nil {
		sl = x.C.MulC(s.Len, uint64(s.Stride))
	}
	x.Copy(st, sym.Ptr{O: d.O, Off: d.Off}, sym.Ptr{O: s.O, Off: s.Off}, cnt, w, dl, sl)
}

func (m *M) copyTo(st *State, d, s sym.Slice, et types.Type) []sym.Outcome {
	x := m.X
	if d.O == nil || s.O == nil {
		return one(st, x.Int(0))
	}
	if d.Len == s.Len {
		m.move(st, d, s, d.Len, et)
		return one(st, d.Len)
	}
	// two cases, so that the number of bytes moved is simple in each
	t, f := x.Branch(st, x.C.Ule(d.Len, s.Len))
	var outs []sym.Outcome
	if t != nil {
		m.move(t, d, s, d.Len, et)
		outs = append(outs, sym.Outcome{St: t, Ret: []Val{d.Len}})
	}
	if f != nil {
		m.move(f, d, s, s.Len, et)
		outs = append(outs, sym.Outcome{St: f, Ret: []Val{s.Len}})
	}
	return outs
}

func (m *M) appendTo(st *State, a, e sym.Slice, et types.Type) []sym.Outcome {
	x := m.X
	c := x.C
	if e.O == nil || e.Len.IsConst() && e.Len.K == 0 {
		return one(st, a)
	}
	n := c.Add(a.Len, e.Len)
	// A slice never holds more than the address space.
	x.Require(st, "bounds", "append: length does not overflow", c.Ule(a.Len, n))
	fits := c.Ule(n, a.Cap)
	if a.O == nil {
		fits = c.False()
	}
	t, f := x.Branch(st, fits)
	var outs []sym.Outcome
	if t != nil {
		m.move(t, sym.Slice{O: a.O, Off: c.Add(a.Off, c.MulC(a.Len, uint64(a.Stride))), Stride: a.Stride}, e, e.Len, et)
		outs = append(outs, sym.Outcome{St: t, Ret: []Val{sym.Slice{O: a.O, Off: a.Off, Len: n, Cap: a.Cap, Stride: a.Stride}}})
	}
	if f != nil {
		stride := m.layout(et).n
		var o *sym.Obj
		if n.IsConst() && n.K < 1<<16 {
			o = x.NewObj("append", sym.Local, int(n.K)*stride)
			z := m.Zero(et)
			var cells []Val
			for i := uint64(0); i < n.K; i++ {
				cells = append(cells, z...)
			}
			f.SetCells(o, cells)
		} else {
			w := m.width(et)
			if w == 0 {
				sym.Unsup("append of a symbolic number of %s", et)
			}
			o = x.ZeroFA(f, "append", w, n)
		}
		r := sym.Slice{O: o, Off: x.Int(0), Len: n, Cap: n, Stride: stride}
		if a.O != nil {
			old := f.Heap[a.O]
			if w := m.width(et); old != nil && old.FA != nil && old.FA.W == w && a.Off.IsConst() && a.Off.K == 0 && f.Heap[o].FA != nil {
				// the same contents: what follows the elements is overwritten below
				f.Heap[o] = &sym.Mem{FA: old.FA}
			} else {
				m.move(f, r, a, a.Len, et)
			}
		}
		m.move(f, sym.Slice{O: o, Off: c.MulC(a.Len, uint64(stride)), Stride: stride}, e, e.Len, et)
		outs = append(outs, sym.Outcome{St: f, Ret: []Val{r}})
	}
	return outs
}

// InitModule runs the initialisers of the module's packages.
func (m *M) InitModule() error {
	var errs []string
	for path, p := range m.Pkgs {
		if !strings.HasPrefix(path, Module) {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(sym.Unsupported); ok {
						errs = append(errs, path+": "+u.Msg)
						return
					}
					panic(r)
				}
			}()
			if m.inited[p] {
				return
			}
			st := m.NewState()
			outs := m.Call(st, p.Func("init"), nil, nil)
			if len(outs) != 1 {
				errs = append(errs, fmt.Sprintf("%s: initialisation has %d outcomes", path, len(outs)))
				return
			}
			for o, c := range outs[0].St.Heap {
				m.GlobalSt[o] = &sym.Mem{Cells: c.Cells, FA: c.FA}
				if o.Kind == sym.Local {
					o.Kind = sym.Global // reachable from package variables only
				}
			}
		}()
	}
	m.X.Obligs, m.X.Frame = nil, nil
	if len(errs) > 0 {
		return fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	return nil
}

// Global finds a package-level variable.
func (m *M) GlobalObj(st *State, pkg, name string) *sym.Obj {
	p := m.Pkgs[pkg]
	if p == nil {
		return nil
	}
	g := p.Var(name)
	if g == nil {
		return nil
	}
	return m.global(st, g)
}

var _ = token.ADD
