package csym

import (
	"fmt"
	"strings"

	"verif/engine/sym"
)

type (
	N     = sym.N
	Val   = sym.Val
	State = sym.State
)

// M couples the modules of a C program with an executor. The address space is
// byte-granular; scalars are little endian (x86-64).
type M struct {
	X         *sym.Exec
	Mods      []*Module
	globals   map[*Global]*sym.Obj
	GlobalMem map[*sym.Obj]*sym.Mem
	fns       map[*Func]*cFn
	undef     int
	// Hook intercepts calls.
	Hook func(st *State, f *Func, args []Val) ([]sym.Outcome, bool)
}

func NewM(x *sym.Exec, mods []*Module) *M {
	return &M{X: x, Mods: mods, globals: map[*Global]*sym.Obj{}, GlobalMem: map[*sym.Obj]*sym.Mem{}, fns: map[*Func]*cFn{}}
}

// Func finds the definition of a function as seen from module from (nil: any).
func (m *M) Func(from *Module, name string) *Func {
	if from != nil {
		if f := from.Funcs[name]; f != nil {
			return f
		}
	}
	for _, q := range m.Mods {
		if f := q.Funcs[name]; f != nil && (!f.Local || from == nil) {
			return f
		}
	}
	return nil
}

// Global finds the definition of a global.
func (m *M) Global(from *Module, name string) *Global {
	if from != nil {
		if g := from.Globals[name]; g != nil && (g.Init != nil || g.Local) {
			return g
		}
	}
	for _, q := range m.Mods {
		if g := q.Globals[name]; g != nil && g.Init != nil && (!g.Local || from == nil) {
			return g
		}
	}
	return nil
}

// GlobalObj gives the object of a global variable in st.
func (m *M) GlobalObj(st *State, g *Global) *sym.Obj {
	o := m.globals[g]
	if o == nil {
		k := sym.Global
		o = m.X.NewObj("C global "+g.Name, k, g.T.Size())
		o.Layout = map[int]int{}
		g.T.Layout(0, o.Layout)
		m.globals[g] = o
		cells := make([]Val, g.T.Size())
		for i := range cells {
			cells[i] = m.X.C.Const(8, 0)
		}
		m.initCells(g, cells, 0, g.Init)
		m.GlobalMem[o] = &sym.Mem{Cells: cells}
	}
	if st.Heap[o] == nil {
		st.Heap[o] = m.GlobalMem[o]
	}
	return o
}

func (m *M) initCells(g *Global, cells []Val, off int, v *Op) {
	switch v.Kind {
	case 'z', 'n', 'u':
	case 'k':
		for i := 0; i < v.T.Size(); i++ {
			cells[off+i] = m.X.C.Const(8, v.K>>(8*uint(i))&0xff)
		}
	case 'c':
		for i, a := range v.Args {
			o := off
			if v.T.Kind == 'a' {
				o += i * v.T.Elem.Size()
			} else {
				o += v.T.Off(i)
			}
			m.initCells(g, cells, o, a)
		}
	default:
		sym.Unsup("initialiser of C global %s", g.Name)
	}
}

type cReg struct {
	f    *cFn
	name string
}

func (r cReg) String() string { return r.f.f.Name + r.name }

type cAlloca struct {
	f  *cFn
	in *Inst
}

func (r cAlloca) String() string { return r.f.f.Name + " alloca " + r.in.Dst }

// cFn implements sym.Fn.
type cFn struct {
	m    *M
	f    *Func
	live []map[string]bool
}

func (m *M) fn(f *Func) *cFn {
	if g := m.fns[f]; g != nil {
		return g
	}
	g := &cFn{m: m, f: f}
	g.liveness()
	m.fns[f] = g
	return g
}

func regs(o *Op, f func(string)) {
	if o == nil {
		return
	}
	if o.Kind == 'r' {
		f(o.Name)
	}
	for _, a := range o.Args {
		regs(a, f)
	}
}

func (g *cFn) liveness() {
	n := len(g.f.Blocks)
	g.live = make([]map[string]bool, n)
	for i := range g.live {
		g.live[i] = map[string]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := g.f.Blocks[i]
			cur := map[string]bool{}
			for _, s := range b.Succs {
				for v := range g.live[s] {
					cur[v] = true
				}
				for _, ph := range g.f.Blocks[s].Phis {
					for k, t := range ph.To {
						if t == b.Name {
							regs(ph.Args[k], func(r string) { cur[r] = true })
						}
					}
				}
			}
			for j := len(b.Body) - 1; j >= 0; j-- {
				in := b.Body[j]
				delete(cur, in.Dst)
				for _, a := range in.Args {
					regs(a, func(r string) { cur[r] = true })
				}
				regs(in.Fn, func(r string) { cur[r] = true })
			}
			for _, ph := range b.Phis {
				delete(cur, ph.Dst)
			}
			if len(cur) != len(g.live[i]) {
				g.live[i] = cur
				ch = true
			}
		}
	}
}

func (g *cFn) Name() string      { return "C " + g.f.Name }
func (g *cFn) NumBlocks() int    { return len(g.f.Blocks) }
func (g *cFn) Succs(b int) []int { return g.f.Blocks[b].Succs }

func (g *cFn) Enter(x *sym.Exec, st *State, from, to int) {
	b := g.f.Blocks[to]
	fromName := g.f.Blocks[from].Name
	var vals []Val
	for _, ph := range b.Phis {
		var v Val
		for k, t := range ph.To {
			if t == fromName {
				v = g.val(st, ph.Args[k])
			}
		}
		if v == nil {
			sym.Unsup("phi without an edge in %s", g.f.Name)
		}
		vals = append(vals, v)
	}
	for k := range st.Regs {
		if r, ok := k.(cReg); ok && r.f == g && !g.live[to][r.name] {
			delete(st.Regs, k)
		}
	}
	for i, ph := range b.Phis {
		st.Regs[cReg{g, ph.Dst}] = vals[i]
	}
}

func (g *cFn) Run(x *sym.Exec, st *State, b int) []sym.Out {
	return g.runBlock(st, g.f.Blocks[b], 0)
}

func (g *cFn) val(st *State, o *Op) Val {
	c := g.m.X.C
	switch o.Kind {
	case 'r':
		v, ok := st.Regs[cReg{g, o.Name}]
		if !ok {
			sym.Unsup("register %s of %s has no value", o.Name, g.f.Name)
		}
		return v
	case 'k':
		return c.Const(o.T.W, o.K)
	case 'n':
		return sym.Ptr{}
	case 'z':
		if o.T.Kind == 'i' {
			return c.Const(o.T.W, 0)
		}
		return sym.Ptr{}
	case 'u':
		if o.T.Kind == 'i' {
			return c.Fresh(o.T.W, "undef")
		}
	case 'g':
		if q := g.m.Global(g.f.Mod, o.Name); q != nil {
			return sym.Ptr{O: g.m.GlobalObj(st, q), Off: g.m.X.Int(0)}
		}
		if f := g.m.Func(g.f.Mod, o.Name); f != nil {
			return sym.Fun{F: f}
		}
	case 'm':
		return nil
	case 'e':
		return g.gep(st, o.Src, o.Args)
	}
	sym.Unsup("C operand %c %s", o.Kind, o.Name)
	return nil
}

func (g *cFn) n(st *State, o *Op) N {
	v, ok := g.val(st, o).(N)
	if !ok {
		sym.Unsup("integer expected in %s", g.f.Name)
	}
	return v
}

func (g *cFn) ptr(st *State, o *Op) sym.Ptr {
	v, ok := g.val(st, o).(sym.Ptr)
	if !ok {
		sym.Unsup("pointer expected in %s", g.f.Name)
	}
	return v
}

func (g *cFn) gep(st *State, t *Type, args []*Op) Val {
	c := g.m.X.C
	p := g.ptr(st, args[0])
	off := c.Const(64, 0)
	for i, a := range args[1:] {
		k := g.n(st, a)
		k = c.SExt(k, 64)
		switch {
		case i == 0:
			off = c.Add(off, c.MulC(k, uint64(t.Size())))
		case t.Kind == 'a':
			t = t.Elem
			off = c.Add(off, c.MulC(k, uint64(t.Size())))
		case t.Kind == 's':
			if !k.IsConst() {
				sym.Unsup("field index")
			}
			off = c.Add(off, c.Const(64, uint64(t.Off(int(k.K)))))
			t = t.Fields[k.K]
		default:
			sym.Unsup("getelementptr into a scalar")
		}
	}
	if p.O == nil {
		if off.IsConst() && off.K == 0 {
			return p
		}
		sym.Unsup("arithmetic on a null pointer")
	}
	return sym.Ptr{O: p.O, Off: c.Add(p.Off, off)}
}

// length is the number of bytes of an object.
func (m *M) length(o *sym.Obj) N {
	if o.N >= 0 {
		return m.X.Int(int64(o.N))
	}
	return o.Len
}

// access requires n bytes at p to lie inside its object.
func (m *M) access(st *State, p sym.Ptr, n N, what string) bool {
	x, c := m.X, m.X.C
	if p.O == nil {
		x.Require(st, "nil", what+" through a null pointer is unreachable", c.False())
		return false
	}
	l := m.length(p.O)
	end := c.Add(p.Off, n)
	ok := c.And(c.Ule(p.Off, end), c.Ule(end, l))
	x.Require(st, "bounds", fmt.Sprintf("%s inside %s", what, p.O.Name), ok)
	return !ok.IsFalse()
}

type ptrPart struct{ i int }

func (m *M) load(st *State, p sym.Ptr, t *Type) (Val, bool) {
	x, c := m.X, m.X.C
	n := t.Size()
	if !m.access(st, p, x.Int(int64(n)), "read") {
		return nil, false
	}
	if p.O.N >= 0 {
		p.Off = x.Concrete(st, p.Off)
	}
	cells := x.Load(st, p, n)
	if t.Kind == 'p' {
		if q, ok := cells[0].(sym.Ptr); ok {
			return q, true
		}
		if q, ok := cells[0].(sym.Fun); ok {
			return q, true
		}
		z := true
		for _, v := range cells {
			if b, ok := v.(N); !ok || !b.IsConst() || b.K != 0 {
				z = false
			}
		}
		if !z {
			sym.Unsup("load of an unknown pointer")
		}
		return sym.Ptr{}, true
	}
	if t.Kind != 'i' {
		sym.Unsup("load of an aggregate")
	}
	parts := make([]N, n)
	for i, v := range cells {
		b, ok := v.(N)
		if !ok {
			sym.Unsup("integer read of a pointer")
		}
		parts[n-1-i] = b
	}
	return c.Extract(c.Concat(parts...), 0, t.W), true
}

func (m *M) store(st *State, p sym.Ptr, t *Type, v Val) bool {
	x, c := m.X, m.X.C
	n := t.Size()
	if !m.access(st, p, x.Int(int64(n)), "write") {
		return false
	}
	if p.O.N >= 0 {
		p.Off = x.Concrete(st, p.Off)
	}
	cells := make([]Val, n)
	switch q := v.(type) {
	case N:
		w := q
		if w.W < 8*n {
			w = c.ZExt(w, 8*n)
		}
		for i := range cells {
			cells[i] = c.Extract(w, 8*i, 8)
		}
	case sym.Ptr:
		if q.O == nil {
			for i := range cells {
				cells[i] = c.Const(8, 0)
			}
			break
		}
		cells[0] = q
		for i := 1; i < n; i++ {
			cells[i] = ptrPart{i}
		}
	default:
		cells[0] = q
		for i := 1; i < n; i++ {
			cells[i] = ptrPart{i}
		}
	}
	x.Store(st, p, cells)
	return true
}

// PutPtr stores a pointer in byte cells.
func PutPtr(cells []Val, v Val) {
	cells[0] = v
	for i := 1; i < len(cells); i++ {
		cells[i] = ptrPart{i}
	}
}

// Access requires n bytes at p to be inside its object.
func (m *M) Access(st *State, p sym.Ptr, n int, what string) bool {
	return m.access(st, p, m.X.Int(int64(n)), what)
}

// LoadInt reads a little-endian integer of n bytes.
func (m *M) LoadInt(st *State, p sym.Ptr, n int) (N, bool) {
	v, ok := m.load(st, p, &Type{Kind: 'i', W: 8 * n})
	if !ok {
		return nil, false
	}
	return v.(N), true
}

// StoreInt writes a little-endian integer.
func (m *M) StoreInt(st *State, p sym.Ptr, v N) bool {
	return m.store(st, p, &Type{Kind: 'i', W: v.W}, v)
}

func (m *M) addr(p sym.Ptr) N {
	c := m.X.C
	if p.O == nil {
		return c.Const(64, 0)
	}
	return c.Add(c.Var(64, fmt.Sprintf("address of %s#%d", p.O.Name, p.O.ID)), p.Off)
}

func (g *cFn) runBlock(st *State, b *Block, from int) []sym.Out {
	m := g.m
	x, c := m.X, m.X.C
	for i := from; i < len(b.Body); i++ {
		in := b.Body[i]
		if in.Pos != "" {
			x.Pos = in.Pos
		}
		set := func(v Val) {
			if in.Dst != "" {
				st.Regs[cReg{g, in.Dst}] = v
			}
		}
		switch in.Op {
		case "alloca":
			k := 1
			if len(in.Args) > 0 {
				q := g.n(st, in.Args[0])
				if !q.IsConst() || q.K > 1<<16 {
					sym.Unsup("variable-length array in %s", g.f.Name)
				}
				k = int(q.K)
			}
			o := x.NewObj(g.f.Name+" "+in.Dst, sym.Local, in.T.Size()*k)
			cells := make([]Val, o.N)
			for j := range cells {
				cells[j] = c.Fresh(8, "uninit")
			}
			o.Layout = map[int]int{}
			for j := 0; j < k; j++ {
				in.T.Layout(j*in.T.Size(), o.Layout)
			}
			st.SetCells(o, cells)
			st.Regs[cAlloca{g, in}] = sym.Ptr{O: o, Off: x.Int(0)}
			set(sym.Ptr{O: o, Off: x.Int(0)})
		case "load":
			v, ok := m.load(st, g.ptr(st, in.Args[0]), in.T)
			if !ok {
				return nil
			}
			set(v)
		case "store":
			if !m.store(st, g.ptr(st, in.Args[1]), in.T, g.val(st, in.Args[0])) {
				return nil
			}
		case "getelementptr":
			set(g.gep(st, in.T, in.Args))
		case "add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem":
			set(g.binop(st, in))
		case "icmp":
			set(g.icmp(st, in))
		case "zext":
			set(c.ZExt(g.n(st, in.Args[0]), in.T.W))
		case "sext":
			set(c.SExt(g.n(st, in.Args[0]), in.T.W))
		case "trunc":
			set(c.Extract(g.n(st, in.Args[0]), 0, in.T.W))
		case "ptrtoint":
			a := m.addr(g.ptr(st, in.Args[0]))
			set(c.Extract(a, 0, in.T.W))
		case "freeze", "bitcast":
			set(g.val(st, in.Args[0]))
		case "select":
			k, a, e := g.n(st, in.Args[0]), g.val(st, in.Args[1]), g.val(st, in.Args[2])
			switch {
			case k.IsTrue():
				set(a)
			case k.IsFalse():
				set(e)
			default:
				t, f := x.Branch(st, k)
				var outs []sym.Out
				var v Val
				for q, s := range []*State{t, f} {
					if s == nil {
						continue
					}
					v = a
					if q == 1 {
						v = e
					}
					s.Regs[cReg{g, in.Dst}] = v
					outs = append(outs, g.runBlock(s, b, i+1)...)
				}
				return outs
			}
		case "call":
			outs := g.call(st, in)
			if len(outs) == 1 {
				st = outs[0].St
				if in.Dst != "" {
					st.Regs[cReg{g, in.Dst}] = outs[0].Ret[0]
				}
				continue
			}
			var all []sym.Out
			for _, o := range outs {
				if in.Dst != "" {
					o.St.Regs[cReg{g, in.Dst}] = o.Ret[0]
				}
				all = append(all, g.runBlock(o.St, b, i+1)...)
			}
			return all
		case "br":
			if len(in.To) == 1 {
				return []sym.Out{{St: st, To: g.f.byName[in.To[0]]}}
			}
			t, f := x.Branch(st, g.n(st, in.Args[0]))
			var outs []sym.Out
			if t != nil {
				outs = append(outs, sym.Out{St: t, To: g.f.byName[in.To[0]]})
			}
			if f != nil {
				outs = append(outs, sym.Out{St: f, To: g.f.byName[in.To[1]]})
			}
			return outs
		case "switch":
			v := g.n(st, in.Args[0])
			v = x.Concrete(st, v)
			var outs []sym.Out
			for k, cv := range in.Cases {
				t, f := x.Branch(st, c.Eq(v, c.Const(v.W, cv)))
				if t != nil {
					outs = append(outs, sym.Out{St: t, To: g.f.byName[in.To[k+1]]})
				}
				st = f
				if st == nil {
					return outs
				}
			}
			return append(outs, sym.Out{St: st, To: g.f.byName[in.To[0]]})
		case "ret":
			var ret []Val
			if len(in.Args) > 0 {
				ret = []Val{g.val(st, in.Args[0])}
			}
			for k, v := range st.Regs {
				if a, ok := k.(cAlloca); ok && a.f == g {
					delete(st.Heap, v.(sym.Ptr).O)
				}
			}
			return []sym.Out{{St: st, To: -1, Ret: ret}}
		case "unreachable":
			x.Require(st, "panic", "unreachable code is not reached", c.False())
			return nil
		default:
			sym.Unsup("%s in %s", in.Op, g.f.Name)
		}
	}
	sym.Unsup("block without a terminator in %s", g.f.Name)
	return nil
}

func (g *cFn) binop(st *State, in *Inst) Val {
	x, c := g.m.X, g.m.X.C
	a, b := g.n(st, in.Args[0]), g.n(st, in.Args[1])
	w := a.W
	msb := func(n N) N { return c.Extract(n, w-1, 1) }
	nsw := in.Flags["nsw"]
	switch in.Op {
	case "add":
		r := c.Add(a, b)
		if nsw {
			x.Require(st, "ub", "signed addition does not overflow", c.Not(msb(c.And(c.Xor(a, r), c.Xor(b, r)))))
		}
		return r
	case "sub":
		r := c.Sub(a, b)
		if nsw {
			x.Require(st, "ub", "signed subtraction does not overflow", c.Not(msb(c.And(c.Xor(a, b), c.Xor(a, r)))))
		}
		return r
	case "mul":
		if nsw && w <= 32 {
			p := c.Mul(c.SExt(a, 2*w), c.SExt(b, 2*w))
			x.Require(st, "ub", "signed multiplication does not overflow", c.Eq(p, c.SExt(c.Extract(p, 0, w), 2*w)))
		}
		return c.Mul(a, b)
	case "and":
		return c.And(a, b)
	case "or":
		return c.Or(a, b)
	case "xor":
		return c.Xor(a, b)
	case "shl", "lshr", "ashr":
		x.Require(st, "ub", "shift by less than the width", c.Ult(b, c.Const(w, uint64(w))))
		if b.IsConst() {
			k := int(b.K)
			if k >= w {
				k = 0
			}
			switch in.Op {
			case "shl":
				return c.ShlC(a, k)
			case "lshr":
				return c.LshrC(a, k)
			}
			return c.AshrC(a, k)
		}
		switch in.Op {
		case "shl":
			return c.Shl(a, b)
		case "lshr":
			return c.Lshr(a, b)
		}
		return c.Ashr(a, b)
	}
	x.Require(st, "ub", "division by zero is unreachable", c.Ne(b, c.Const(w, 0)))
	switch in.Op {
	case "udiv":
		return c.UDiv(a, b)
	case "urem":
		return c.URem(a, b)
	case "sdiv":
		return c.SDiv(a, b)
	}
	return c.SRem(a, b)
}

func (g *cFn) icmp(st *State, in *Inst) Val {
	m := g.m
	c := m.X.C
	u, v := g.val(st, in.Args[0]), g.val(st, in.Args[1])
	a, ok1 := u.(N)
	b, ok2 := v.(N)
	if !ok1 || !ok2 {
		_, f1 := u.(sym.Fun)
		_, f2 := v.(sym.Fun)
		p, q1 := u.(sym.Ptr)
		q, q2 := v.(sym.Ptr)
		switch {
		case f1 || f2:
			if in.Pred != "eq" && in.Pred != "ne" {
				sym.Unsup("comparison of functions")
			}
			return c.Bool(sym.Same(u, v) == (in.Pred == "eq"))
		case !q1 || !q2:
			sym.Unsup("comparison of C values")
		case p.O == nil || q.O == nil || p.O != q.O:
			// distinct objects do not share addresses; null is no object
			eq := p.O == nil && q.O == nil
			switch in.Pred {
			case "eq":
				return c.Bool(eq)
			case "ne":
				return c.Bool(!eq)
			}
			a, b = m.addr(p), m.addr(q)
		default:
			a, b = p.Off, q.Off
		}
	}
	switch in.Pred {
	case "eq":
		return c.Eq(a, b)
	case "ne":
		return c.Ne(a, b)
	case "ult":
		return c.Ult(a, b)
	case "ule":
		return c.Ule(a, b)
	case "ugt":
		return c.Ult(b, a)
	case "uge":
		return c.Ule(b, a)
	case "slt":
		return c.Slt(a, b)
	case "sle":
		return c.Sle(a, b)
	case "sgt":
		return c.Slt(b, a)
	case "sge":
		return c.Sle(b, a)
	}
	sym.Unsup("comparison %s", in.Pred)
	return nil
}

func one(st *State, rs ...Val) []sym.Outcome { return []sym.Outcome{{St: st, Ret: rs}} }

// bound is a constant that n does not exceed in st, the least if it is small.
func (m *M) bound(st *State, n N, limit int) int {
	if n.IsConst() {
		return int(min(n.K, uint64(limit)))
	}
	var pc []N
	for _, a := range st.PC {
		if m.X.P.Size(a) <= 400 {
			pc = append(pc, a)
		}
	}
	le := func(k int) bool { return m.X.P.Valid(pc, m.X.C.Ule(n, m.X.Int(int64(k)))).Valid() }
	lo, hi := -1, limit // n > lo is possible as far as is known, n <= hi
	for _, k := range []int{63, 255} {
		if k < limit && le(k) {
			hi = k
			break
		}
		lo = k
	}
	if hi > 255 {
		return hi
	}
	for lo+1 < hi {
		if k := (lo + hi) / 2; le(k) {
			hi = k
		} else {
			lo = k
		}
	}
	return hi
}

func (g *cFn) call(st *State, in *Inst) []sym.Outcome {
	m := g.m
	x, c := m.X, m.X.C
	var name string
	var f *Func
	switch in.Fn.Kind {
	case 'g':
		name = in.Fn.Name
		f = m.Func(g.f.Mod, name)
	case 'r':
		v := g.val(st, in.Fn)
		if q, ok := v.(sym.Ptr); ok && q.O == nil {
			x.Require(st, "nil", "call of a null function pointer is unreachable", c.False())
			return nil
		}
		q, ok := v.(sym.Fun)
		if !ok {
			sym.Unsup("call through an unknown pointer in %s", g.f.Name)
		}
		f = q.F.(*Func)
		name = f.Name
	default:
		sym.Unsup("call in %s", g.f.Name)
	}
	var args []Val
	for _, a := range in.Args {
		args = append(args, g.val(st, a))
	}
	if f != nil {
		return m.Call(st, f, args)
	}
	if len(name) > 5 && name[:5] == "llvm." {
		name = intrinsic(name)
	}
	switch name {
	case "memcpy", "memmove", "__memcpy_chk", "__memmove_chk":
		d, s, n := args[0].(sym.Ptr), args[1].(sym.Ptr), args[2].(N)
		if n.IsConst() && n.K == 0 {
			return one(st, d)
		}
		// a length of zero needs no valid pointers here
		t, z := x.Branch(st, c.Ne(n, c.Const(n.W, 0)))
		var outs []sym.Outcome
		if t != nil {
			if m.access(t, d, n, "write") && m.access(t, s, n, "read") {
				m.copy(t, d, s, n)
				outs = append(outs, sym.Outcome{St: t, Ret: []Val{d}})
			}
		}
		if z != nil {
			outs = append(outs, sym.Outcome{St: z, Ret: []Val{d}})
		}
		return outs
	case "memset", "__memset_chk":
		d, n := args[0].(sym.Ptr), args[2].(N)
		v := c.Extract(args[1].(N), 0, 8)
		if !m.access(st, d, n, "write") {
			return nil
		}
		if !n.IsConst() {
			k := m.bound(st, n, d.O.N)
			if d.O.N < 0 || !d.Off.IsConst() {
				sym.Unsup("memset of a symbolic length")
			}
			cells := x.Load(st, d, k)
			for i := range cells {
				b, ok := cells[i].(N)
				if !ok {
					sym.Unsup("memset over a pointer")
				}
				cells[i] = c.Ite(c.Ult(x.Int(int64(i)), n), v, b)
			}
			x.Store(st, d, cells)
			return one(st, d)
		}
		cells := make([]Val, n.K)
		for i := range cells {
			cells[i] = v
		}
		x.Store(st, d, cells)
		return one(st, d)
	case "memcmp", "bcmp":
		a, b, n := args[0].(sym.Ptr), args[1].(sym.Ptr), args[2].(N)
		if !n.IsConst() || n.K > 4096 {
			sym.Unsup("memcmp of a symbolic length")
		}
		if !m.access(st, a, n, "read") || !m.access(st, b, n, "read") {
			return nil
		}
		u, v := x.Load(st, a, int(n.K)), x.Load(st, b, int(n.K))
		eq := c.True()
		for i := 0; i < len(u); i++ {
			if i+4 <= len(u) { // words, as other code would compare them
				w := func(q []Val) N { return c.Concat(q[3].(N), q[2].(N), q[1].(N), q[0].(N)) }
				eq = c.And(eq, c.Eq(w(u[i:i+4]), w(v[i:i+4])))
				i += 3
				continue
			}
			eq = c.And(eq, c.Eq(u[i].(N), v[i].(N)))
		}
		return one(st, c.Ite(eq, c.Const(32, 0), c.Or(c.Fresh(32, "memcmp"), c.Const(32, 1))))
	case "abort", "exit", "_exit", "__assert_fail", "trap", "__builtin_trap":
		x.Require(st, "panic", name+" is not reached", c.False())
		return nil
	case "lifetime", "assume", "expect", "donothing", "experimental.noalias":
		if name == "expect" {
			return one(st, args[0])
		}
		return one(st)
	case "fshl", "fshr":
		a, b, k := args[0].(N), args[1].(N), args[2].(N)
		if !k.IsConst() {
			sym.Unsup("funnel shift")
		}
		s := int(k.K) % a.W
		if name == "fshr" {
			s = (a.W - s) % a.W
			if int(k.K)%a.W == 0 {
				return one(st, b)
			}
		}
		if s == 0 {
			return one(st, a)
		}
		return one(st, c.Or(c.ShlC(a, s), c.LshrC(b, a.W-s)))
	case "bswap":
		a := args[0].(N)
		var parts []N
		for i := 0; i < a.W/8; i++ {
			parts = append(parts, c.Extract(a, 8*i, 8))
		}
		return one(st, c.Concat(parts...))
	}
	sym.Unsup("call of %s, which has no definition", name)
	return nil
}

func intrinsic(n string) string {
	for _, k := range []string{"memcpy", "memmove", "memset", "lifetime", "assume", "expect", "donothing", "experimental.noalias", "fshl", "fshr", "bswap", "trap"} {
		if strings.HasPrefix(n, "llvm."+k) {
			return k
		}
	}
	return n
}

func (m *M) copy(st *State, d, s sym.Ptr, n N) {
	x := m.X
	if n.W < 64 {
		n = x.C.ZExt(n, 64)
	}
	var dl, sl N
	if d.O.N >= 0 {
		d.Off = x.Concrete(st, d.Off)
	}
	if s.O.N >= 0 {
		s.Off = x.Concrete(st, s.Off)
	}
	n = x.Concrete(st, n)
	if !n.IsConst() {
		lim := 1 << 20
		if d.O.N >= 0 {
			lim = d.O.N
		}
		if s.O.N >= 0 && s.O.N < lim {
			lim = s.O.N
		}
		k := m.bound(st, n, lim)
		if d.O.N >= 0 && d.Off.IsConst() {
			dl = x.Int(int64(min(k, d.O.N-int(d.Off.K))))
		}
		if s.O.N >= 0 && s.Off.IsConst() {
			sl = x.Int(int64(min(k, s.O.N-int(s.Off.K))))
		}
	}
	x.Copy(st, d, s, n, 8, dl, sl)
}

// Call runs f on args; the registers of st are preserved.
func (m *M) Call(st *State, f *Func, args []Val) []sym.Outcome {
	if m.Hook != nil {
		if outs, ok := m.Hook(st, f, args); ok {
			return outs
		}
	}
	if len(args) != len(f.Params) {
		sym.Unsup("call of %s with %d arguments", f.Name, len(args))
	}
	g := m.fn(f)
	saved := st.Regs
	st.Regs = map[interface{}]Val{}
	for i, p := range f.Params {
		st.Regs[cReg{g, p}] = args[i]
	}
	pos := m.X.Pos
	outs := m.X.CallFn(g, st)
	m.X.Pos = pos
	for i := range outs {
		r := make(map[interface{}]Val, len(saved)+1)
		for k, v := range saved {
			r[k] = v
		}
		outs[i].St.Regs = r
	}
	return outs
}
