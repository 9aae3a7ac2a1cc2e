package gosym

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

func (m *M) n(v Val) N {
	if k, ok := v.(N); ok && k != nil {
		return k
	}
	sym.Unsup("a value outside the subset is used as a number (%T %v)", v, v)
	return nil
}

func (m *M) val(st *State, v ssa.Value) Val {
	switch k := v.(type) {
	case *ssa.Const:
		return m.constVal(st, k)
	case *ssa.Global:
		return sym.Ptr{O: m.global(st, k), Off: m.X.Int(0)}
	case *ssa.Function:
		return sym.Fun{F: k}
	case *ssa.Builtin:
		return sym.Fun{F: k}
	}
	r, ok := st.Regs[v]
	if !ok {
		sym.Unsup("register %s of %s has no value", v.Name(), v.Parent())
	}
	return r
}

func (m *M) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		return ""
	}
	q := m.SSA.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (m *M) runBlock(g *goFn, st *State, b *ssa.BasicBlock, start int) []sym.Out {
	x := m.X
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if p := m.pos(in); p != "" {
			x.Pos = p
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []sym.Out{{St: st, To: b.Succs[0].Index}}
		case *ssa.If:
			t, f := x.Branch(st, m.n(m.val(st, in.Cond)))
			var outs []sym.Out
			if t != nil {
				outs = append(outs, sym.Out{St: t, To: b.Succs[0].Index})
			}
			if f != nil {
				outs = append(outs, sym.Out{St: f, To: b.Succs[1].Index})
			}
			return outs
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, m.val(st, r))
			}
			return []sym.Out{{St: st, To: -1, Ret: rs}}
		case *ssa.Panic:
			x.Require(st, "panic", "explicit panic is unreachable", x.C.False())
			return nil
		case *ssa.Store:
			p := m.ptr(st, in.Addr, "store")
			if p == nil {
				return nil
			}
			t := in.Addr.Type().Underlying().(*types.Pointer).Elem()
			x.Store(st, *p, leaves(t, m.val(st, in.Val)))
		case *ssa.RunDefers:
		case *ssa.Call:
			outs := m.call(st, &in.Call, in)
			if len(outs) == 1 && outs[0].St == st {
				st.Regs[in] = m.ret(in, outs[0].Ret)
				continue
			}
			var res []sym.Out
			for _, o := range outs {
				o.St.Regs[in] = m.ret(in, o.Ret)
				res = append(res, m.runBlock(g, o.St, b, i+1)...)
			}
			return res
		case ssa.Value:
			v, ok := m.eval(st, in)
			if !ok {
				return nil // the path ends in a panic
			}
			st.Regs[in] = v
		default:
			sym.Unsup("%T in %s", in, g.f)
		}
	}
	return nil
}

func (m *M) ret(in *ssa.Call, rs []Val) Val {
	if t, ok := in.Type().(*types.Tuple); ok {
		if t.Len() == 0 {
			return sym.Tuple{}
		}
		return sym.Tuple(rs)
	}
	if len(rs) == 0 {
		return sym.Tuple{}
	}
	return rs[0]
}

func (m *M) ptr(st *State, v ssa.Value, what string) *sym.Ptr {
	p, ok := m.val(st, v).(sym.Ptr)
	if !ok {
		sym.Unsup("%s through %T", what, m.val(st, v))
	}
	if p.O == nil {
		m.X.Require(st, "nil", what+" through a nil pointer is unreachable", m.X.C.False())
		return nil
	}
	return &p
}

// index converts an integer operand to an offset of width IW.
func (m *M) index(st *State, v ssa.Value) N {
	return m.toIW(st, m.n(m.val(st, v)), v.Type())
}

func (m *M) toIW(st *State, n N, t types.Type) N {
	c, iw := m.X.C, m.X.IW
	w, signed, _ := m.intInfo(t)
	if n.W == iw {
		return n
	}
	if w < iw {
		if signed {
			return c.SExt(n, iw)
		}
		return c.ZExt(n, iw)
	}
	r := c.Extract(n, 0, iw)
	if signed {
		m.X.Require(st, "bounds", "index fits an int", c.Eq(c.SExt(r, w), n))
	} else {
		m.X.Require(st, "bounds", "index fits an int", c.Eq(c.ZExt(r, w), n))
	}
	return r
}

func (m *M) inBounds(st *State, idx, n N) {
	m.X.Require(st, "bounds", "index in range", m.X.C.Ult(idx, n))
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	}
	return nil
}

func (m *M) eval(st *State, in ssa.Value) (Val, bool) {
	x := m.X
	c := x.C
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		var o *sym.Obj
		if !in.Heap {
			if p, ok := st.Regs[allocKey{in}]; ok {
				o = p.(sym.Ptr).O
			}
		}
		if o == nil {
			o = x.NewObj(in.Comment, sym.Local, m.layout(t).n)
			o.Typ = t
			if !in.Heap {
				st.Regs[allocKey{in}] = sym.Ptr{O: o, Off: x.Int(0)}
			}
		}
		st.SetCells(o, m.Zero(t))
		return sym.Ptr{O: o, Off: x.Int(0)}, true
	case *ssa.BinOp:
		return m.binop(st, in.Op, m.val(st, in.X), m.val(st, in.Y), in.X.Type(), in.Y.Type()), true
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := m.ptr(st, in.X, "load")
			if p == nil {
				return nil, false
			}
			return m.wrap(in.Type(), x.Load(st, *p, m.layout(in.Type()).n)), true
		case token.NOT, token.XOR:
			return c.Not(m.n(m.val(st, in.X))), true
		case token.SUB:
			return c.Neg(m.n(m.val(st, in.X))), true
		}
		sym.Unsup("unary %s", in.Op)
	case *ssa.ChangeType:
		return m.val(st, in.X), true
	case *ssa.ChangeInterface:
		return m.val(st, in.X), true
	case *ssa.Convert:
		return m.convert(st, in), true
	case *ssa.MultiConvert:
		sym.Unsup("generic conversion")
	case *ssa.Extract:
		return m.val(st, in.Tuple).(sym.Tuple)[in.Index], true
	case *ssa.Field:
		l := m.layout(in.X.Type())
		a := m.val(st, in.X).(sym.Agg)
		n := m.layout(in.Type()).n
		return m.wrap(in.Type(), []Val(a[l.fields[in.Field]:l.fields[in.Field]+n])), true
	case *ssa.FieldAddr:
		p := m.ptr(st, in.X, "field access")
		if p == nil {
			return nil, false
		}
		t := in.X.Type().Underlying().(*types.Pointer).Elem()
		return sym.Ptr{O: p.O, Off: c.Add(p.Off, x.Int(int64(m.layout(t).fields[in.Field])))}, true
	case *ssa.IndexAddr:
		idx := m.index(st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := m.val(st, in.X).(sym.Slice)
			if idx.IsConst() && s.Len.IsConst() && idx.K >= s.Len.K {
				x.Require(st, "bounds", "index in range", c.False())
				return nil, false
			}
			m.inBounds(st, idx, s.Len)
			if s.O == nil {
				return nil, false
			}
			return sym.Ptr{O: s.O, Off: c.Add(s.Off, c.MulC(idx, uint64(s.Stride)))}, true
		case *types.Pointer:
			p := m.ptr(st, in.X, "array access")
			if p == nil {
				return nil, false
			}
			at := u.Elem().Underlying().(*types.Array)
			if idx.IsConst() && idx.K >= uint64(at.Len()) {
				x.Require(st, "bounds", "index in range", c.False())
				return nil, false
			}
			m.inBounds(st, idx, x.Int(at.Len()))
			return sym.Ptr{O: p.O, Off: c.Add(p.Off, c.MulC(idx, uint64(m.layout(u.Elem()).elem)))}, true
		}
		sym.Unsup("IndexAddr of %s", in.X.Type())
	case *ssa.Index:
		idx := m.index(st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			a := m.val(st, in.X).(sym.Agg)
			e := m.layout(in.X.Type()).elem
			m.inBounds(st, idx, x.Int(u.Len()))
			if idx.IsConst() {
				if idx.K >= uint64(u.Len()) {
					return nil, false
				}
				k := int(idx.K) * e
				return m.wrap(u.Elem(), []Val(a[k:k+e])), true
			}
			o := x.NewObj("array value", sym.Local, len(a))
			st.SetCells(o, append([]Val(nil), a...))
			r := m.wrap(u.Elem(), x.Load(st, sym.Ptr{O: o, Off: c.MulC(idx, uint64(e))}, e))
			delete(st.Heap, o)
			return r, true
		case *types.Basic:
			s := m.val(st, in.X).(sym.Str).S
			m.inBounds(st, idx, s.Len)
			if s.O == nil {
				return nil, false
			}
			return x.Load(st, sym.Ptr{O: s.O, Off: c.Add(s.Off, idx)}, 1)[0], true
		}
		sym.Unsup("Index of %s", in.X.Type())
	case *ssa.MakeInterface:
		return sym.Iface{T: in.X.Type(), V: m.val(st, in.X)}, true
	case *ssa.MakeClosure:
		f := sym.Fun{F: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, m.val(st, b))
		}
		return f, true
	case *ssa.MakeSlice:
		l, k := m.index(st, in.Len), m.index(st, in.Cap)
		x.Require(st, "bounds", "make: length in range", c.Sle(x.Int(0), l))
		x.Require(st, "bounds", "make: capacity in range", c.Sle(l, k))
		et := in.Type().Underlying().(*types.Slice).Elem()
		n := m.layout(et).n
		if k.IsConst() && k.K < 1<<20 {
			o := x.NewObj("make", sym.Local, int(k.K)*n)
			var cells []Val
			z := m.Zero(et)
			for i := uint64(0); i < k.K; i++ {
				cells = append(cells, z...)
			}
			st.SetCells(o, cells)
			return sym.Slice{O: o, Off: x.Int(0), Len: l, Cap: k, Stride: n}, true
		}
		w, _, ok := m.intInfo(et)
		if !ok {
			sym.Unsup("make of %s with a symbolic length", in.Type())
		}
		o := x.ZeroFA(st, "make", w, k)
		return sym.Slice{O: o, Off: x.Int(0), Len: l, Cap: k, Stride: 1}, true
	case *ssa.Slice:
		return m.slice(st, in)
	case *ssa.SliceToArrayPointer:
		s := m.val(st, in.X).(sym.Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		ok := c.Ule(x.Int(n), s.Len)
		if ok.IsFalse() {
			x.Require(st, "bounds", "slice long enough for the array", ok)
			return nil, false
		}
		x.Require(st, "bounds", "slice long enough for the array", ok)
		return sym.Ptr{O: s.O, Off: s.Off}, true
	case *ssa.TypeAssert:
		return m.typeAssert(st, in)
	}
	sym.Unsup("%T", in)
	return nil, false
}

func (m *M) slice(st *State, in *ssa.Slice) (Val, bool) {
	x := m.X
	c := x.C
	var s sym.Slice
	isStr := false
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s = m.val(st, in.X).(sym.Slice)
	case *types.Basic:
		s = m.val(st, in.X).(sym.Str).S
		isStr = true
	case *types.Pointer:
		p := m.ptr(st, in.X, "slicing")
		if p == nil {
			return nil, false
		}
		at := u.Elem().Underlying().(*types.Array)
		n := x.Int(at.Len())
		s = sym.Slice{O: p.O, Off: p.Off, Len: n, Cap: n, Stride: m.layout(u.Elem()).elem}
	default:
		sym.Unsup("slice of %s", in.X.Type())
	}
	lo, hi, mx := x.Int(0), s.Len, s.Cap
	if isStr {
		mx = s.Len
	}
	if in.Low != nil {
		lo = m.index(st, in.Low)
	}
	if in.High != nil {
		hi = m.index(st, in.High)
	}
	if in.Max != nil {
		mx = m.index(st, in.Max)
		x.Require(st, "bounds", "slice: max in capacity", c.Ule(mx, s.Cap))
	}
	if mm := st.Heap[s.O]; s.O != nil && mm != nil && mm.FA == nil {
		lo, hi = x.Concrete(st, lo), x.Concrete(st, hi)
	}
	for _, q := range []N{c.Ule(hi, mx), c.Ule(lo, hi)} {
		if q.IsFalse() {
			x.Require(st, "bounds", "slice bounds in range", q)
			return nil, false
		}
		x.Require(st, "bounds", "slice bounds in range", q)
	}
	r := sym.Slice{O: s.O, Off: c.Add(s.Off, c.MulC(lo, uint64(s.Stride))), Len: c.Sub(hi, lo), Cap: c.Sub(mx, lo), Stride: s.Stride}
	if s.O == nil {
		r.Off = s.Off
	}
	if isStr {
		return sym.Str{S: r}, true
	}
	return r, true
}

func (m *M) implements(t types.Type, i types.Type) bool {
	return types.Implements(t, i.Underlying().(*types.Interface))
}

func (m *M) typeAssert(st *State, in *ssa.TypeAssert) (Val, bool) {
	x := m.X
	v, ok := m.val(st, in.X).(sym.Iface)
	if !ok {
		sym.Unsup("type assertion on %T", m.val(st, in.X))
	}
	hit := false
	var r Val
	if v.T != nil {
		t, isT := v.T.(types.Type)
		if !isT {
			sym.Unsup("type assertion on an opaque value")
		}
		if types.IsInterface(in.AssertedType) {
			hit = m.implements(t, in.AssertedType)
			r = v
		} else {
			hit = types.Identical(t, in.AssertedType)
			r = v.V
		}
	}
	if in.CommaOk {
		if !hit {
			r = m.wrap(in.AssertedType, m.Zero(in.AssertedType))
		}
		return sym.Tuple{r, x.C.Bool(hit)}, true
	}
	if !hit {
		x.Require(st, "panic", "type assertion holds", x.C.False())
		return nil, false
	}
	return r, true
}

func (m *M) convert(st *State, in *ssa.Convert) Val {
	c := m.X.C
	v := m.val(st, in.X)
	from, to := in.X.Type(), in.Type()
	fw, fs, fok := m.intInfo(from)
	tw, _, tok := m.intInfo(to)
	if fok && tok {
		n := m.n(v)
		_ = fw
		switch {
		case tw < n.W:
			return c.Extract(n, 0, tw)
		case tw > n.W && fs:
			return c.SExt(n, tw)
		case tw > n.W:
			return c.ZExt(n, tw)
		}
		return n
	}
	if isString(to) {
		if s, ok := v.(sym.Slice); ok {
			return sym.Str{S: m.snapshot(st, s)}
		}
	}
	if isString(from) {
		if s, ok := v.(sym.Str); ok {
			return m.snapshot(st, s.S)
		}
	}
	if p, ok := v.(sym.Ptr); ok {
		return p // unsafe.Pointer and back; widths are checked at the use
	}
	return opaqueVal{"conversion to " + to.String()}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// snapshot copies the bytes of s to a new object.
func (m *M) snapshot(st *State, s sym.Slice) sym.Slice {
	x := m.X
	if s.O == nil {
		return m.nilSlice(1)
	}
	var o *sym.Obj
	if s.Len.IsConst() && s.Len.K < 1<<16 {
		o = x.NewObj("string data", sym.Local, int(s.Len.K))
		st.SetCells(o, x.Load(st, sym.Ptr{O: s.O, Off: s.Off}, int(s.Len.K)))
	} else {
		o = x.ZeroFA(st, "string data", 8, s.Len)
		x.Copy(st, sym.Ptr{O: o, Off: x.Int(0)}, sym.Ptr{O: s.O, Off: s.Off}, s.Len, 8, nil, s.Len)
	}
	return sym.Slice{O: o, Off: x.Int(0), Len: s.Len, Cap: s.Len, Stride: 1}
}

func (m *M) eq(st *State, a, b Val) N {
	c := m.X.C
	switch p := a.(type) {
	case N:
		return c.Eq(p, m.n(b))
	case sym.Ptr:
		q, ok := b.(sym.Ptr)
		if !ok {
			break
		}
		if p.O != q.O {
			return c.False()
		}
		if p.O == nil {
			return c.True()
		}
		return c.Eq(p.Off, q.Off)
	case sym.Slice:
		q, ok := b.(sym.Slice)
		if ok && (p.O == nil || q.O == nil) {
			return c.Bool(p.O == q.O)
		}
	case sym.Fun:
		q, ok := b.(sym.Fun)
		if ok && (p.F == nil || q.F == nil) {
			return c.Bool(p.F == nil && q.F == nil)
		}
	case sym.Iface:
		q, ok := b.(sym.Iface)
		if !ok {
			break
		}
		if p.T == nil || q.T == nil {
			return c.Bool(p.T == nil && q.T == nil)
		}
		t1, ok1 := p.T.(types.Type)
		t2, ok2 := q.T.(types.Type)
		if ok1 && ok2 {
			if !types.Identical(t1, t2) {
				return c.False()
			}
			return m.eq(st, p.V, q.V)
		}
	case sym.Agg:
		q, ok := b.(sym.Agg)
		if !ok || len(p) != len(q) {
			break
		}
		r := c.True()
		for i := range p {
			r = c.And(r, m.eq(st, p[i], q[i]))
		}
		return r
	case sym.Str:
		q, ok := b.(sym.Str)
		if !ok {
			break
		}
		l := p.S.Len
		if !l.IsConst() {
			l = q.S.Len
		}
		if !l.IsConst() || l.K > 4096 {
			sym.Unsup("comparison of two strings of unknown length")
		}
		r := c.Eq(p.S.Len, q.S.Len)
		if r.IsFalse() {
			return r
		}
		if l.K == 0 {
			return r
		}
		n := int(l.K)
		pb := m.X.Load(st, sym.Ptr{O: p.S.O, Off: p.S.Off}, n)
		qb := m.X.Load(st, sym.Ptr{O: q.S.O, Off: q.S.Off}, n)
		for i := range pb {
			r = c.And(r, c.Eq(m.n(pb[i]), m.n(qb[i])))
		}
		return r
	}
	sym.Unsup("comparison of %T and %T", a, b)
	return nil
}

func (m *M) binop(st *State, op token.Token, a, b Val, ta, tb types.Type) Val {
	c := m.X.C
	switch op {
	case token.EQL:
		return m.eq(st, a, b)
	case token.NEQ:
		return c.Not(m.eq(st, a, b))
	}
	if sa, ok := a.(sym.Str); ok {
		if sb, ok := b.(sym.Str); ok && op == token.ADD {
			if sa.S.Len.IsConst() && sb.S.Len.IsConst() {
				n1, n2 := int(sa.S.Len.K), int(sb.S.Len.K)
				var cells []Val
				if n1 > 0 {
					cells = append(cells, m.X.Load(st, sym.Ptr{O: sa.S.O, Off: sa.S.Off}, n1)...)
				}
				if n2 > 0 {
					cells = append(cells, m.X.Load(st, sym.Ptr{O: sb.S.O, Off: sb.S.Off}, n2)...)
				}
				o := m.X.NewObj("string data", sym.Local, n1+n2)
				st.SetCells(o, cells)
				l := m.X.Int(int64(n1 + n2))
				return sym.Str{S: sym.Slice{O: o, Off: m.X.Int(0), Len: l, Cap: l, Stride: 1}}
			}
			return m.opaqueStr(st)
		}
	}
	p, q := m.n(a), m.n(b)
	_, signed, _ := m.intInfo(ta)
	switch op {
	case token.ADD:
		return c.Add(p, q)
	case token.SUB:
		return c.Sub(p, q)
	case token.MUL:
		if q.IsConst() {
			return c.MulC(p, q.K)
		}
		if p.IsConst() {
			return c.MulC(q, p.K)
		}
		return c.Mul(p, q)
	case token.AND:
		return c.And(p, q)
	case token.OR:
		return c.Or(p, q)
	case token.XOR:
		return c.Xor(p, q)
	case token.AND_NOT:
		return c.And(p, c.Not(q))
	case token.QUO, token.REM:
		m.X.Require(st, "panic", "divisor is not zero", c.Ne(q, c.Const(q.W, 0)))
		if signed {
			// A dividend known to be non-negative is divided as unsigned.
			if q.IsConst() && q.K>>uint(q.W-1)&1 == 0 {
				neg := c.Extract(p, p.W-1, 1)
				u := c.UDiv(p, q)
				if op == token.REM {
					u = c.URem(p, q)
				}
				if neg.IsFalse() || !m.X.Feasible(st, neg) {
					return u
				}
			}
			if op == token.QUO {
				return c.SDiv(p, q)
			}
			return c.SRem(p, q)
		}
		if op == token.QUO {
			return c.UDiv(p, q)
		}
		return c.URem(p, q)
	case token.SHL, token.SHR:
		_, cs, _ := m.intInfo(tb)
		if cs {
			m.X.Require(st, "panic", "shift count is not negative", c.Sle(c.Const(q.W, 0), q))
		}
		return m.shift(op, p, q, signed)
	case token.LSS:
		if signed {
			return c.Slt(p, q)
		}
		return c.Ult(p, q)
	case token.LEQ:
		if signed {
			return c.Sle(p, q)
		}
		return c.Ule(p, q)
	case token.GTR:
		if signed {
			return c.Slt(q, p)
		}
		return c.Ult(q, p)
	case token.GEQ:
		if signed {
			return c.Sle(q, p)
		}
		return c.Ule(q, p)
	}
	sym.Unsup("operator %s", op)
	return nil
}

func (m *M) shift(op token.Token, p, q N, signed bool) N {
	c := m.X.C
	w := p.W
	if q.IsConst() {
		k := q.K
		if k > uint64(w) {
			k = uint64(w)
		}
		switch {
		case op == token.SHL:
			return c.ShlC(p, int(k))
		case signed:
			if k >= uint64(w) {
				k = uint64(w - 1)
			}
			return c.AshrC(p, int(k))
		}
		return c.LshrC(p, int(k))
	}
	over := c.False()
	cnt := q
	if q.W > w {
		over = c.Ule(c.Const(q.W, uint64(w)), q)
		cnt = c.Extract(q, 0, w)
	} else if q.W < w {
		cnt = c.ZExt(q, w)
	}
	var r, big N
	switch {
	case op == token.SHL:
		r, big = c.Shl(p, cnt), c.Const(w, 0)
	case signed:
		r, big = c.Ashr(p, cnt), c.AshrC(p, w-1)
	default:
		r, big = c.Lshr(p, cnt), c.Const(w, 0)
	}
	return c.Ite(over, big, r)
}
