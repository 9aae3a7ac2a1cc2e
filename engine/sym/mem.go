package sym

import "verif/engine/term"

func (x *Exec) NewObj(name string, k Kind, n int) *Obj {
	x.objs++
	return &Obj{ID: x.objs, Name: name, Kind: k, N: n}
}

func (s *State) SetCells(o *Obj, cells []Val) {
	s.Heap[o] = &Mem{Cells: cells, owner: s}
}

// NewFA adds an input byte array of symbolic length with uninterpreted contents.
func (x *Exec) NewFA(s *State, name string, k Kind, w int, length N) *Obj {
	o := x.NewObj(name, k, -1)
	o.EW = w
	o.Len = length
	s.Heap[o] = &Mem{FA: &FA{Kind: faBase, UF: name, W: w}}
	return o
}

func (x *Exec) ZeroFA(s *State, name string, w int, length N) *Obj {
	o := x.NewObj(name, Local, -1)
	o.EW = w
	o.Len = length
	s.Heap[o] = &Mem{FA: &FA{Kind: faZero, W: w}}
	return o
}

// snap gives the immutable contents of o as a functional array.
func (x *Exec) snap(s *State, o *Obj, w int) *FA {
	m := s.Heap[o]
	if m == nil {
		Unsup("object %s has no contents", o.Name)
	}
	if m.FA != nil {
		return m.FA
	}
	cells := make([]N, len(m.Cells))
	for i, v := range m.Cells {
		n, ok := v.(N)
		if !ok || n == nil {
			Unsup("non-scalar cell in array copy of %s", o.Name)
		}
		cells[i] = n
	}
	return &FA{Kind: faCells, W: w, Cells: cells}
}

func (x *Exec) noteWrite(s *State, o *Obj) {
	if x.quiet > 0 {
		return
	}
	if o.Kind == Input || o.Kind == Global || o.Kind == ConstK {
		x.Frame = append(x.Frame, FrameViolation{Obj: o, PC: append([]N(nil), s.PC...), Pos: x.Pos, Func: x.fnName()})
	}
}

// Load reads n cells at ptr.
func (x *Exec) Load(s *State, p Ptr, n int) []Val {
	if p.O == nil {
		Unsup("load through nil")
	}
	m := s.Heap[p.O]
	if m == nil {
		Unsup("load from object %s without contents", p.O.Name)
	}
	out := make([]Val, n)
	if m.FA != nil {
		for i := range out {
			out[i] = x.Sel(m.FA, x.C.Add(p.Off, x.C.Const(p.Off.W, uint64(i))))
		}
		return out
	}
	if p.Off.IsConst() {
		off := int(sx(p.Off.K, p.Off.W))
		if off < 0 || off+n > len(m.Cells) {
			Unsup("load outside %s (%d+%d of %d)", p.O.Name, off, n, len(m.Cells))
		}
		copy(out, m.Cells[off:off+n])
		return out
	}
	// symbolic offset: element stride n
	for i := range out {
		out[i] = x.symLoad(s, m, p, i, n)
	}
	return out
}

func sx(k uint64, w int) int64 { return int64(k<<uint(64-w)) >> uint(64-w) }

func (x *Exec) symLoad(s *State, m *Mem, p Ptr, i, stride int) Val {
	// candidate positions: those congruent to the constant part
	var acc Val
	c := x.C
	lim := len(m.Cells)
	pos := candidates(p.Off, lim)
	for k := len(pos) - 1; k >= 0; k-- {
		j := pos[k]
		if j+i >= lim {
			continue
		}
		v := m.Cells[j+i]
		if acc == nil {
			acc = v
			continue
		}
		mv, ok := x.mergeVal(c.Eq(p.Off, c.Const(p.Off.W, uint64(j))), v, acc)
		if !ok {
			Unsup("symbolic index over non-scalar cells of %s", p.O.Name)
		}
		acc = mv
	}
	if acc == nil {
		Unsup("symbolic load without candidates")
	}
	return acc
}

// candidates lists the offsets below lim that a symbolic offset may take,
// using known low bits and the upper bound.
func candidates(off N, lim int) []int {
	low, mask := lowBits(off)
	var out []int
	for j := 0; j < lim; j++ {
		if uint64(j)&mask == low && uint64(j) <= off.Max() {
			out = append(out, j)
		}
	}
	return out
}

// lowBits returns the known low bits of n.
func lowBits(n N) (val, mask uint64) {
	switch n.Op {
	case term.Const:
		return n.K, term.Mask(n.W)
	case term.Concat:
		l := n.A[len(n.A)-1]
		v, m := lowBits(l)
		return v, m
	case term.Add:
		mask = term.Mask(n.W)
		val = n.K
		for i, a := range n.A {
			v, m := lowBits(a)
			// c*a: trailing zeros of c extend knowledge
			c := n.C[i]
			tz := 0
			for tz < 63 && c>>uint(tz)&1 == 0 {
				tz++
			}
			val += c * (v & m)
			kb := m
			// known contiguous low bits of a
			k := 0
			for k < 64 && kb>>uint(k)&1 == 1 {
				k++
			}
			kk := k + tz
			if kk < 64 {
				mask &= 1<<uint(kk) - 1
			}
		}
		return val & mask, mask
	}
	return 0, 0
}

// Store writes vals at ptr.
func (x *Exec) Store(s *State, p Ptr, vals []Val) {
	if p.O == nil {
		Unsup("store through nil")
	}
	x.noteWrite(s, p.O)
	m := s.Heap[p.O]
	if m == nil {
		Unsup("store to object %s without contents", p.O.Name)
	}
	if m.FA != nil {
		fa := m.FA
		for i, v := range vals {
			n, ok := v.(N)
			if !ok {
				Unsup("store of non-scalar into %s", p.O.Name)
			}
			fa = &FA{Kind: faStore, W: fa.W, Prev: fa, Idx: x.C.Add(p.Off, x.C.Const(p.Off.W, uint64(i))), Val: n}
		}
		s.Heap[p.O] = &Mem{FA: fa}
		return
	}
	if p.Off.IsConst() {
		off := int(sx(p.Off.K, p.Off.W))
		if off < 0 || off+len(vals) > len(m.Cells) {
			Unsup("store outside %s (%d+%d of %d)", p.O.Name, off, len(vals), len(m.Cells))
		}
		cells := s.wcells(p.O)
		copy(cells[off:], vals)
		return
	}
	if o := x.Concrete(s, p.Off); o.IsConst() {
		x.quiet++ // the write is noted
		x.Store(s, Ptr{O: p.O, Off: o}, vals)
		x.quiet--
		return
	}
	cells := s.wcells(p.O)
	for _, j := range candidates(p.Off, len(cells)) {
		if j+len(vals) > len(cells) {
			continue
		}
		e := x.C.Eq(p.Off, x.C.Const(p.Off.W, uint64(j)))
		if e.IsFalse() {
			continue
		}
		for i, v := range vals {
			mv, ok := x.mergeVal(e, v, cells[j+i])
			if !ok {
				Unsup("symbolic store over non-scalar cells of %s", p.O.Name)
			}
			cells[j+i] = mv
		}
	}
}

// Copy copies cnt cells (memmove semantics).
// Copy moves cnt cells. dlim and slim, when not nil, bound the cells that dst
// and src can reach (the lengths of the slices they come from).
func (x *Exec) Copy(s *State, dst Ptr, src Ptr, cnt N, w int, dlim, slim N) {
	if cnt.IsConst() && cnt.K == 0 {
		return
	}
	x.noteWrite(s, dst.O)
	c := x.C
	if cnt.IsConst() && cnt.K <= 4096 {
		if ms := s.Heap[src.O]; ms != nil && (ms.FA != nil || src.Off.IsConst()) {
			vals := x.Load(s, src, int(cnt.K))
			if md := s.Heap[dst.O]; md.FA == nil && dst.Off.IsConst() || cnt.K <= 4 || cnt.K <= 256 && (md.FA == nil || dst.Off.IsConst()) {
				x.quiet++
				x.Store(s, dst, vals)
				x.quiet--
				return
			}
		}
	}
	var sn *FA
	if ms := s.Heap[src.O]; ms.FA == nil && src.Off.IsConst() && slim != nil && slim.IsConst() {
		o := NewCells(ms.Cells, int(src.Off.K), int(slim.K))
		sn = &FA{Kind: faCells, W: w, Cells: o}
		src.Off = c.Const(src.Off.W, 0)
	} else {
		sn = x.snap(s, src.O, w)
	}
	md := s.Heap[dst.O]
	if md.FA != nil {
		s.Heap[dst.O] = &Mem{FA: &FA{Kind: faCopy, W: md.FA.W, Prev: md.FA, Idx: dst.Off, Src: sn, SOff: src.Off, Cnt: cnt}}
		return
	}
	cells := s.wcells(dst.O)
	for j := range cells {
		if dlim != nil && dlim.IsConst() && dst.Off.IsConst() && (uint64(j) < dst.Off.K || uint64(j) >= dst.Off.K+dlim.K) {
			continue
		}
		rel := c.Sub(c.Const(dst.Off.W, uint64(j)), dst.Off)
		in := c.Ult(rel, cnt)
		if in.IsFalse() {
			continue
		}
		old, ok := cells[j].(N)
		if !ok {
			Unsup("symbolic copy over non-scalar cells")
		}
		if old.W != sn.W {
			Unsup("copy to a symbolic place in a structure: offset %s, length %v", dst.Off, dlim)
		}
		cells[j] = c.Ite(in, x.Sel(sn, c.Add(rel, src.Off)), old)
	}
}

// mergeVal builds "if k then a else b".
func (x *Exec) mergeVal(k N, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch p := a.(type) {
	case N:
		q, ok := b.(N)
		if !ok || p.W != q.W {
			return nil, false
		}
		if x.isAbs(p) || x.isAbs(q) {
			return nil, false
		}
		return x.C.Ite(k, p, q), true
	case Ptr:
		q, ok := b.(Ptr)
		if !ok || p.O != q.O || p.O == nil {
			return nil, false
		}
		return Ptr{p.O, x.C.Ite(k, p.Off, q.Off)}, true
	case Slice:
		q, ok := b.(Slice)
		if !ok || p.O != q.O || p.O == nil || p.Stride != q.Stride {
			return nil, false
		}
		return Slice{p.O, x.C.Ite(k, p.Off, q.Off), x.C.Ite(k, p.Len, q.Len), x.C.Ite(k, p.Cap, q.Cap), p.Stride}, true
	case Agg:
		q, ok := b.(Agg)
		if !ok || len(p) != len(q) {
			return nil, false
		}
		r := make(Agg, len(p))
		for i := range p {
			v, ok := x.mergeVal(k, p[i], q[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Tuple:
		q, ok := b.(Tuple)
		if !ok || len(p) != len(q) {
			return nil, false
		}
		r := make(Tuple, len(p))
		for i := range p {
			v, ok := x.mergeVal(k, p[i], q[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	}
	return nil, false
}

func sameVal(a, b Val) bool {
	switch p := a.(type) {
	case nil:
		return b == nil
	case N:
		q, ok := b.(N)
		return ok && p == q
	case Ptr:
		q, ok := b.(Ptr)
		null := func(r Ptr) bool { return r.O == nil && (r.Off == nil || r.Off.IsConst() && r.Off.K == 0) }
		return ok && (p == q || null(p) && null(q))
	case Slice:
		q, ok := b.(Slice)
		return ok && (p == q || p.O == nil && q.O == nil)
	case Str:
		q, ok := b.(Str)
		return ok && p == q
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			return false
		}
		if p.T == nil || q.T == nil {
			return p.T == nil && q.T == nil
		}
		return p.T == q.T && sameVal(p.V, q.V)
	case Fun:
		q, ok := b.(Fun)
		if !ok || p.F != q.F || len(p.Bind) != len(q.Bind) {
			return false
		}
		for i := range p.Bind {
			if !sameVal(p.Bind[i], q.Bind[i]) {
				return false
			}
		}
		return true
	case Agg:
		q, ok := b.(Agg)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameVal(p[i], q[i]) {
				return false
			}
		}
		return true
	case Tuple:
		q, ok := b.(Tuple)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameVal(p[i], q[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// Merge joins two states; ok is false when they must stay apart.
func (x *Exec) Merge(a, b *State) (*State, bool) {
	i := 0
	for i < len(a.PC) && i < len(b.PC) && a.PC[i] == b.PC[i] {
		i++
	}
	c := x.C
	ka, kb := c.AndN(a.PC[i:]...), c.AndN(b.PC[i:]...)
	if ka == kb {
		// identical conditions reached twice: cannot tell apart
		return nil, false
	}
	m := &State{PC: a.PC[:i:i], Heap: map[*Obj]*Mem{}, Regs: map[interface{}]Val{}}
	for k, v := range a.Regs {
		w, ok := b.Regs[k]
		if !ok {
			continue
		}
		r, ok := x.mergeVal(ka, v, w)
		if !ok {
			return nil, false
		}
		m.Regs[k] = r
	}
	for o, ma := range a.Heap {
		mb, ok := b.Heap[o]
		if !ok {
			m.Heap[o] = &Mem{Cells: ma.Cells, FA: ma.FA}
			continue
		}
		if ma == mb || ma.FA == nil && mb.FA == nil && (len(ma.Cells) == 0 || &ma.Cells[0] == &mb.Cells[0]) {
			m.Heap[o] = &Mem{Cells: ma.Cells, FA: ma.FA}
			continue
		}
		if ma.FA != nil || mb.FA != nil {
			if ma.FA == mb.FA {
				m.Heap[o] = ma
				continue
			}
			m.Heap[o] = &Mem{FA: &FA{Kind: faIte, W: ma.FA.W, Cond: ka, Prev: ma.FA, Alt: mb.FA}}
			continue
		}
		cells := make([]Val, len(ma.Cells))
		for j := range cells {
			v, ok := x.mergeVal(ka, ma.Cells[j], mb.Cells[j])
			if !ok {
				return nil, false
			}
			cells[j] = v
		}
		m.Heap[o] = &Mem{Cells: cells}
	}
	for o, mb := range b.Heap {
		if _, ok := a.Heap[o]; !ok {
			m.Heap[o] = &Mem{Cells: mb.Cells, FA: mb.FA}
		}
	}
	m.Assume(c.Or(ka, kb))
	if a.iter != nil {
		m.iter = map[int]int{}
		for k, v := range a.iter {
			m.iter[k] = v
		}
	}
	return m, true
}

// Same tells whether two values are identical.
func Same(a, b Val) bool { return sameVal(a, b) }

// CellsFA is the array of the given cells.
func CellsFA(cells []N) *FA { return &FA{Kind: faCells, W: cells[0].W, Cells: cells} }

// NewCells takes the scalar cells [off, off+n).
func NewCells(cells []Val, off, n int) []N {
	out := make([]N, n)
	for i := range out {
		if off+i >= len(cells) {
			Unsup("slice outside its object")
		}
		q, ok := cells[off+i].(N)
		if !ok {
			Unsup("non-scalar cell in array copy")
		}
		out[i] = q
	}
	return out
}
