package vc

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/csym"
	"verif/engine/gosym"
	"verif/engine/sym"
	"verif/engine/term"
)

// The C-backed package. Its Go methods are executed from their SSA form as
// those of the Go package; a call of a C function converts what its pointer
// arguments reach to bytes (the layout cgo gives the C types), executes the C
// function from its LLVM IR on the same symbolic state, and converts back.

const cgoPath = gosym.Module + "/cgo"

// leaf is one scalar of a Go type in memory.
type leaf struct {
	off, size int
	t         types.Type
	name      string
	arr       [2]int // leaves of the innermost array around it
	inArr     bool
}

func (v *VC) leavesOf(t types.Type) []leaf {
	var out []leaf
	var rec func(t types.Type, off int, name string, arr [2]int, inArr bool)
	rec = func(t types.Type, off int, name string, arr [2]int, inArr bool) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			offs := v.M.Sizes.Offsetsof(fs)
			for i, f := range fs {
				rec(f.Type(), off+int(offs[i]), name+"."+f.Name(), [2]int{}, false)
			}
		case *types.Array:
			es := int(v.M.Sizes.Sizeof(u.Elem()))
			a := [2]int{len(out), len(out) + v.M.Leaves(t)}
			if inArr { // the outermost of nested arrays
				a = arr
			}
			for i := 0; i < int(u.Len()); i++ {
				rec(u.Elem(), off+i*es, fmt.Sprintf("%s[%d]", name, i), a, true)
			}
		default:
			out = append(out, leaf{off: off, size: int(v.M.Sizes.Sizeof(t)), t: t, name: strings.TrimPrefix(name, "."), arr: arr, inArr: inArr})
		}
	}
	rec(t, 0, "", [2]int{}, false)
	return out
}

// shadow is the byte view of some leaves of a Go object during a C call.
type shadow struct {
	src    *sym.Obj
	lo, hi int // leaves
	base   int // address of leaf lo within the object
	obj    *sym.Obj
	ls     []leaf // of the whole object
}

func (v *VC) cm() *csym.M {
	if v.cmod == nil {
		mods, err := csym.Build(v.M.Repo+"/cgo", v.M.Cfg.Env(v.Cache))
		if err != nil {
			sym.Unsup("C code: %v", err)
		}
		v.cmod = csym.NewM(v.X, mods)
		v.cmod.Hook = v.hookC
		v.X.Expand = v.expandStep
	}
	return v.cmod
}

func (v *VC) toBytes(x Val, size int) []Val {
	c := v.X.C
	out := make([]Val, size)
	switch q := x.(type) {
	case N:
		if q.W < 8*size {
			q = c.ZExt(q, 8*size)
		}
		for i := range out {
			out[i] = c.Extract(q, 8*i, 8)
		}
	case sym.Ptr:
		if q.O == nil {
			for i := range out {
				out[i] = c.Const(8, 0)
			}
			break
		}
		csym.PutPtr(out, q)
	default:
		csym.PutPtr(out, q)
	}
	return out
}

func (v *VC) fromBytes(cells []Val, t types.Type) Val {
	c := v.X.C
	if w := v.M.IntWidth(t); w > 0 {
		parts := make([]N, len(cells))
		for i, b := range words(cells) {
			parts[len(cells)-1-i] = b
		}
		return c.Extract(c.Concat(parts...), 0, w)
	}
	if _, isN := cells[0].(N); isN {
		for _, b := range words(cells) {
			if !b.IsConst() || b.K != 0 {
				return cOpaque{"pointer"}
			}
		}
		return sym.Ptr{}
	}
	return cells[0]
}

type cOpaque struct{ what string }

// region is the part of its object that a pointer of the given type may reach.
func region(ls []leaf, at int, t types.Type, n int) (int, int) {
	pt, ok := t.Underlying().(*types.Pointer)
	if ok {
		switch pt.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			return at, at + n
		}
	}
	if at < len(ls) && ls[at].inArr {
		return ls[at].arr[0], ls[at].arr[1]
	}
	return at, at + 1
}

func (v *VC) hookCgo(st *State, f *ssa.Function, args []Val) ([]sym.Outcome, bool) {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != cgoPath || !v.M.Cfg.Cgo {
		return nil, false
	}
	name := f.Name()
	switch name {
	case "_cgoCheckPointer", "_cgoCheckResult", "_Cgo_use", "_Cgo_keepalive":
		return []sym.Outcome{{St: st}}, true
	}
	cn, ok := strings.CutPrefix(name, "_Cfunc_")
	if !ok {
		return nil, false
	}
	m := v.cm()
	cf := m.Func(nil, cn)
	if cf == nil {
		sym.Unsup("C function %s has no definition in the package", cn)
	}
	x := v.X
	var shs []*shadow
	type want struct {
		arg, at int
	}
	var wants []want
	var cargs []Val
	for i, a := range args {
		cargs = append(cargs, a)
		p, isP := a.(sym.Ptr)
		if !isP || p.O == nil {
			continue
		}
		mem := st.Heap[p.O]
		if mem == nil {
			sym.Unsup("C argument without contents")
		}
		if mem.FA != nil {
			continue
		}
		if !p.Off.IsConst() || p.O.Typ == nil {
			sym.Unsup("C argument at a symbolic place in %s", p.O.Name)
		}
		ls := v.leavesOf(p.O.Typ.(types.Type))
		if len(ls) != len(mem.Cells) {
			sym.Unsup("C argument in an object of another type (%s)", p.O.Name)
		}
		at := int(p.Off.K)
		pt := f.Params[i].Type()
		n := 1
		if q, ok := pt.Underlying().(*types.Pointer); ok {
			n = v.M.Leaves(q.Elem())
		}
		lo, hi := region(ls, at, pt, n)
		if hi > len(ls) {
			x.Require(st, "bounds", "pointer passed to C is inside its object", x.C.False())
			return nil, true
		}
		// join overlapping regions of the same object
		var rest []*shadow
		for _, s := range shs {
			if s.src == p.O && lo < s.hi && s.lo < hi {
				lo, hi = min(lo, s.lo), max(hi, s.hi)
				continue
			}
			rest = append(rest, s)
		}
		shs = append(rest, &shadow{src: p.O, lo: lo, hi: hi, base: ls[lo].off, ls: ls})
		wants = append(wants, want{i, at})
	}
	for _, s := range shs {
		last := s.ls[s.hi-1]
		n := last.off + last.size - s.base
		k := s.src.Kind
		s.obj = x.NewObj(fmt.Sprintf("%s (%s)", s.src.Name, s.ls[s.lo].name), k, n)
		s.obj.Ghost = s
		s.obj.Layout = map[int]int{}
		cells := make([]Val, n)
		for i := range cells {
			cells[i] = x.C.Const(8, 0) // padding
		}
		src := st.Heap[s.src].Cells
		for k := s.lo; k < s.hi; k++ {
			l := s.ls[k]
			copy(cells[l.off-s.base:], v.toBytes(src[k], l.size))
			if v.M.IntWidth(l.t) > 8 {
				s.obj.Layout[l.off-s.base] = l.size
			}
		}
		st.SetCells(s.obj, cells)
	}
	for _, w := range wants {
		o := args[w.arg].(sym.Ptr).O
		for _, s := range shs {
			if s.src == o && s.lo <= w.at && w.at < s.hi {
				cargs[w.arg] = sym.Ptr{O: s.obj, Off: x.Int(int64(s.ls[w.at].off - s.base))}
			}
		}
	}
	v.Contracted["cgo."+cn] = true
	outs := m.Call(st, cf, cargs)
	for i := range outs {
		o := &outs[i]
		for _, s := range shs {
			after := o.St.Heap[s.obj].Cells
			cells := append([]Val(nil), o.St.Heap[s.src].Cells...)
			for k := s.lo; k < s.hi; k++ {
				l := s.ls[k]
				cells[k] = v.fromBytes(after[l.off-s.base:l.off-s.base+l.size], l.t)
			}
			delete(o.St.Heap, s.obj)
			o.St.SetCells(s.src, cells)
		}
		res := f.Signature.Results()
		var rets []Val
		for k := 0; k < res.Len(); k++ {
			t := res.At(k).Type()
			if w := v.M.IntWidth(t); w > 0 && len(o.Ret) > 0 {
				n, ok := o.Ret[0].(N)
				if !ok || n.W != w {
					sym.Unsup("result of C function %s", cn)
				}
				rets = append(rets, n)
			} else if v.M.Leaves(t) == 0 {
				rets = append(rets, sym.Agg{})
			} else {
				sym.Unsup("result of C function %s", cn)
			}
		}
		o.Ret = rets
	}
	return outs, true
}

// ------------------------------------------------------------ contracts on C functions

// stepC is the contract of a C function that processes one block:
//
//	requires found_collision in {0, 1}, the configuration set by Reset
//	ensures  (ihv, flag) == step(old(ihv), block)
//	ensures  found_collision == old(found_collision) || flag
//	assigns  ihv, found_collision, scratch
type stepC struct {
	busy, ok bool
	given    bool // verified by another task
	id       int
	vr       sym.Variant
	assigned []int // bytes of the context, apart from ihv and found_collision
}

func (v *VC) hookC(st *State, f *csym.Func, args []Val) ([]sym.Outcome, bool) {
	if f.Name == "ubc_check" && v.cMaskOK() && len(args) == 2 {
		w, ok1 := args[0].(sym.Ptr)
		r, ok2 := args[1].(sym.Ptr)
		if ok1 && ok2 {
			m := v.cm()
			if !m.Access(st, w, 320, "read") || !m.Access(st, r, 4, "write") {
				return nil, true
			}
			var ws []N
			for i := 0; i < 80; i++ {
				q, _ := m.LoadInt(st, sym.Ptr{O: w.O, Off: v.X.C.Add(w.Off, v.X.Int(int64(4*i)))}, 4)
				ws = append(ws, q)
			}
			m.StoreInt(st, r, v.ufMask(ws))
			return []sym.Outcome{{St: st}}, true
		}
	}
	return v.hookCStep(st, f, args)
}

// hookCStep recognises f(ctx, block), in any order of parameters, by the
// objects its arguments point to.
func (v *VC) hookCStep(st *State, f *csym.Func, args []Val) ([]sym.Outcome, bool) {
	if v.target != cgoPath || f.Ret.Kind != 'v' || v.D == nil {
		return nil, false
	}
	x, c := v.X, v.X.C
	ci, bi := -1, -1
	key := f.Name
	for i, a := range args {
		switch p := a.(type) {
		case sym.Ptr:
			if p.O == nil {
				return nil, false
			}
			if s, ok := p.O.Ghost.(*shadow); ok && ci < 0 && p.Off.IsConst() && p.Off.K == 0 && s.lo <= v.D.h && v.D.h+5 <= s.hi && s.lo <= v.D.col && v.D.col < s.hi {
				ci = i
			} else if bi < 0 {
				bi = i
			} else {
				return nil, false
			}
		case N:
			if !p.IsConst() {
				return nil, false
			}
			key += fmt.Sprintf(" %d:%d", i, p.K)
		default:
			return nil, false
		}
	}
	if ci < 0 || bi < 0 {
		return nil, false
	}
	ctx, blk := args[ci].(sym.Ptr), args[bi].(sym.Ptr)
	sh := ctx.O.Ghost.(*shadow)
	sc, seen := v.cstep[key]
	if !seen && v.cfail[f.Name] >= 1 && key != f.Name {
		return nil, false // no block function for other constants either
	}
	if !seen {
		sc = &stepC{busy: true, id: len(v.cstep)}
		v.cstep[key] = sc
		n := len(v.Res)
		v.depth++
		why := ""
		_, _, err := x.Nested(func() { why = v.verifyCStep(f, args, ci, bi, sh, sc) })
		v.depth--
		sc.busy = false
		if err != nil {
			why = err.Error()
		}
		sc.ok = why == ""
		if sc.ok {
			v.Contracted["cgo."+f.Name] = true
		} else {
			if v.cfail == nil {
				v.cfail = map[string]int{}
			}
			v.cfail[f.Name]++
			v.Notes = append(v.Notes, "contract of C function "+f.Name+": "+why)
			for _, r := range v.Res[n:] {
				if r.Status != "proved" {
					v.Notes = append(v.Notes, fmt.Sprintf("contract of C function %s dropped: %s %s %s", f.Name, r.Name, r.Status, clip(r.Detail, 200)))
					v.Failed = append(v.Failed, r)
				}
			}
			v.Res = v.Res[:n]
		}
	}
	if sc.busy || !sc.ok {
		return nil, false
	}
	m := v.cm()
	if !m.Access(st, blk, 64, "read") {
		return nil, true
	}
	d := v.D
	hoff := sh.ls[d.h].off - sh.base
	coff := sh.ls[d.col].off - sh.base
	var h [5]N
	for i := range h {
		h[i], _ = m.LoadInt(st, sym.Ptr{O: ctx.O, Off: x.Int(int64(hoff + 4*i))}, 4)
	}
	found, _ := m.LoadInt(st, sym.Ptr{O: ctx.O, Off: x.Int(int64(coff))}, sh.ls[d.col].size)
	if blk.O == ctx.O {
		if !blk.Off.IsConst() {
			return nil, false
		}
		lo := int(blk.Off.K)
		bad := func(k int) bool { return lo <= k && k < lo+64 }
		for i := 0; i < 20; i++ {
			if bad(hoff + i) {
				return nil, false
			}
		}
		for _, k := range append([]int{coff}, sc.assigned...) {
			if bad(k) {
				return nil, false
			}
		}
	}
	// the configuration
	for k, want := range d.inv {
		if k < sh.lo || k >= sh.hi {
			continue
		}
		l := sh.ls[k]
		got := v.fromBytes(st.Heap[ctx.O].Cells[l.off-sh.base:l.off-sh.base+l.size], l.t)
		if !sym.Same(got, want) {
			a, ok1 := got.(N)
			b, ok2 := want.(N)
			if !ok1 || !ok2 || !x.Prove(st.PC, c.Eq(a, b)).Valid() {
				return nil, false
			}
		}
	}
	var out [5]N
	var fl N
	if x.Probing() {
		as := append([]N{}, h[:]...)
		as = append(as, words(x.Load(st, blk, 64))...)
		for i := range out {
			out[i] = c.App(32, fmt.Sprintf("step#%d.%d", sc.id, i), as...)
		}
		fl = c.App(1, fmt.Sprintf("step#%d.f", sc.id), as...)
	} else {
		one := c.Ule(found, c.Const(found.W, 1))
		if !one.IsTrue() && !x.Prove(st.PC, one).Valid() {
			return nil, false
		}
		var seg sym.Seg
		if st.Heap[blk.O].FA != nil {
			seg = sym.Seg{FA: st.Heap[blk.O].FA, Off: blk.Off, Len: x.Int(64)}
		} else {
			seg = sym.Seg{FA: sym.CellsFA(words(x.Load(st, blk, 64))), Off: x.Int(0), Len: x.Int(64)}
		}
		out, fl = x.Abs.Absorb(h, seg)
	}
	for i := range out {
		m.StoreInt(st, sym.Ptr{O: ctx.O, Off: x.Int(int64(hoff + 4*i))}, out[i])
	}
	m.StoreInt(st, sym.Ptr{O: ctx.O, Off: x.Int(int64(coff))}, c.Ite(fl, c.Const(found.W, 1), found))
	for i := 0; i < len(sc.assigned); {
		k := sc.assigned[i]
		n := 1
		if g := ctx.O.Layout[k]; g > 1 && i+g <= len(sc.assigned) && sc.assigned[i+g-1] == k+g-1 {
			n = g
		}
		m.StoreInt(st, sym.Ptr{O: ctx.O, Off: x.Int(int64(k))}, c.Fresh(8*n, "scratch"))
		i += n
	}
	return []sym.Outcome{{St: st}}, true
}

func (v *VC) verifyCStep(f *csym.Func, args []Val, ci, bi int, sh *shadow, sc *stepC) string {
	x, c := v.X, v.X.C
	d := v.D
	st := v.M.NewState()
	o := x.NewObj("ctx", sym.Recv, args[ci].(sym.Ptr).O.N)
	o.Layout = args[ci].(sym.Ptr).O.Layout
	cells := make([]Val, o.N)
	for i := range cells {
		cells[i] = c.Const(8, 0)
	}
	col := c.Var(1, "R.col")
	var h [5]N
	for k := sh.lo; k < sh.hi; k++ {
		l := sh.ls[k]
		var q Val
		switch {
		case k >= d.h && k < d.h+5:
			h[k-d.h] = c.Var(32, fmt.Sprintf("R.h%d", k-d.h))
			q = h[k-d.h]
		case k == d.col:
			q = c.ZExt(col, 8*l.size)
		default:
			var ok bool
			if q, ok = d.inv[k]; !ok {
				if w := v.M.IntWidth(l.t); w > 0 {
					q = c.Var(w, "ctx."+l.name)
				} else {
					q = cOpaque{l.name}
				}
			}
		}
		copy(cells[l.off-sh.base:], v.toBytes(q, l.size))
	}
	st.SetCells(o, cells)
	before := append([]Val(nil), cells...)
	ob := x.NewObj("block", sym.Input, 64)
	bc := make([]Val, 64)
	for i := range bc {
		bc[i] = c.Var(8, fmt.Sprintf("R.b%d", i))
	}
	st.SetCells(ob, bc)
	as := append([]Val(nil), args...)
	as[ci] = sym.Ptr{O: o, Off: x.Int(0)}
	as[bi] = sym.Ptr{O: ob, Off: x.Int(0)}
	var outs []sym.Outcome
	obs, fr, err := x.Nested(func() { outs = v.cm().Call(st, f, as) })
	if err != nil {
		return err.Error()
	}
	if !v.safety(tg("C17"), "cgo."+f.Name, obs, fr, tg("C16")) {
		return "not safe"
	}
	if len(outs) == 0 {
		return "does not return"
	}
	end := outs[0].St
	for _, r := range outs[1:] {
		var ok bool
		if end, ok = x.Merge(end, r.St); !ok {
			return "its paths cannot be merged"
		}
	}
	after := end.Heap[o].Cells
	hoff := sh.ls[d.h].off - sh.base
	coff, csz := sh.ls[d.col].off-sh.base, sh.ls[d.col].size
	join := func(k, n int) N {
		q, ok := v.fromBytes(after[k:k+n], types.Typ[map[int]types.BasicKind{1: types.Uint8, 4: types.Uint32, 8: types.Uint64}[n]]).(N)
		if !ok {
			sym.Unsup("integer expected")
		}
		return q
	}
	vr := sym.Variant{Func: "C " + f.Name, Pos: "cgo/" + f.Name}
	for i := range vr.Out {
		vr.Out[i] = join(hoff+4*i, 4)
	}
	found := join(coff, csz)
	w := found.W
	vr.Flag = c.Ne(c.Subst(map[N]N{col: c.Const(1, 0)}, found)[0], c.Const(w, 0))
	if w := v.stray(append([]N{vr.Flag}, vr.Out[:]...)); w != "" {
		return "depends on more than the chaining value and the block (" + w + ")"
	}
	if !v.record(tg("C15"), "cgo."+f.Name, "ensures found_collision == old(found_collision) || flagged", nil, c.Eq(found, c.Or(c.ZExt(col, w), c.ZExt(vr.Flag, w)))) {
		return "the verdict is not accumulated"
	}
	for k := range after {
		if k >= hoff && k < hoff+20 || k >= coff && k < coff+csz {
			continue
		}
		if !sym.Same(before[k], after[k]) {
			if _, ok := after[k].(N); !ok {
				return "stores a pointer in the context"
			}
			if _, ok := before[k].(N); !ok {
				return "overwrites a pointer in the context"
			}
			sc.assigned = append(sc.assigned, k)
		}
	}
	// what the hasher means apart from these is for the callers to see
	keep := []int{}
	for k := range d.inv {
		keep = append(keep, k)
	}
	for _, k := range []int{d.ln, d.nx} {
		if k >= 0 {
			keep = append(keep, k)
		}
	}
	if d.x >= 0 {
		for k := 0; k < 64; k++ {
			keep = append(keep, d.x+k)
		}
	}
	sort.Ints(keep)
	for _, k := range keep {
		if k < sh.lo || k >= sh.hi {
			continue
		}
		a := sh.ls[k].off - sh.base
		for _, q := range sc.assigned {
			if q >= a && q < a+sh.ls[k].size {
				return "assigns " + sh.ls[k].name
			}
		}
	}
	sc.vr = vr
	x.AddVariant(vr)
	return ""
}

// stray names a variable other than those of the step function.
func (v *VC) stray(roots []N) string {
	for _, n := range term.Topo(roots...) {
		if n.Op == term.Var && !strings.HasPrefix(n.Name, "R.h") && !strings.HasPrefix(n.Name, "R.b") && !v.X.Config(n.Name) {
			return n.Name
		}
	}
	return ""
}

// expandStep replaces the opaque step functions in a variant.
func (v *VC) expandStep(roots []N) []N {
	for round := 0; round < 4; round++ {
		m := map[N]N{}
		for _, n := range term.Topo(roots...) {
			if !strings.HasPrefix(n.Name, "step#") || n.Op != term.App {
				continue
			}
			for _, sc := range v.cstep {
				if !sc.ok || sc.given {
					continue
				}
				pre := fmt.Sprintf("step#%d.", sc.id)
				if !strings.HasPrefix(n.Name, pre) {
					continue
				}
				var h [5]N
				var b [64]N
				copy(h[:], n.A[:5])
				copy(b[:], n.A[5:])
				o, fl := v.X.ApplyVariant(sc.vr, h, b)
				switch k := n.Name[len(pre):]; k {
				case "f":
					m[n] = fl
				default:
					m[n] = o[k[0]-'0']
				}
			}
		}
		if len(m) == 0 {
			break
		}
		roots = v.X.C.Subst(m, roots...)
	}
	return roots
}

// cMaskOK: the contract of the C function ubc_check.
func (v *VC) cMaskOK() bool {
	if v.off["CMask"] || v.pending["CMask"] {
		return false
	}
	if b, ok := v.force["CMask"]; ok {
		return b != inline
	}
	v.force["CMask"] = inline
	f := v.cm().Func(nil, "ubc_check")
	if f == nil || f.Ret.Kind != 'v' || len(f.Params) != 2 {
		v.Notes = append(v.Notes, "C function void ubc_check(W, mask) is not there; its callers are verified with its body in place")
		return false
	}
	v.pending["CMask"] = true
	n := len(v.Res)
	v.depth++
	ok := false
	_, _, err := v.X.Nested(func() { ok = v.checkCMask(nil) })
	v.depth--
	delete(v.pending, "CMask")
	if err != nil {
		v.Notes = append(v.Notes, "contract of C function ubc_check: "+err.Error())
		ok = false
	}
	if ok {
		v.force["CMask"] = full
		v.Contracted["cgo.ubc_check"] = true
	} else {
		for _, r := range v.Res[n:] {
			if r.Status != "proved" {
				v.Notes = append(v.Notes, fmt.Sprintf("contract of C function ubc_check not met: %s %s %s", r.Name, r.Status, clip(r.Detail, 200)))
				v.Failed = append(v.Failed, r)
			}
		}
		v.Res = v.Res[:n]
	}
	return ok
}

func (v *VC) checkCMask(tags []string) bool {
	x, c := v.X, v.X.C
	m := v.cm()
	f := m.Func(nil, "ubc_check")
	st := v.M.NewState()
	_, ws := v.input(st, "W", 80, 32, sym.Input)
	wantP := sym.Ptr{}
	{
		o := x.NewObj("W", sym.Input, 80)
		st.SetCells(o, vals(ws))
		wantP = sym.Ptr{O: o, Off: x.Int(0)}
	}
	old := v.pending["CMask"]
	v.pending["CMask"] = true
	defer func() { v.pending["CMask"] = old }()
	_, want := v.callSpec(st.Fork(), "Mask", wantP)
	ob := x.NewObj("W bytes", sym.Input, 320)
	ob.Layout = map[int]int{}
	var cells []Val
	for i, w := range ws {
		cells = append(cells, v.toBytes(w, 4)...)
		ob.Layout[4*i] = 4
	}
	st.SetCells(ob, cells)
	om := x.NewObj("dvmask", sym.Recv, 4)
	om.Layout = map[int]int{0: 4}
	st.SetCells(om, v.toBytes(c.Var(32, "oldmask"), 4))
	var outs []sym.Outcome
	obs, fr, err := x.Nested(func() {
		outs = m.Call(st, f, []Val{sym.Ptr{O: ob, Off: x.Int(0)}, sym.Ptr{O: om, Off: x.Int(0)}})
	})
	if err != nil {
		v.fail(tags, "cgo.ubc_check", "executes", err.Error())
		return false
	}
	ok := v.safety(append([]string{"C17"}, tags...), "cgo.ubc_check", obs, fr, append([]string{"C16"}, tags...)) && len(outs) > 0
	for _, r := range outs {
		got := v.fromBytes(r.St.Heap[om].Cells, types.Typ[types.Uint32]).(N)
		ok = v.record(tags, "cgo.ubc_check", "ensures dvmask[0] == Mask(W)", r.St.PC, c.Eq(got, want[0].(N))) && ok
	}
	return ok
}

// ------------------------------------------------------------ the hasher of the C-backed package

// Target selects the package whose contracts are checked.
func (v *VC) Target(pkg string) {
	if v.target != pkg {
		v.target, v.D = pkg, nil
	}
}

func (v *VC) pkg() string {
	if v.target == "" {
		return gosym.Module
	}
	return v.target
}

// cdigest finds the fields of the abstraction in a hasher that wraps a C
// context.
func (v *VC) cdigest(t types.Type, d *digestInfo) error {
	ls := v.leavesOf(d.T)
	d.n = len(ls)
	best := func(slot *int, at int, name string, want ...string) {
		base := name
		if i := strings.IndexByte(base, '['); i >= 0 {
			base = base[:i]
		}
		if i := strings.LastIndexByte(base, '.'); i >= 0 {
			base = base[i+1:]
		}
		if *slot < 0 {
			*slot = at
			return
		}
		for _, w := range want {
			if base == w {
				*slot = at
			}
		}
	}
	for i, l := range ls {
		b, ok := l.t.Underlying().(*types.Basic)
		if !ok {
			continue
		}
		n := l.arr[1] - l.arr[0]
		first := l.inArr && l.arr[0] == i
		switch {
		case first && n == 5 && b.Kind() == types.Uint32:
			best(&d.h, i, l.name, "ihv")
		case first && n == 64 && l.size == 1:
			best(&d.x, i, l.name, "buffer")
		case !l.inArr && b.Kind() == types.Uint64:
			best(&d.ln, i, l.name, "total")
		case !l.inArr && b.Kind() == types.Int32:
			best(&d.col, i, l.name, "found_collision")
		}
	}
	if d.h < 0 || d.x < 0 || d.ln < 0 || d.col < 0 {
		return fmt.Errorf("the hasher %v does not have the fields of the abstraction (state words, buffer, length, verdict)", t)
	}
	d.colW = 8 * ls[d.col].size
	for i := range ls {
		if i >= d.h && i < d.h+5 || i >= d.x && i < d.x+64 || i == d.ln || i == d.col {
			continue
		}
		d.extra = append(d.extra, i)
	}
	return nil
}

// invariant: the scalar fields that Reset sets to a constant, whatever was in
// the hasher, and that no other operation changes (checked with each of them).
func (v *VC) invariant(d *digestInfo) {
	d.inv = map[int]Val{}
	ls := v.leavesOf(d.T)
	st := v.M.NewState()
	o := v.X.NewObj("d", sym.Recv, d.n)
	o.Typ = d.T
	st.SetCells(o, v.M.Fresh(d.T, "any"))
	var outs []sym.Outcome
	_, _, err := v.X.Nested(func() { outs = v.M.Call(st, d.Reset, nil, []Val{sym.Ptr{O: o, Off: v.X.Int(0)}}) })
	if err != nil || len(outs) != 1 {
		return
	}
	after := outs[0].St.Heap[o].Cells
	for _, k := range d.extra {
		if ls[k].inArr {
			continue
		}
		switch q := after[k].(type) {
		case N:
			if q.IsConst() {
				d.inv[k] = q
			}
		case sym.Ptr:
			if q.O == nil {
				d.inv[k] = q
			}
		case sym.Fun:
			d.inv[k] = q
		}
	}
}

// keeps: the invariant fields are what they were.
func (v *VC) keeps(tags []string, fn string, st *State, d *digestInfo, o *sym.Obj) {
	c := v.X.C
	ls := v.leavesOf(d.T)
	goal := c.True()
	for k, want := range d.inv {
		got := st.Heap[o].Cells[k]
		if sym.Same(got, want) {
			continue
		}
		a, ok1 := got.(N)
		b, ok2 := want.(N)
		if !ok1 || !ok2 {
			v.refute(tags, fn, "preserves "+ls[k].name, fmt.Sprintf("%#v instead of %#v", got, want))
			continue
		}
		goal = c.And(goal, c.Eq(a, b))
	}
	if len(d.inv) > 0 {
		v.record(tags, fn, "preserves the configuration that Reset sets", st.PC, goal)
	}
}

// own translates the properties of the Go package's contracts to those of the
// C-backed one.
func (v *VC) own(tags []string) []string {
	if v.target != cgoPath {
		return tags
	}
	seen := map[string]bool{}
	var out []string
	for _, t := range tags {
		switch t {
		case "C10", "C11", "C15", "C16", "C17", "C18":
		default:
			t = "C15"
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

func (v *VC) fnName(n string) string {
	if v.target == cgoPath && !strings.HasPrefix(n, "cgo.") {
		return "cgo." + n
	}
	return n
}

// CheckCgoMask: the bit-condition mask of the C-backed package.
func (v *VC) CheckCgoMask() {
	all := tg("C10", "C16", "C17")
	x, c := v.X, v.X.C
	if v.M.Cfg.Cgo {
		v.guard(all, "cgo.ubc_check", func() {
			if v.cm().Func(nil, "ubc_check") == nil {
				v.Notes = append(v.Notes, "the C function ubc_check is not there")
				return
			}
			v.Contracted["cgo.ubc_check"] = true
			v.checkCMask(tg("C10"))
		})
	}
	v.guard(all, "cgo.CalculateDvMask", func() {
		f := v.M.Func(cgoPath, "CalculateDvMask")
		if f == nil {
			sym.Unsup("cgo.CalculateDvMask is not there")
		}
		sig := sigString(f)
		if sig != "func(*[80]uint32) uint32" && sig != "func([80]uint32) uint32" {
			sym.Unsup("cgo.CalculateDvMask %s", sig)
		}
		v.Contracted["cgo.CalculateDvMask"] = true
		st := v.M.NewState()
		p, ws := v.input(st, "W", 80, 32, sym.Input)
		_, want := v.callSpec(st.Fork(), "Mask", p)
		arg := Val(sym.Agg(vals(ws)))
		if strings.HasPrefix(sig, "func(*") {
			arg = p
		}
		outs, ok := v.run(st, f, "cgo.CalculateDvMask", []Val{arg}, tg("C10", "C17"), tg("C16"))
		if !ok {
			sym.Unsup("%s", v.runErr)
		}
		for _, r := range outs {
			v.record(tg("C10"), "cgo.CalculateDvMask", "ensures result == Mask(W)", r.St.PC, c.Eq(r.Ret[0].(N), want[0].(N)))
		}
		if strings.HasPrefix(sig, "func(*") {
			outs, ok := v.run(v.M.NewState(), f, "cgo.CalculateDvMask", []Val{sym.Ptr{}}, tg("C10", "C17"), tg("C16"))
			if !ok {
				sym.Unsup("%s", v.runErr)
			}
			for _, r := range outs {
				v.record(tg("C10"), "cgo.CalculateDvMask", "ensures W == nil ==> result == 0", r.St.PC, c.Eq(r.Ret[0].(N), x.C.Const(32, 0)))
			}
		}
	})
}

// CheckCgoDVs: the table of disturbance vectors of the C code.
func (v *VC) CheckCgoDVs() {
	if !v.M.Cfg.Cgo {
		return
	}
	all := tg("C11")
	v.guard(all, "cgo.sha1_dvs", func() {
		m := v.cm()
		g := m.Global(nil, "sha1_dvs")
		if g == nil {
			sym.Unsup("the C table sha1_dvs is not there")
		}
		// dv_info_t: six ints and 80 words
		const n = 6*4 + 80*4
		st := v.M.NewState()
		o := m.GlobalObj(st, g)
		if o.N != 33*n {
			v.refute(all, "cgo.sha1_dvs", "32 entries and a terminator", fmt.Sprintf("%d bytes", o.N))
			return
		}
		v.pass(all, "cgo.sha1_dvs", "32 entries and a terminator", "normalisation")
		fi := map[string]int{"DvType": 0, "DvK": 1, "DvB": 2, "TestT": 3, "MaskI": 4, "MaskB": 5, "Dm": 6}
		v.dvTable(all, "cgo.sha1_dvs", st, func(i int, f string, k int) N {
			q, _ := m.LoadInt(st, sym.Ptr{O: o, Off: v.X.Int(int64(i*n + 4*(fi[f]+k)))}, 4)
			return q
		})
	})
}

// onC: the C-backed package, built with C.
func (v *VC) onC() bool { return v.target == cgoPath && v.M.Cfg.Cgo }
