package vc

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/gosym"
	"verif/engine/sym"
	"verif/engine/term"
)

// The contracts on internal functions. Each says which opaque specification
// function the result is; while the contract is in force, both the call in the
// real code and the call in the specification are the same uninterpreted term.
// A contract is verified against the function's own body the first time it is
// needed; when the function is gone, has another signature, or does not meet
// the contract, the contract is dropped and the body is executed instead, with
// the specification function revealed. Only the public contracts decide
// properties.
//
//	ubc.CalculateDvMask(W)
//	    requires W != nil        ensures result == Mask(*W)
//	sha1cd.hasCollided(step, m1, dm, state, h)
//	    requires step in {58, 65}
//	    ensures  result == Collides(step, *m1 xor *dm, *state, *h)
//	sha1cd.checkCollision(m1, cs, h)
//	    ensures  result == Detect(*m1, cs[1], cs[2], *h)
//	F(d, p) where d points to a chaining value and p is a byte slice (block,
//	blockGeneric)
//	    requires len(p) % 64 == 0
//	    ensures  d.h == absorb(old(d.h), p), d.col == old(d.col) || flagged(old(d.h), p)
//	    assigns  d.h, d.col
//	bodyless F(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) (assembly)
//	    requires len(h) == 5, len(p) == 64, len(m1) == 80, len(cs) == 3
//	    ensures  h == Compress(old(h), Expand(p)), m1 == Expand(p),
//	             cs[0], cs[1], cs[2] == states before steps 0, 56, 64
//	    assigns  h, m1, cs
//	    (discharged on the machine code by C12 and C13)

type contract struct {
	name   string // also the opaque specification function
	pkg    string
	fn     string
	sig    string
	apply  func(v *VC, st *State, args []Val) ([]sym.Outcome, bool)
	verify func(v *VC, f *ssa.Function) (pure, ok bool)
}

var contracts = []*contract{
	{name: "Mask", pkg: gosym.Module + "/ubc", fn: "CalculateDvMask", sig: "func(*[80]uint32) uint32", apply: applyMask, verify: verifyMask},
	{name: "Collides", pkg: gosym.Module, fn: "hasCollided", sig: "func(uint32, *[80]uint32, *[80]uint32, *[5]uint32, *[5]uint32) bool", apply: applyCollides, verify: verifyCollides},
	{name: "Detect", pkg: gosym.Module, fn: "checkCollision", sig: "func(*[80]uint32, *[3][5]uint32, *[5]uint32) bool", apply: applyDetect, verify: verifyDetect},
}

func sigString(f *ssa.Function) string {
	var ps, rs []string
	for _, p := range f.Params {
		ps = append(ps, types.TypeString(p.Type(), nil))
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, types.TypeString(f.Signature.Results().At(i).Type(), nil))
	}
	r := strings.Join(rs, ", ")
	if len(rs) > 1 {
		r = "(" + r + ")"
	}
	s := "func(" + strings.Join(ps, ", ") + ")"
	if r != "" {
		s += " " + r
	}
	return s
}

// How a contract is used: not at all (the body is executed in place), in full,
// or weakly. A weak contract is what is left of a function that does not meet
// its postcondition but is pure and total: its result is some function of the
// same arguments. Properties that do not depend on which function that is can
// still be decided.
const (
	inline = iota
	full
	weak
)

// inForce verifies the contract on first use.
func (v *VC) inForce(c *contract) int {
	if v.off[c.name] || v.pending[c.name] {
		return inline
	}
	if b, ok := v.force[c.name]; ok {
		return b
	}
	f := v.M.Func(c.pkg, c.fn)
	mode := inline
	if f == nil || sigString(f) != c.sig {
		v.Notes = append(v.Notes, fmt.Sprintf("contract %s: %s.%s %s is not there; its callers are verified with its body in place", c.name, c.pkg, c.fn, c.sig))
	} else {
		v.pending[c.name] = true
		n := len(v.Res)
		v.depth++
		pure, ok := false, false
		_, _, err := v.X.Nested(func() { pure, ok = c.verify(v, f) })
		v.depth--
		delete(v.pending, c.name)
		if err != nil {
			v.Notes = append(v.Notes, "contract "+c.name+": "+err.Error())
			ok, pure = false, false
		}
		switch {
		case ok && pure:
			mode = full
			v.Contracted[c.pkg[strings.LastIndex(c.pkg, "/")+1:]+"."+c.fn] = true
		default:
			// callers decide; keep the evidence of the failure
			for _, r := range v.Res[n:] {
				if r.Status != "proved" {
					v.Notes = append(v.Notes, fmt.Sprintf("contract %s of %s not met: %s %s %s", c.name, c.fn, r.Name, r.Status, clip(r.Detail, 200)))
					v.Failed = append(v.Failed, r)
				}
			}
			v.Res = v.Res[:n]
			if pure && !v.NoWeak {
				mode = weak
			}
		}
	}
	v.force[c.name] = mode
	return mode
}

func (v *VC) hook(m *gosym.M, st *State, f *ssa.Function, args []Val) ([]sym.Outcome, bool) {
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	}
	if pkg == gosym.SpecPath {
		return v.hookSpec(st, f, args)
	}
	if !strings.HasPrefix(pkg, gosym.Module) {
		return nil, false
	}
	for _, c := range contracts {
		if c.pkg == pkg && c.fn == f.Name() && f.Signature.Recv() == nil {
			if m := v.inForce(c); m != inline {
				v.weak = m == weak
				outs, ok := c.apply(v, st, args)
				v.weak = false
				return outs, ok
			}
		}
	}
	if outs, ok := v.hookCgo(st, f, args); ok {
		return outs, true
	}
	if f.Blocks == nil && sigString(f) == asmSig {
		return v.applyAsm(st, f, args), true
	}
	return v.hookFold(st, f, args)
}

func (v *VC) hookSpec(st *State, f *ssa.Function, args []Val) ([]sym.Outcome, bool) {
	one := func(rs ...Val) ([]sym.Outcome, bool) { return []sym.Outcome{{St: st, Ret: rs}}, true }
	name := f.Name()
	if v.onC() {
		if name == "Mask" && v.cMaskOK() {
			return one(v.ufMask(v.load(st, args[0], 80)))
		}
	}
	for _, c := range contracts {
		if c.name != name || v.onC() {
			continue
		}
		if v.inForce(c) == inline {
			return nil, false
		}
		switch name {
		case "Mask":
			return one(v.ufMask(v.load(st, args[0], 80)))
		case "Collides":
			t := args[0].(N)
			if !t.IsConst() {
				sym.Unsup("recompression step is not a constant")
			}
			return one(v.ufCollides(t.K, v.load(st, args[1], 80), words(args[2].(sym.Agg)), words(args[3].(sym.Agg))))
		case "Detect":
			return one(v.ufDetect(v.load(st, args[0], 80), words(args[1].(sym.Agg)), words(args[2].(sym.Agg)), words(args[3].(sym.Agg))))
		}
	}
	if name == "Absorb" {
		s, ok := args[1].(sym.Slice)
		if !ok {
			return nil, false
		}
		h := w5(args[0].(sym.Agg))
		seg := v.X.SegOf(st, s)
		out, fl := v.X.Abs.Absorb(h, seg)
		return one(sym.Agg(vals(out[:])), fl)
	}
	return nil, false
}

func (v *VC) uf(n string) string {
	if v.weak {
		return "code." + n
	}
	return n
}

func (v *VC) ufMask(w []N) N { return v.X.C.App(32, v.uf("Mask"), w...) }
func (v *VC) ufCollides(t uint64, w, s, h []N) N {
	return v.X.C.App(1, v.uf(fmt.Sprintf("Collides%d", t)), append(append(append([]N{}, w...), s...), h...)...)
}
func (v *VC) ufDetect(w, s58, s65, h []N) N {
	return v.X.C.App(1, v.uf("Detect"), append(append(append(append([]N{}, w...), s58...), s65...), h...)...)
}

// input adds an input array of scalars.
func (v *VC) input(st *State, name string, n, w int, k sym.Kind) (sym.Ptr, []N) {
	o := v.X.NewObj(name, k, n)
	cells := make([]Val, n)
	ns := make([]N, n)
	for i := range cells {
		ns[i] = v.X.C.Var(w, fmt.Sprintf("%s[%d]", name, i))
		cells[i] = ns[i]
	}
	st.SetCells(o, cells)
	return sym.Ptr{O: o, Off: v.X.Int(0)}, ns
}

func ptrOK(vs ...Val) bool {
	for _, x := range vs {
		if p, ok := x.(sym.Ptr); !ok || p.O == nil {
			return false
		}
	}
	return true
}

func applyMask(v *VC, st *State, args []Val) ([]sym.Outcome, bool) {
	if !ptrOK(args[0]) {
		return nil, false
	}
	return []sym.Outcome{{St: st, Ret: []Val{v.ufMask(v.load(st, args[0], 80))}}}, true
}

func verifyMask(v *VC, f *ssa.Function) (bool, bool) { return v.checkMask(f, nil) }

// checkMask: the postcondition of CalculateDvMask.
func (v *VC) checkMask(f *ssa.Function, tags []string) (pure, ok bool) {
	st := v.M.NewState()
	p, _ := v.input(st, "W", 80, 32, sym.Input)
	v.pending["Mask"] = true
	_, want := v.callSpec(st.Fork(), "Mask", p)
	delete(v.pending, "Mask")
	v.pending["Mask"] = true
	defer delete(v.pending, "Mask")
	var outs []sym.Outcome
	obs, fr, err := v.X.Nested(func() { outs = v.M.Call(st, f, nil, []Val{p}) })
	if err != nil {
		v.fail(tags, f.Name(), "executes", err.Error())
		return false, false
	}
	pure = v.safety(append([]string{"C17"}, tags...), f.Name(), obs, fr, append([]string{"C16"}, tags...)) && len(outs) > 0
	ok = pure
	for _, o := range outs {
		if !v.record(tags, f.Name(), "ensures result == Mask(W)", o.St.PC, v.X.C.Eq(o.Ret[0].(N), want[0].(N))) {
			ok = false
		}
	}
	return pure, ok
}

func applyCollides(v *VC, st *State, a []Val) ([]sym.Outcome, bool) {
	t, ok := a[0].(N)
	if !ok || !t.IsConst() || t.K != 58 && t.K != 65 || !ptrOK(a[1:]...) {
		return nil, false
	}
	w := v.load(st, a[1], 80)
	for i, d := range v.load(st, a[2], 80) {
		w[i] = v.X.C.Xor(w[i], d)
	}
	return []sym.Outcome{{St: st, Ret: []Val{v.ufCollides(t.K, w, v.load(st, a[3], 5), v.load(st, a[4], 5))}}}, true
}

func verifyCollides(v *VC, f *ssa.Function) (pure, ok bool) {
	pure, ok = true, true
	tags := []string{"C03"}
	for _, t := range []uint64{58, 65} {
		st := v.M.NewState()
		m1, w1 := v.input(st, "m1", 80, 32, sym.Input)
		dm, wd := v.input(st, "dm", 80, 32, sym.Input)
		s, ws := v.input(st, "state", 5, 32, sym.Input)
		h, wh := v.input(st, "h", 5, 32, sym.Input)
		sp := st.Fork()
		o := v.X.NewObj("m2", sym.Local, 80)
		cells := make([]Val, 80)
		for i := range cells {
			cells[i] = v.X.C.Xor(w1[i], wd[i])
		}
		sp.SetCells(o, cells)
		_, want := v.callSpec(sp, "Collides", v.X.Int(int64(t)), sym.Ptr{O: o, Off: v.X.Int(0)}, sym.Agg(vals(ws)), sym.Agg(vals(wh)))
		var outs []sym.Outcome
		obs, fr, err := v.X.Nested(func() { outs = v.M.Call(st, f, nil, []Val{v.X.C.Const(32, t), m1, dm, s, h}) })
		if err != nil {
			v.fail(tags, f.Name(), "executes", err.Error())
			return false, false
		}
		pure = v.safety([]string{"C17"}, f.Name(), obs, fr, []string{"C16"}) && pure && len(outs) > 0
		for _, r := range outs {
			ok = v.record(tags, f.Name(), fmt.Sprintf("ensures result == Collides(%d, m1 xor dm, state, h)", t), r.St.PC, v.X.C.Eq(r.Ret[0].(N), want[0].(N))) && ok
		}
	}
	return pure, ok
}

func applyDetect(v *VC, st *State, a []Val) ([]sym.Outcome, bool) {
	if !ptrOK(a...) {
		return nil, false
	}
	cs := v.load(st, a[1], 15)
	return []sym.Outcome{{St: st, Ret: []Val{v.ufDetect(v.load(st, a[0], 80), cs[5:10], cs[10:15], v.load(st, a[2], 5))}}}, true
}

func verifyDetect(v *VC, f *ssa.Function) (pure, ok bool) {
	tags := []string{"C03"}
	st := v.M.NewState()
	m1, _ := v.input(st, "m1", 80, 32, sym.Input)
	cs, wc := v.input(st, "cs", 15, 32, sym.Input)
	h, wh := v.input(st, "h", 5, 32, sym.Input)
	_, want := v.callSpec(st.Fork(), "Detect", m1, sym.Agg(vals(wc[5:10])), sym.Agg(vals(wc[10:15])), sym.Agg(vals(wh)))
	var outs []sym.Outcome
	obs, fr, err := v.X.Nested(func() { outs = v.M.Call(st, f, nil, []Val{m1, cs, h}) })
	if err != nil {
		v.fail(tags, f.Name(), "executes", err.Error())
		return false, false
	}
	pure = v.safety([]string{"C17"}, f.Name(), obs, fr, []string{"C16"}) && len(outs) > 0
	ok = true
	for _, r := range outs {
		ok = v.record(tags, f.Name(), "ensures result == Detect(m1, cs[1], cs[2], h)", r.St.PC, v.X.C.Eq(r.Ret[0].(N), want[0].(N))) && ok
	}
	return pure, ok
}

// applyAsm: the contract of the assembly block functions.
func (v *VC) applyAsm(st *State, f *ssa.Function, a []Val) []sym.Outcome {
	x := v.X
	v.Assumed[f.Name()+" (assembly; its contract is discharged by C12/C13)"] = true
	h, p, m1, cs := a[0].(sym.Slice), a[1].(sym.Slice), a[2].(sym.Slice), a[3].(sym.Slice)
	for _, q := range []struct {
		s sym.Slice
		n int64
		w string
	}{{h, 5, "h"}, {p, 64, "p"}, {m1, 80, "m1"}, {cs, 3, "cs"}} {
		x.Require(st, "call", fmt.Sprintf("%s requires len(%s) == %d", f.Name(), q.w, q.n), x.C.Eq(q.s.Len, x.Int(q.n)))
		if q.s.O == nil {
			return nil
		}
	}
	v.dispatch(st, f)
	hw := x.Load(st, sym.Ptr{O: h.O, Off: h.Off}, 5)
	pb := x.Load(st, sym.Ptr{O: p.O, Off: p.Off}, 64)
	// the specification's values
	sp := st.Fork()
	ob := x.NewObj("blk", sym.Local, 64)
	sp.SetCells(ob, pb)
	_, w := v.callSpec(sp.Fork(), "Expand", sym.Ptr{O: ob, Off: x.Int(0)})
	ow := x.NewObj("w", sym.Local, 80)
	sp.SetCells(ow, []Val(w[0].(sym.Agg)))
	wp := sym.Ptr{O: ow, Off: x.Int(0)}
	_, nh := v.callSpec(sp.Fork(), "Compress", sym.Agg(hw), wp)
	_, s56 := v.callSpec(sp.Fork(), "Rounds", sym.Agg(hw), wp, x.Int(0), x.Int(56))
	_, s64 := v.callSpec(sp.Fork(), "Rounds", s56[0], wp, x.Int(56), x.Int(64))
	x.Store(st, sym.Ptr{O: m1.O, Off: m1.Off}, []Val(w[0].(sym.Agg)))
	all := append(append(append([]Val{}, hw...), s56[0].(sym.Agg)...), s64[0].(sym.Agg)...)
	x.Store(st, sym.Ptr{O: cs.O, Off: cs.Off}, all)
	x.Store(st, sym.Ptr{O: h.O, Off: h.Off}, []Val(nh[0].(sym.Agg)))
	return []sym.Outcome{{St: st}}
}

// ------------------------------------------------------------ block folds

// foldC is the contract of a function that absorbs blocks.
type foldC struct {
	ok     bool
	busy   bool
	di, pi int // parameters
	h, col int // cells of the receiver
	n      int
	T      types.Type
	pre    []sym.Oblig // conditions on the configuration, for the callers
}

// hookFold recognises functions F(d, p) by their signature.
func (v *VC) hookFold(st *State, f *ssa.Function, args []Val) ([]sym.Outcome, bool) {
	fc, seen := v.fold[f]
	if !seen {
		fc = v.foldSig(f)
		v.fold[f] = fc
		if mode, given := v.foldGiven[f.Name()]; fc != nil && given {
			fc.ok = mode
		} else if fc != nil {
			fc.busy = true
			n := len(v.Res)
			var ok bool
			v.depth++
			_, _, err := v.X.Nested(func() { ok = v.verifyFold(f, fc) })
			v.depth--
			fc.busy = false
			fc.ok = ok && err == nil
			if !fc.ok {
				if err != nil {
					v.Notes = append(v.Notes, "contract of "+f.Name()+": "+err.Error())
				}
				for _, r := range v.Res[n:] {
					if r.Status != "proved" {
						v.Notes = append(v.Notes, fmt.Sprintf("contract of %s dropped: %s %s %s", f.Name(), r.Name, r.Status, clip(r.Detail, 200)))
						v.Failed = append(v.Failed, r)
					}
				}
				v.Res = v.Res[:n]
			} else {
				v.Contracted["sha1cd."+f.Name()] = true
			}
		}
	}
	if fc == nil || fc.busy || !fc.ok {
		return nil, false
	}
	x := v.X
	for _, q := range fc.pre {
		x.Require(st, q.Kind, q.Name, q.Cond)
	}
	d, ok := args[fc.di].(sym.Ptr)
	p, ok2 := args[fc.pi].(sym.Slice)
	if !ok || !ok2 || d.O == nil || !d.Off.IsConst() {
		return nil, false
	}
	if p.O == nil {
		return []sym.Outcome{{St: st}}, true
	}
	base := int(d.Off.K)
	if p.O == d.O { // the buffer of the digest itself: must not overlap the frame
		if !p.Off.IsConst() || !p.Len.IsConst() {
			return nil, false
		}
		lo, hi := int(p.Off.K), int(p.Off.K+p.Len.K)
		for _, r := range [][2]int{{base + fc.h, base + fc.h + 5}, {base + fc.col, base + fc.col + 1}} {
			if fc.col < 0 && r[0] == base+fc.col {
				continue
			}
			if lo < r[1] && r[0] < hi {
				return nil, false
			}
		}
	}
	mult := x.C.Eq(x.C.Extract(p.Len, 0, 6), x.C.Const(6, 0))
	if !mult.IsTrue() && !x.Prove(st.PC, mult).Valid() {
		return nil, false
	}
	seg := x.SegOf(st, p)
	h := w5(x.Load(st, sym.Ptr{O: d.O, Off: x.Int(int64(base + fc.h))}, 5))
	out, fl := x.Abs.Absorb(h, seg)
	x.Store(st, sym.Ptr{O: d.O, Off: x.Int(int64(base + fc.h))}, vals(out[:]))
	if fc.col >= 0 {
		cp := sym.Ptr{O: d.O, Off: x.Int(int64(base + fc.col))}
		col := words(x.Load(st, cp, 1))[0]
		x.Store(st, cp, []Val{x.C.Or(col, fl)})
	}
	return []sym.Outcome{{St: st}}, true
}

func (v *VC) foldSig(f *ssa.Function) *foldC {
	if f.Blocks == nil || f.Signature.Results().Len() != 0 || len(f.FreeVars) > 0 {
		return nil
	}
	fc := &foldC{di: -1, pi: -1, h: -1, col: -1}
	for i, p := range f.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Pointer:
			st, ok := u.Elem().Underlying().(*types.Struct)
			if !ok || fc.di >= 0 {
				return nil
			}
			fc.di = i
			fc.T = u.Elem()
			fc.n = v.M.Leaves(u.Elem())
			for k := 0; k < st.NumFields(); k++ {
				off := v.M.FieldOff(u.Elem(), k)
				if a, ok := st.Field(k).Type().Underlying().(*types.Array); ok && a.Len() == 5 && v.M.IntWidth(a.Elem()) == 32 && fc.h < 0 {
					fc.h = off
				}
				if v.M.IntWidth(st.Field(k).Type()) == 1 && fc.col < 0 {
					fc.col = off
				}
			}
		case *types.Slice:
			if v.M.IntWidth(u.Elem()) != 8 || fc.pi >= 0 {
				return nil
			}
			fc.pi = i
		default:
			return nil
		}
	}
	if fc.di < 0 || fc.pi < 0 || fc.h < 0 || len(f.Params) != 2 {
		return nil
	}
	return fc
}

func (v *VC) maxLen() N { return v.X.C.Const(v.X.IW, 1<<uint(v.X.IW-2)) }

// lift: an obligation on the configuration that the function does not
// discharge itself becomes a precondition.
func (v *VC) lift(fc *foldC, obs []sym.Oblig) []sym.Oblig {
	c := v.X.C
	config := func(n N) bool {
		for _, q := range term.Topo(n) {
			if q.Op == term.Var && !v.X.Config(q.Name) || q.Op == term.App {
				return false
			}
		}
		return true
	}
	fc.pre = nil
	seen := map[N]bool{}
	var out []sym.Oblig
	for _, o := range obs {
		if o.Kind != "dispatch" || !config(o.Cond) || v.X.Prove(o.PC, o.Cond).Valid() {
			out = append(out, o)
			continue
		}
		cond := o.Cond
		for _, n := range o.PC {
			if config(n) {
				cond = c.Implies(n, cond)
			}
		}
		if !seen[cond] {
			seen[cond] = true
			o.PC, o.Cond = nil, cond
			fc.pre = append(fc.pre, o)
		}
	}
	return out
}

func (v *VC) verifyFold(f *ssa.Function, fc *foldC) bool {
	x, c := v.X, v.X.C
	st := v.M.NewState()
	o := x.NewObj("d", sym.Recv, fc.n)
	cells := v.M.Fresh(fc.T, "d")
	st.SetCells(o, cells)
	h := w5(cells[fc.h : fc.h+5])
	x.Abs.RegisterTuple(h)
	L := c.Concat(c.Var(x.IW-6, "blocks"), c.Const(6, 0))
	capv := c.Var(x.IW, "blkp.cap")
	p := x.NewFA(st, "blkp", sym.Input, 8, capv)
	st.Assume(c.Ule(L, v.maxLen()))
	st.Assume(c.Ule(L, capv))
	st.Assume(c.Ule(capv, v.maxLen()))
	fa := x.Snap(st, p)
	args := make([]Val, 2)
	args[fc.di] = sym.Ptr{O: o, Off: x.Int(0)}
	args[fc.pi] = sym.Slice{O: p, Off: x.Int(0), Len: L, Cap: capv, Stride: 1}
	before := append([]Val(nil), cells...)
	var outs []sym.Outcome
	obs, fr, err := x.Nested(func() { outs = v.M.Call(st, f, nil, args) })
	if err != nil {
		v.fail(nil, f.Name(), "executes", err.Error())
		return false
	}
	obs = v.lift(fc, obs)
	tags := []string{"C04", "C05"}
	ok := v.safety([]string{"C17"}, f.Name(), obs, fr, []string{"C16"}) && len(outs) > 0
	for _, r := range outs {
		after := r.St.Heap[o].Cells
		want, fl := x.Abs.Absorb(h, sym.Seg{FA: fa, Off: x.Int(0), Len: L})
		goal := c.True()
		for i := 0; i < 5; i++ {
			goal = c.And(goal, c.Eq(words(after[fc.h+i : fc.h+i+1])[0], want[i]))
		}
		ok = v.record(append(tags, "C01"), f.Name(), "ensures d.h == absorb(old(d.h), p)", r.St.PC, goal) && ok
		if fc.col >= 0 {
			ok = v.record(tags, f.Name(), "ensures d.col == old(d.col) || flagged(old(d.h), p)", r.St.PC,
				c.Eq(after[fc.col].(N), c.Or(before[fc.col].(N), fl))) && ok
		}
		for i := range after {
			if i >= fc.h && i < fc.h+5 || i == fc.col {
				continue
			}
			if !sym.Same(after[i], before[i]) {
				a, isN := after[i].(N)
				b, isM := before[i].(N)
				if !isN || !isM || !v.record([]string{"C16"}, f.Name(), "assigns only d.h and d.col", r.St.PC, c.Eq(a, b)) {
					ok = false
				}
			}
		}
	}
	return ok
}
