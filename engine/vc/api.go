package vc

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/gosym"
	"verif/engine/sym"
	"verif/engine/term"
)

// The public contracts. abs(d) is the abstract state of a digest (H, pending
// bytes X[:NX], Len, Col); every contract is stated over it, and every digest
// with NX == Len mod 64 is a valid state. The obligations are generated for
// each of the 64 values of NX; everything else is symbolic.

// slice makes an arbitrary byte slice argument of the given kind.
func (v *VC) slice(st *State, name string, k sym.Kind) (sym.Slice, *sym.Obj, *sym.FA) {
	x, c := v.X, v.X.C
	l, cp := c.Var(x.IW, name+".len"), c.Var(x.IW, name+".cap")
	o := x.NewFA(st, name, k, 8, cp)
	if v.onC() && k == sym.Input {
		o.Len = l // C code may touch the bytes of the slice only
	}
	st.Assume(c.Ule(l, cp))
	st.Assume(c.Ule(cp, v.maxLen()))
	return sym.Slice{O: o, Off: x.Int(0), Len: l, Cap: cp, Stride: 1}, o, x.Snap(st, o)
}

func (v *VC) nilSlice() sym.Slice {
	z := v.X.Int(0)
	return sym.Slice{Off: z, Len: z, Cap: z, Stride: 1}
}

func tg(s ...string) []string { return s }

// run executes f and discharges its implicit obligations.
func (v *VC) run(st *State, f *ssa.Function, name string, args []Val, safe, frame []string) ([]sym.Outcome, bool) {
	var outs []sym.Outcome
	pre := append([]N(nil), st.PC...)
	obs, fr, err := v.X.Nested(func() { outs = v.M.Call(st, f, nil, args) })
	if err != nil {
		v.runErr = err.Error()
		return nil, false
	}
	v.Contracted[name] = true
	v.safety(safe, name, obs, fr, frame)
	v.covers(safe, name, pre, outs)
	if len(outs) == 0 {
		v.runErr = "no path returns"
		return nil, false
	}
	return outs, true
}

// covers: every input that meets the precondition takes one of the paths the
// postconditions are checked on. Nothing to be decided where the number of
// iterations of a loop is not named (its exit is implied by the bound).
func (v *VC) covers(tags []string, fn string, pre []N, outs []sym.Outcome) {
	c := v.X.C
	if v.depth > 0 || len(outs) == 0 {
		return
	}
	if v.wanted(v.own(tags)) && !v.X.P.Feasible(append(append([]N{}, v.X.Facts...), pre...)) {
		v.fail(tags, fn, "the precondition can be met", "the facts and the precondition contradict each other")
	}
	known := map[N]bool{}
	for _, n := range pre {
		known[n] = true
	}
	any := c.False()
	for _, o := range outs {
		all := c.True()
		for _, n := range o.St.PC {
			if !known[n] {
				all = c.And(all, n)
			}
		}
		any = c.Or(any, all)
	}
	for _, n := range term.Topo(any) {
		if n.Op == term.Var && strings.HasPrefix(n.Name, "k!") {
			return
		}
	}
	v.record(tags, fn, "every input takes a path that is checked", pre, any)
}

func isNilErr(x Val) (nilErr, known bool) {
	i, ok := x.(sym.Iface)
	return ok && i.T == nil, ok
}

func (v *VC) sel(f *sym.FA, i N) N { return v.X.Sel(f, i) }

// cellsAt selects a byte of an object at a symbolic index.
func (v *VC) objAt(st *State, o *sym.Obj, i N) N { return v.X.Sel(v.X.Snap(st, o), i) }

// specAbs is the abstract state as an argument of a specification method.
func (v *VC) stream(st *State, a sym.Agg, p sym.Slice) (buf sym.Seg, full N, total N) {
	f := v.M.Func(gosym.SpecPath, "Digest.Stream")
	outs := v.M.Call(st.Fork(), f, nil, []Val{a, p})
	if len(outs) != 1 {
		sym.Unsup("specification function Stream has %d outcomes", len(outs))
	}
	b := outs[0].Ret[0].(sym.Slice)
	return v.X.SegOf(outs[0].St, b), outs[0].Ret[1].(N), b.Len
}

// guard reports an execution that the generator cannot follow.
func (v *VC) guard(tags []string, fn string, f func()) {
	_, _, err := v.X.Nested(f)
	if err != nil {
		v.fail(tags, fn, "obligations can be generated", err.Error())
	}
}

var (
	allStream = tg("C01", "C02", "C04", "C05", "C07", "C08", "C17", "C18")
)

// CheckWrite: Write(p) appends p to the message and reports len(p), nil.
func (v *VC) CheckWrite(nx int, nilp bool) {
	fn := "(*digest).Write"
	v.guard(allStream, fn, func() {
		d, err := v.digest()
		if err != nil {
			sym.Unsup("%v", err)
		}
		x, c := v.X, v.X.C
		st := v.M.NewState()
		o := v.mkDigest(st, d, "d", nx)
		a0 := v.abs(st, d, o)
		var p sym.Slice
		if nilp {
			p = v.nilSlice()
		} else {
			p, _, _ = v.slice(st, "p", sym.Input)
		}
		buf, full, total := v.stream(st, a0, p)
		outs, ok := v.run(st, d.Write, fn, []Val{sym.Ptr{O: o, Off: x.Int(0)}, p}, allStream, tg("C16"))
		if !ok {
			v.fail(allStream, fn, "executes", v.runErr)
			return
		}
		buf.Len = full
		wh, wf := x.Abs.Absorb(w5(a0[aH:aH+5]), buf)
		at := fmt.Sprintf(" (nx=%d)", nx)
		for _, r := range outs {
			pc := r.St.PC
			n, okn := r.Ret[0].(N)
			e, known := isNilErr(r.Ret[1])
			if !okn || !known {
				sym.Unsup("results of Write")
			}
			v.record(tg("C05"), fn, "ensures n == len(p)"+at, pc, c.Eq(n, p.Len))
			v.record(tg("C05"), fn, "ensures err == nil"+at, pc, c.Bool(e))
			a1 := v.abs(r.St, d, o)
			goal := c.True()
			for i := 0; i < 5; i++ {
				goal = c.And(goal, c.Eq(a1[aH+i].(N), wh[i]))
			}
			v.record(tg("C01", "C02", "C05"), fn, "ensures H == Absorb(old(H), whole blocks of old(X[:NX]) ++ p)"+at, pc, goal)
			v.record(tg("C01", "C05", "C18"), fn, "ensures Len == old(Len) + len(p)"+at, pc,
				c.Eq(a1[aLen].(N), c.Add(a0[aLen].(N), c.ZExt(p.Len, 64))))
			v.record(tg("C04", "C05"), fn, "ensures Col == old(Col) || some block flagged"+at, pc,
				c.Eq(a1[aCol].(N), c.Or(a0[aCol].(N), wf)))
			nx1 := c.Extract(total, 0, 6)
			if d.nx >= 0 {
				got := r.St.Heap[o].Cells[d.nx].(N)
				v.record(tg("C01", "C05", "C17"), fn, "ensures NX == Len mod 64 (invariant)"+at, pc, c.Eq(got, c.ZExt(nx1, got.W)))
			}
			var rest []N
			for k := 0; k < 64; k++ {
				want := x.Sel(buf.FA, c.Add(buf.Off, c.Add(full, x.Int(int64(k)))))
				rest = append(rest, c.Or(c.Ule(nx1, c.Const(6, uint64(k))), c.Eq(a1[aX+k].(N), want)))
			}
			v.record(tg("C01", "C05"), fn, "ensures X[:NX] == the rest of old(X[:NX]) ++ p"+at, pc, rest...)
			v.extraFrame(r.St, d, o, fn)
			v.keeps(tg("C05"), fn, r.St, d, o)
		}
	})
}

// extraFrame: no reference to an argument is kept in the digest.
func (v *VC) extraFrame(st *State, d *digestInfo, o *sym.Obj, fn string) {
	for _, i := range d.extra {
		var q *sym.Obj
		switch p := st.Heap[o].Cells[i].(type) {
		case sym.Ptr:
			q = p.O
		case sym.Slice:
			q = p.O
		}
		if q != nil && (q.Kind == sym.Input || q.Kind == sym.Recv && q != o) {
			v.refute(tg("C16"), fn, "keeps no reference to its argument", q.Name)
		}
	}
}

// unchanged: the abstract state of the digest is what it was.
func (v *VC) unchanged(tags []string, fn, at string, st *State, d *digestInfo, o *sym.Obj, a0 sym.Agg, nx int) {
	c := v.X.C
	a1 := v.abs(st, d, o)
	goal := c.True()
	for i := range a0 {
		if i >= aX && i < aX+64 && i-aX >= nx {
			continue
		}
		goal = c.And(goal, c.Eq(a0[i].(N), a1[i].(N)))
	}
	if d.nx >= 0 {
		got := st.Heap[o].Cells[d.nx].(N)
		goal = c.And(goal, c.Eq(got, c.Const(got.W, uint64(nx))))
	}
	v.record(tags, fn, "leaves the hasher as it was"+at, st.PC, goal)
}

// CheckSum: Sum and CollisionResistantSum.
func (v *VC) CheckSum(nx int, nilIn, withCol bool) {
	fn := "(*digest).Sum"
	if withCol {
		fn = "(*digest).CollisionResistantSum"
	}
	all := tg("C01", "C02", "C04", "C06", "C07", "C08", "C16", "C17", "C18")
	v.guard(all, fn, func() {
		d, err := v.digest()
		if err != nil {
			sym.Unsup("%v", err)
		}
		f := d.Sum
		if withCol {
			f = d.CRSum
		}
		if f == nil {
			sym.Unsup("%s is not there", fn)
		}
		x, c := v.X, v.X.C
		st := v.M.NewState()
		o := v.mkDigest(st, d, "d", nx)
		a0 := v.abs(st, d, o)
		in := v.nilSlice()
		var io *sym.Obj
		var old *sym.FA
		if !nilIn {
			in, io, old = v.slice(st, "in", sym.Recv)
		}
		want, wcol := v.finish(st, a0)
		outs, ok := v.run(st, f, fn, []Val{sym.Ptr{O: o, Off: x.Int(0)}, in}, all, tg("C16", "C06"))
		if !ok {
			v.fail(all, fn, "executes", v.runErr)
			return
		}
		at := fmt.Sprintf(" (nx=%d)", nx)
		if nilIn {
			at = fmt.Sprintf(" (nil, nx=%d)", nx)
		}
		for _, r := range outs {
			pc := r.St.PC
			s, oks := r.Ret[0].(sym.Slice)
			if !oks || s.O == nil {
				sym.Unsup("result of Sum")
			}
			v.record(tg("C06"), fn, "ensures len(result) == len(in) + 20"+at, pc, c.Eq(s.Len, c.Add(in.Len, x.Int(20))))
			fa := x.Snap(r.St, s.O)
			goal := c.True()
			for k := 0; k < 20; k++ {
				goal = c.And(goal, c.Eq(x.Sel(fa, c.Add(s.Off, c.Add(in.Len, x.Int(int64(k))))), want[k]))
			}
			v.record(tg("C01", "C02", "C06", "C18"), fn, "ensures result[len(in):] == digest of the message"+at, pc, goal)
			if withCol {
				v.record(tg("C04"), fn, "ensures verdict == Col || padding flagged"+at, pc, c.Eq(r.Ret[1].(N), wcol))
			}
			if io != nil {
				// positions counted from len(in)
				u := c.Fresh(x.IW, "i")
				i := c.Sub(c.Sub(in.Len, x.Int(1)), u)
				v.record(tg("C06"), fn, "ensures result[:len(in)] == old(in)"+at, append(append([]N{}, pc...), c.Ult(u, in.Len)),
					c.Eq(x.Sel(fa, c.Add(s.Off, i)), x.Sel(old, i)))
				now := x.Snap(r.St, io)
				if now != old {
					i := c.Add(in.Len, u)
					v.record(tg("C06", "C16"), fn, "assigns in[len(in):len(in)+20] only"+at, append(append([]N{}, pc...), c.Not(c.Ult(u, x.Int(20)))),
						c.Eq(x.Sel(now, i), x.Sel(old, i)))
				}
			}
			if s.O == o {
				v.refute(tg("C06", "C16"), fn, "result does not alias the hasher"+at, "")
			}
			v.unchanged(tg("C06", "C05", "C04"), fn, at, r.St, d, o, a0, nx)
			v.keeps(tg("C06"), fn, r.St, d, o)
			v.extraFrame(r.St, d, o, fn)
		}
	})
}

func (v *VC) finish(st *State, a sym.Agg) ([]N, N) {
	f := v.M.Func(gosym.SpecPath, "Digest.Finish")
	outs := v.M.Call(st.Fork(), f, nil, []Val{a})
	if len(outs) != 1 {
		sym.Unsup("specification function Finish has %d outcomes", len(outs))
	}
	return words(outs[0].Ret[0].(sym.Agg)), outs[0].Ret[1].(N)
}

// CheckBasics: New, Reset, Size, BlockSize.
func (v *VC) CheckBasics() {
	c := v.X.C
	isInit := func(tags []string, fn string, st *State, d *digestInfo, o *sym.Obj) {
		a := v.abs(st, d, o)
		_, w := v.callSpec(st.Fork(), "New")
		ws := w[0].(sym.Agg)
		goal := c.True()
		for i := range a {
			if i >= aX && i < aX+64 {
				continue
			}
			goal = c.And(goal, c.Eq(a[i].(N), ws[i].(N)))
		}
		if d.nx >= 0 {
			goal = c.And(goal, c.Eq(st.Heap[o].Cells[d.nx].(N), c.Const(d.nxW, 0)))
		}
		v.record(tags, fn, "ensures abs(d) == initial state", st.PC, goal)
	}
	v.guard(tg("C01", "C07", "C17"), "New", func() {
		d, err := v.digest()
		if err != nil {
			sym.Unsup("%v", err)
		}
		st := v.M.NewState()
		outs, ok := v.run(st, v.M.Func(v.pkg(), "New"), "New", nil, tg("C01", "C07", "C17"), tg("C16"))
		if !ok {
			v.fail(tg("C01", "C07", "C17"), "New", "executes", v.runErr)
			return
		}
		for _, r := range outs {
			i, ok := r.Ret[0].(sym.Iface)
			if !ok || i.T == nil {
				sym.Unsup("result of New")
			}
			p := i.V.(sym.Ptr)
			if p.O.Kind != sym.Local {
				v.refute(tg("C16", "C07"), "New", "returns a fresh hasher", p.O.Name)
			}
			isInit(tg("C01", "C04", "C07", "C18"), "New", r.St, d, p.O)
			v.keeps(tg("C07"), "New", r.St, d, p.O)
		}
	})
	v.guard(tg("C07", "C17"), "(*digest).Reset", func() {
		d, err := v.digest()
		if err != nil {
			sym.Unsup("%v", err)
		}
		st := v.M.NewState()
		o := v.mkDigest(st, d, "d", 0)
		// any contents at all, also outside the invariant
		cells := v.M.Fresh(d.T, "any")
		st.SetCells(o, cells)
		outs, ok := v.run(st, d.Reset, "(*digest).Reset", []Val{sym.Ptr{O: o, Off: v.X.Int(0)}}, tg("C07", "C17"), tg("C16"))
		if !ok {
			v.fail(tg("C07", "C17"), "(*digest).Reset", "executes", v.runErr)
			return
		}
		for _, r := range outs {
			isInit(tg("C07", "C04"), "(*digest).Reset", r.St, d, o)
			v.keeps(tg("C07"), "(*digest).Reset", r.St, d, o)
		}
	})
	for _, q := range []struct {
		n    string
		f    func(d *digestInfo) *ssa.Function
		want int64
	}{{"(*digest).Size", func(d *digestInfo) *ssa.Function { return d.Size }, 20}, {"(*digest).BlockSize", func(d *digestInfo) *ssa.Function { return d.BlockSize }, 64}} {
		v.guard(tg("C06", "C17"), q.n, func() {
			d, err := v.digest()
			if err != nil {
				sym.Unsup("%v", err)
			}
			st := v.M.NewState()
			o := v.mkDigest(st, d, "d", 5)
			outs, ok := v.run(st, q.f(d), q.n, []Val{sym.Ptr{O: o, Off: v.X.Int(0)}}, tg("C06", "C17"), tg("C16"))
			if !ok {
				v.fail(tg("C06", "C17"), q.n, "executes", v.runErr)
				return
			}
			for _, r := range outs {
				v.record(tg("C06"), q.n, fmt.Sprintf("ensures result == %d", q.want), r.St.PC, c.Eq(r.Ret[0].(N), v.X.Int(q.want)))
			}
		})
	}
}

// CheckOneShot: the package function Sum, for messages of length res mod 64.
func (v *VC) CheckOneShot(res int) {
	tags := tg("C01", "C02", "C04", "C17", "C18")
	v.guard(tags, "Sum", func() {
		f := v.M.Func(v.pkg(), "Sum")
		if f == nil {
			sym.Unsup("function Sum is not there")
		}
		if v.onC() {
			v.digest() // for the contracts of the C functions
		}
		x, c := v.X, v.X.C
		st := v.M.NewState()
		l := c.Concat(c.Var(x.IW-6, "data.q"), c.Const(6, uint64(res)))
		cp := c.Var(x.IW, "data.cap")
		o := x.NewFA(st, "data", sym.Input, 8, cp)
		st.Assume(c.Ule(l, cp))
		st.Assume(c.Ule(cp, v.maxLen()))
		if v.onC() {
			o.Len = l
		}
		p := sym.Slice{O: o, Off: x.Int(0), Len: l, Cap: cp, Stride: 1}
		// what the specification says, through the same contracts
		_, w := v.callSpec(st.Fork(), "New")
		a0 := w[0].(sym.Agg)
		x.Abs.RegisterTuple(w5(a0[aH : aH+5]))
		buf, full, _ := v.stream(st, a0, p)
		buf.Len = full
		h, fl := x.Abs.Absorb(w5(a0[aH:aH+5]), buf)
		a1 := append(sym.Agg(nil), a0...)
		for i := range h {
			a1[aH+i] = h[i]
		}
		for i := 0; i < res; i++ {
			a1[aX+i] = x.Sel(buf.FA, c.Add(buf.Off, c.Add(full, x.Int(int64(i)))))
		}
		a1[aNX] = x.Int(int64(res))
		a1[aLen] = c.ZExt(l, 64)
		a1[aCol] = fl
		want, wcol := v.finish(st, a1)
		outs, ok := v.run(st, f, "Sum", []Val{p}, tags, tg("C16"))
		if !ok {
			v.fail(tags, "Sum", "executes", v.runErr)
			return
		}
		for _, r := range outs {
			var out []N
			switch q := r.Ret[0].(type) {
			case sym.Agg:
				out = words(q)
			case sym.Slice:
				if q.O == nil || !q.Len.IsConst() || q.Len.K != 20 {
					v.refute(tags, "Sum", "ensures len(result) == 20", "")
					continue
				}
				if q.O.Kind != sym.Local {
					v.refute(tg("C16"), "Sum", "returns fresh memory", q.O.Name)
				}
				out = words(x.Load(r.St, sym.Ptr{O: q.O, Off: q.Off}, 20))
			default:
				sym.Unsup("result of Sum")
			}
			goal := c.True()
			for k := range out {
				goal = c.And(goal, c.Eq(out[k], want[k]))
			}
			v.record(tg("C01", "C02", "C18"), "Sum", fmt.Sprintf("ensures digest == SHA1DC(data) (len mod 64 = %d)", res), r.St.PC, goal)
			v.record(tg("C04"), "Sum", fmt.Sprintf("ensures verdict == some block flagged (len mod 64 = %d)", res), r.St.PC, c.Eq(r.Ret[1].(N), wcol))
		}
	})
}
