package vc

import (
	"fmt"

	"verif/engine/sym"
	"verif/engine/term"
)

// savedBytes runs MarshalBinary on a digest and returns, per outcome, the
// bytes of the result.
func (v *VC) savedBytes(st *State, d *digestInfo, o *sym.Obj, tags []string, at string) (outs []sym.Outcome, bytes [][]N, ok bool) {
	x := v.X
	fn := "(*digest).MarshalBinary"
	if d.Marshal == nil {
		sym.Unsup("MarshalBinary is not there")
	}
	outs, ok = v.run(st, d.Marshal, fn, []Val{sym.Ptr{O: o, Off: x.Int(0)}}, tg("C17", "C08"), tg("C16", "C08"))
	if !ok {
		v.fail(tags, fn, "executes", v.runErr)
		return nil, nil, false
	}
	for _, r := range outs {
		e, known := isNilErr(r.Ret[1])
		s, isS := r.Ret[0].(sym.Slice)
		if !known || !isS {
			sym.Unsup("results of MarshalBinary")
		}
		v.record(tg("C08"), fn, "ensures err == nil"+at, r.St.PC, x.C.Bool(e))
		if s.O == nil || !s.Len.IsConst() {
			sym.Unsup("the saved state has no constant size")
		}
		if s.O == o {
			v.refute(tg("C08", "C16"), fn, "result does not alias the hasher"+at, "")
		}
		bytes = append(bytes, words(x.Load(r.St, sym.Ptr{O: s.O, Off: s.Off}, int(s.Len.K))))
	}
	return outs, bytes, true
}

// CheckMarshal: saving and restoring a state with nx pending bytes.
func (v *VC) CheckMarshal(nx int) {
	all := tg("C08", "C05", "C07", "C18")
	v.guard(all, "(*digest).MarshalBinary", func() {
		d, err := v.digest()
		if err != nil {
			sym.Unsup("%v", err)
		}
		x, c := v.X, v.X.C
		at := fmt.Sprintf(" (nx=%d)", nx)
		st := v.M.NewState()
		o := v.mkDigest(st, d, "d", nx)
		a0 := v.abs(st, d, o)
		outs, bytes, ok := v.savedBytes(st, d, o, all, at)
		if !ok {
			return
		}
		fn := "(*digest).MarshalBinary"
		// the saved state is a function of the abstract state
		hidden := map[N]N{}
		for i := nx; i < 64; i++ {
			hidden[a0[aX+i].(N)] = c.Var(8, fmt.Sprintf("other.x%d", i))
		}
		for _, i := range d.extra {
			if n, ok := st.Heap[o].Cells[i].(N); ok && n.Op == term.Var {
				hidden[n] = c.Var(n.W, fmt.Sprintf("other.%d", i))
			}
		}
		for k, r := range outs {
			v.unchanged(tg("C08"), fn, at, r.St, d, o, a0, nx)
			v.extraFrame(r.St, d, o, fn)
			goal := c.True()
			sub := c.Subst(hidden, bytes[k]...)
			for i := range sub {
				goal = c.And(goal, c.Eq(sub[i], bytes[k][i]))
			}
			v.record(tg("C05", "C07", "C08"), fn, "ensures result depends on the message so far only"+at, r.St.PC, goal)
			// restore into any hasher
			st2 := r.St.Fork()
			o2 := v.mkDigest(st2, d, "e", 0)
			st2.SetCells(o2, v.M.Fresh(d.T, "e"))
			ob := x.NewObj("saved", sym.Input, len(bytes[k]))
			st2.SetCells(ob, vals(bytes[k]))
			n := x.Int(int64(len(bytes[k])))
			ufn := "(*digest).UnmarshalBinary"
			if d.Unmarshal == nil {
				sym.Unsup("UnmarshalBinary is not there")
			}
			outs2, ok := v.run(st2, d.Unmarshal, ufn, []Val{sym.Ptr{O: o2, Off: x.Int(0)}, sym.Slice{O: ob, Off: x.Int(0), Len: n, Cap: n, Stride: 1}}, tg("C17", "C08", "C09"), tg("C16", "C08"))
			if !ok {
				v.fail(all, ufn, "executes", v.runErr)
				return
			}
			for _, r2 := range outs2 {
				e, known := isNilErr(r2.Ret[0])
				if !known {
					sym.Unsup("result of UnmarshalBinary")
				}
				v.record(tg("C08"), ufn, "ensures err == nil for a saved state"+at, r2.St.PC, c.Bool(e))
				if !e {
					continue
				}
				a1 := v.abs(r2.St, d, o2)
				parts := map[string]N{"H": c.True(), "X[:NX]": c.True(), "Len": c.True(), "Col": c.True()}
				for i := range a0 {
					q := c.Eq(a0[i].(N), a1[i].(N))
					switch {
					case i < aX:
						parts["H"] = c.And(parts["H"], q)
					case i < aX+nx:
						parts["X[:NX]"] = c.And(parts["X[:NX]"], q)
					case i == aLen:
						parts["Len"] = q
					case i == aCol:
						parts["Col"] = q
					}
				}
				for _, p := range []string{"H", "X[:NX]", "Len", "Col"} {
					t := tg("C08")
					if p == "Len" {
						t = tg("C08", "C18")
					}
					if p == "Col" {
						t = tg("C08", "C04")
					}
					v.record(t, ufn, fmt.Sprintf("ensures %s == that of the saved hasher%s", p, at), r2.St.PC, parts[p])
				}
				if d.nx >= 0 {
					got := r2.St.Heap[o2].Cells[d.nx].(N)
					v.record(tg("C08", "C09", "C17"), ufn, "ensures NX == Len mod 64"+at, r2.St.PC, c.Eq(got, c.Const(got.W, uint64(nx))))
				}
				v.extraFrame(r2.St, d, o2, ufn)
			}
		}
	})
}

// CheckUnmarshal: any byte string at all.
func (v *VC) CheckUnmarshal() {
	all := tg("C09", "C17", "C16")
	fn := "(*digest).UnmarshalBinary"
	v.guard(all, fn, func() {
		d, err := v.digest()
		if err != nil {
			sym.Unsup("%v", err)
		}
		x, c := v.X, v.X.C
		// the identifiers and the size are those of the saved states
		st := v.M.NewState()
		o := v.mkDigest(st, d, "d", 0)
		nres := len(v.Res)
		outs, bytes, ok := v.savedBytes(st, d, o, all, "")
		v.Res = v.Res[:nres]
		if !ok {
			v.fail(all, fn, "obligations can be generated", "MarshalBinary")
			return
		}
		type id struct{ b []uint64 }
		var ids []id
		size := len(bytes[0])
		for k := range outs {
			if len(bytes[k]) != size {
				sym.Unsup("saved states of different sizes")
			}
			for _, col := range []uint64{0, 1} {
				m := map[N]N{c.Var(1, "d.col"): c.Const(1, col)}
				all := append(append([]N{}, outs[k].St.PC...), bytes[k][:6]...)
				all = c.Subst(m, all...)
				feas := true
				for _, p := range all[:len(outs[k].St.PC)] {
					if p.IsFalse() {
						feas = false
					}
				}
				if !feas {
					continue
				}
				var b []uint64
				for _, n := range all[len(outs[k].St.PC):] {
					if !n.IsConst() {
						sym.Unsup("the identifier of a saved state is not constant")
					}
					b = append(b, n.K)
				}
				dup := false
				for _, q := range ids {
					if fmt.Sprint(q.b) == fmt.Sprint(b) {
						dup = true
					}
				}
				if !dup {
					ids = append(ids, id{b})
				}
			}
		}
		if len(ids) == 0 {
			sym.Unsup("no identifier")
		}
		st = v.M.NewState()
		o = v.mkDigest(st, d, "e", 0)
		cells := v.M.Fresh(d.T, "e")
		st.SetCells(o, cells)
		before := append([]Val(nil), st.Heap[o].Cells...)
		b, _, fa := v.slice(st, "b", sym.Input)
		good := c.False()
		for _, q := range ids {
			g := c.True()
			for i, k := range q.b {
				g = c.And(g, c.Eq(x.Sel(fa, x.Int(int64(i))), c.Const(8, k)))
			}
			good = c.Or(good, g)
		}
		good = c.And(good, c.Eq(b.Len, x.Int(int64(size))))
		outs, ok = v.run(st, d.Unmarshal, fn, []Val{sym.Ptr{O: o, Off: x.Int(0)}, b}, tg("C17", "C09"), tg("C16"))
		if !ok {
			v.fail(all, fn, "executes", v.runErr)
			return
		}
		acc, rej := false, false
		for _, r := range outs {
			e, known := isNilErr(r.Ret[0])
			if !known {
				sym.Unsup("result of UnmarshalBinary")
			}
			if e {
				acc = true
				v.record(tg("C09"), fn, fmt.Sprintf("err == nil ==> len(b) == %d and b starts with an identifier of a saved state", size), r.St.PC, good)
				a := v.abs(r.St, d, o)
				if d.nx >= 0 {
					got := r.St.Heap[o].Cells[d.nx].(N)
					v.record(tg("C09", "C17"), fn, "err == nil ==> NX == Len mod 64 (invariant)", r.St.PC, c.Eq(got, c.ZExt(c.Extract(a[aLen].(N), 0, 6), got.W)))
				}
			} else {
				rej = true
				v.record(tg("C09"), fn, "err != nil ==> b is malformed", r.St.PC, c.Not(good))
				goal := c.True()
				for i, q := range r.St.Heap[o].Cells {
					p, isN := q.(N)
					w, isM := before[i].(N)
					if isN && isM {
						goal = c.And(goal, c.Eq(p, w))
					} else if !sym.Same(q, before[i]) {
						goal = c.False()
					}
				}
				v.record(tg("C09"), fn, "err != nil ==> the hasher is unchanged", r.St.PC, goal)
			}
			v.extraFrame(r.St, d, o, fn)
		}
		if !acc || !rej {
			v.refute(tg("C09"), fn, "both outcomes are possible", fmt.Sprintf("accepts %v, rejects %v", acc, rej))
		}
	})
	// nil input
	v.guard(all, fn, func() {
		d, err := v.digest()
		if err != nil {
			sym.Unsup("%v", err)
		}
		st := v.M.NewState()
		o := v.mkDigest(st, d, "e", 0)
		outs, ok := v.run(st, d.Unmarshal, fn, []Val{sym.Ptr{O: o, Off: v.X.Int(0)}, v.nilSlice()}, tg("C17", "C09"), tg("C16"))
		if !ok {
			v.fail(all, fn, "executes", v.runErr)
			return
		}
		for _, r := range outs {
			e, _ := isNilErr(r.Ret[0])
			v.record(tg("C09"), fn, "nil is rejected", r.St.PC, v.X.C.Bool(!e))
		}
	})
}
