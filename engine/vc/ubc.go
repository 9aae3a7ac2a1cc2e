package vc

import (
	"fmt"
	"go/types"

	"verif/engine/gosym"
	"verif/engine/sym"
)

// CheckMask: the contract of ubc.CalculateDvMask as a public function.
func (v *VC) CheckMask() {
	pkg, fn := gosym.Module+"/ubc", "CalculateDvMask"
	all := tg("C10", "C17", "C16")
	v.guard(all, fn, func() {
		f := v.M.Func(pkg, fn)
		if f == nil || sigString(f) != "func(*[80]uint32) uint32" {
			sym.Unsup("ubc.CalculateDvMask func(*[80]uint32) uint32 is not there")
		}
		v.Contracted["ubc.CalculateDvMask"] = true
		v.checkMask(f, tg("C10"))
		c := v.X.C
		st := v.M.NewState()
		v.pending["Mask"] = true
		defer delete(v.pending, "Mask")
		outs, ok := v.run(st, f, "ubc."+fn, []Val{sym.Ptr{}}, tg("C10", "C17"), tg("C16"))
		if !ok {
			v.fail(all, fn, "executes on nil", v.runErr)
			return
		}
		for _, r := range outs {
			v.record(tg("C10"), "ubc."+fn, "ensures W == nil ==> result == 0", r.St.PC, c.Eq(r.Ret[0].(N), c.Const(32, 0)))
		}
	})
}

// CheckDVs: the disturbance vectors and their message differences.
func (v *VC) CheckDVs() {
	pkg, fn := gosym.Module+"/ubc", "SHA1_dvs"
	all := tg("C11")
	v.guard(all, fn, func() {
		f := v.M.Func(pkg, fn)
		if f == nil || len(f.Params) != 0 {
			sym.Unsup("ubc.SHA1_dvs is not there")
		}
		sl, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			sym.Unsup("SHA1_dvs does not return a slice")
		}
		stT, ok := sl.Elem().Underlying().(*types.Struct)
		if !ok {
			sym.Unsup("SHA1_dvs does not return a slice of structs")
		}
		off := map[string]int{}
		for i := 0; i < stT.NumFields(); i++ {
			off[stT.Field(i).Name()] = v.M.FieldOff(sl.Elem(), i)
		}
		for _, n := range []string{"DvType", "DvK", "DvB", "TestT", "MaskI", "MaskB", "Dm"} {
			if _, ok := off[n]; !ok {
				sym.Unsup("no field %s in the table", n)
			}
		}
		n := v.M.Leaves(sl.Elem())
		outs, ok := v.run(v.M.NewState(), f, "ubc."+fn, nil, tg("C11", "C17"), tg("C11", "C16"))
		if !ok {
			v.fail(all, fn, "executes", v.runErr)
			return
		}
		for _, r := range outs {
			s := r.Ret[0].(sym.Slice)
			if s.O == nil || !s.Len.IsConst() {
				sym.Unsup("the table has no constant size")
			}
			if s.Len.K != 33 {
				v.refute(all, "ubc."+fn, "ensures 32 entries and a terminator", fmt.Sprintf("%d entries", s.Len.K))
				return
			}
			v.pass(all, "ubc."+fn, "ensures 32 entries and a terminator", "normalisation")
			cells := words(v.X.Load(r.St, sym.Ptr{O: s.O, Off: s.Off}, 33*n))
			v.dvTable(all, "ubc.sha1_dvs", r.St, func(i int, f string, k int) N {
				return cells[i*n+off[f]+k]
			})
		}
	})
}

// dvTable compares a table with the specification, entry by entry.
func (v *VC) dvTable(tags []string, fn string, st *State, at func(i int, f string, k int) N) {
	c := v.X.C
	_, w := v.callSpec(v.M.NewState(), "DVs")
	dvs := w[0].(sym.Agg) // 32 * (Type, K, B, TestT, Bit)
	dmf := v.M.Func(gosym.SpecPath, "DV.Dm")
	eq := func(a, b N) N {
		if a.W < b.W {
			a = c.ZExt(a, b.W)
		} else if b.W < a.W {
			b = c.ZExt(b, a.W)
		}
		return c.Eq(a, b)
	}
	for i := 0; i < 32; i++ {
		e := words(dvs[5*i : 5*i+5])
		goal := c.And(eq(at(i, "DvType", 0), e[0]), eq(at(i, "DvK", 0), e[1]))
		goal = c.And(goal, eq(at(i, "DvB", 0), e[2]))
		v.record(tags, fn, fmt.Sprintf("entry %d is the published vector", i), st.PC, goal)
		v.record(tags, fn, fmt.Sprintf("entry %d has the published test step", i), st.PC, eq(at(i, "TestT", 0), e[3]))
		v.record(tags, fn, fmt.Sprintf("entry %d is bit %d of the mask", i, i), st.PC, c.And(eq(at(i, "MaskI", 0), c.Const(32, 0)), eq(at(i, "MaskB", 0), e[4])))
		outs := v.M.Call(v.M.NewState(), dmf, nil, []Val{dvs[5*i : 5*i+5]})
		if len(outs) != 1 {
			sym.Unsup("specification function Dm has %d outcomes", len(outs))
		}
		dm := words(outs[0].Ret[0].(sym.Agg))
		goal = c.True()
		for k := 0; k < 80; k++ {
			goal = c.And(goal, eq(at(i, "Dm", k), dm[k]))
		}
		v.record(tags, fn, fmt.Sprintf("entry %d has the message difference of its vector", i), st.PC, goal)
	}
	goal := c.True()
	for _, f := range []string{"DvType", "DvK", "DvB", "TestT", "MaskI", "MaskB"} {
		goal = c.And(goal, eq(at(32, f, 0), c.Const(32, 0)))
	}
	for k := 0; k < 80; k++ {
		goal = c.And(goal, eq(at(32, "Dm", k), c.Const(32, 0)))
	}
	v.record(tags, fn, "the last entry is empty", st.PC, goal)
}
