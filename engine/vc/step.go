package vc

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/gosym"
	"verif/engine/sym"
	"verif/engine/term"
)

// CheckStep: the step function found in the loops over message blocks is the
// specification's. The loops are those of the fold contracts (block,
// blockGeneric); absorb and flagged in every other contract are the fold of
// this step.
func (v *VC) CheckStep() {
	x, c := v.X, v.X.C
	v.guard(tg("C01", "C02", "C03", "C04"), "block step", func() {
		// find the step functions: whatever New's hasher uses to absorb
		d, err := v.digest()
		if err != nil {
			sym.Unsup("%v", err)
		}
		st := v.M.NewState()
		o := v.mkDigest(st, d, "d", 0)
		p, _, _ := v.slice(st, "p", sym.Input)
		v.X.Nested(func() { v.M.Call(st, d.Write, nil, []Val{sym.Ptr{O: o, Off: x.Int(0)}, p}) })
		if len(x.Variants) == 0 {
			sym.Unsup("no loop over message blocks was recognised in Write")
		}
		for i, r := range x.Variants {
			fn := fmt.Sprintf("step of the loop in %s (%s)", r.Func, r.Pos)
			if len(x.Variants) > 1 {
				fn = fmt.Sprintf("step %d: %s", i, fn)
			}
			var h [5]N
			for k := range h {
				h[k] = c.Var(32, fmt.Sprintf("R.h%d", k))
			}
			st := v.M.NewState()
			ob := x.NewObj("blk", sym.Local, 64)
			cells := make([]Val, 64)
			for k := range cells {
				cells[k] = c.Var(8, fmt.Sprintf("R.b%d", k))
			}
			st.SetCells(ob, cells)
			hs := sym.Agg(vals(h[:]))
			_, w := v.callSpec(st.Fork(), "Expand", sym.Ptr{O: ob, Off: x.Int(0)})
			ow := x.NewObj("w", sym.Local, 80)
			st.SetCells(ow, []Val(w[0].(sym.Agg)))
			wp := sym.Ptr{O: ow, Off: x.Int(0)}
			_, h1 := v.callSpec(st.Fork(), "Compress", hs, wp)
			_, h2 := v.callSpec(st.Fork(), "Compress", h1[0], wp)
			_, h3 := v.callSpec(st.Fork(), "Compress", h2[0], wp)
			_, s58 := v.callSpec(st.Fork(), "Rounds", hs, wp, x.Int(0), x.Int(58))
			_, s65 := v.callSpec(st.Fork(), "Rounds", s58[0], wp, x.Int(58), x.Int(65))
			eq := func(w Val) N {
				g := c.True()
				for k, q := range w5([]Val(w.(sym.Agg))) {
					g = c.And(g, c.Eq(r.Out[k], q))
				}
				return g
			}
			pc := append([]N{}, r.PC...)
			v.record(tg("C01", "C02"), fn, "not flagged ==> h == Compress(old(h), Expand(block))", append(pc, c.Not(r.Flag)), eq(h1[0]))
			v.record(tg("C02"), fn, "flagged ==> h == Compress^3(old(h), Expand(block))", append(pc, r.Flag), eq(h3[0]))
			_, det := v.callSpec(st.Fork(), "Detect", wp, s58[0], s65[0], h1[0])
			if x.Debug {
				at := func(r N) map[N]bool {
					m := map[N]bool{}
					for _, n := range term.Topo(r) {
						if n.Op == term.Eq {
							m[n] = true
						}
					}
					return m
				}
				A, B := at(r.Flag), at(det[0].(N))
				sh := 0
				for n := range A {
					if B[n] {
						sh++
					}
				}
				x.Logf("atoms code %d spec %d shared %d, nodes %d %d", len(A), len(B), sh, len(term.Topo(r.Flag)), len(term.Topo(det[0].(N))))
				k := 0
				for _, n := range term.Topo(r.Flag) {
					if n.Op == term.Eq && !B[n] && k < 12 {
						k++
						x.Logf("code only %.300s", n)
					}
				}
				k = 0
				for _, n := range term.Topo(det[0].(N)) {
					if n.Op == term.Eq && !A[n] && k < 12 {
						k++
						x.Logf("spec only %.300s", n)
					}
				}
			}
			v.record(tg("C03"), fn, "flagged == Detect(Expand(block), states before steps 58 and 65, Compress(old(h)))", pc, c.Eq(r.Flag, det[0].(N)))
			// not vacuous: both outcomes are there
			for _, f := range []N{r.Flag, c.Not(r.Flag)} {
				if f.IsFalse() {
					v.refute(tg("C03"), fn, "the verdict depends on the block", "constant verdict")
				}
			}
		}
	})
}

// CheckVariants: the ways a build has of absorbing blocks (assembly, portable)
// agree with each other.
func (v *VC) CheckVariants() {
	x, c := v.X, v.X.C
	prop := map[string]string{"amd64": "C12", "arm64": "C13"}[v.M.Cfg.GOARCH]
	tags := tg(prop, "C14")
	v.foldGiven, v.fold = map[string]bool{}, map[*ssa.Function]*foldC{}
	v.Base()
	v.lost(tags)
	var good []string
	for f, fc := range v.fold {
		if fc != nil && fc.ok {
			good = append(good, f.Name())
		}
	}
	sort.Strings(good)
	for i, r := range x.Variants {
		for _, q := range x.Variants[:i] {
			fn := fmt.Sprintf("step of the loop in %s (%s) against that in %s (%s)", r.Func, r.Pos, q.Func, q.Pos)
			pc := append(append([]N{}, r.PC...), q.PC...)
			goal := c.True()
			for k := range r.Out {
				goal = c.And(goal, c.Eq(r.Out[k], q.Out[k]))
			}
			v.record(tags, fn, "same verdict", pc, c.Eq(r.Flag, q.Flag))
			v.record(tags, fn, "same chaining value", pc, goal)
		}
	}
	if len(x.Variants) == 1 {
		v.pass(tags, "block step", "all loops over message blocks have the same step function ("+strings.Join(good, ", ")+")", "normalisation")
	}
	if len(x.Variants) == 0 {
		v.fail(tags, "block step", "a loop over message blocks is recognised", strings.Join(v.Notes, "; "))
	}
}

// lost: an assembly function that the public methods reach only through
// functions whose contract (absorbs blocks) failed.
func (v *VC) lost(tags []string) {
	d, err := v.digest()
	if err != nil {
		return
	}
	holds := func(f *ssa.Function) bool { fc := v.fold[f]; return fc != nil && fc.ok }
	memo := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function) bool // an assembly function, past no good fold
	reach = func(f *ssa.Function) bool {
		if r, ok := memo[f]; ok {
			return r
		}
		memo[f] = false
		if f == nil || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), gosym.Module) || holds(f) {
			return false
		}
		r := f.Blocks == nil && strings.HasPrefix(f.Name(), "block")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if q, ok := (*o).(*ssa.Function); ok && reach(q) {
						r = true
					}
				}
			}
		}
		memo[f] = r
		return r
	}
	good := ""
	for f, fc := range v.fold {
		if fc != nil && fc.ok && (good == "" || f.Name() < good) {
			good = f.Name()
		}
	}
	if good == "" {
		return
	}
	for _, f := range []*ssa.Function{d.Write, d.Sum, d.CRSum} {
		reach(f)
	}
	var bad []string
	for f, r := range memo {
		if fc := v.fold[f]; r && fc != nil && !fc.ok {
			bad = append(bad, f.Name())
		}
	}
	sort.Strings(bad)
	for _, b := range bad {
		v.fail(tags, b, "absorbs blocks as "+good+" does", strings.Join(v.Notes, "; "))
	}
}
