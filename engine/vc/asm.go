package vc

import (
	"errors"
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/asm"
	"verif/engine/gosym"
	"verif/engine/sym"
)

const asmSig = "func([]uint32, []byte, []uint32, [][5]uint32)"

// asmFuncs are the functions of the module without a body.
func (v *VC) asmFuncs() []*ssa.Function {
	var out []*ssa.Function
	for path, p := range v.M.Pkgs {
		if path != gosym.Module {
			continue
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && f.Blocks == nil && f.Synthetic == "" {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (v *VC) image() *asm.Image {
	if v.img == nil && v.imgErr == nil {
		var roots []string
		for _, f := range v.asmFuncs() {
			roots = append(roots, gosym.Module+"."+f.Name())
		}
		v.img, v.imgErr = asm.Build(v.M.Repo, v.M.Cfg.GOARCH, v.M.Cfg.Env(v.Cache), roots)
	}
	if v.imgErr != nil {
		sym.Unsup("machine code: %v", v.imgErr)
	}
	return v.img
}

// CheckAsm discharges the contract of the assembly block functions on their
// machine code.
func (v *VC) CheckAsm() {
	prop := map[string]string{"amd64": "C12", "arm64": "C13"}[v.M.Cfg.GOARCH]
	fs := v.asmFuncs()
	if len(fs) == 0 {
		v.Notes = append(v.Notes, "there is no assembly function in this build")
	}
	for _, f := range fs {
		if s := sigString(f); s != asmSig {
			v.fail(tg(prop, "C17"), f.Name(), "the function is under contract", "assembly function "+f.Name()+" "+s+" has no contract")
			continue
		}
		for _, res := range []int64{0, 8} {
			if v.M.Cfg.GOARCH == "arm64" && res == 8 {
				continue // the stack pointer is 16-byte aligned
			}
			v.asmBlock(f, prop, res)
		}
	}
}

func (v *VC) asmBlock(f *ssa.Function, prop string, spRes int64) {
	fn := f.Name()
	tags := tg(prop)
	at := ""
	if v.M.Cfg.GOARCH == "amd64" {
		at = fmt.Sprintf(" (SP mod 16 = %d)", spRes)
	}
	v.guard(tg(prop, "C17"), fn, func() {
		x, c := v.X, v.X.C
		im := v.image()
		m := asm.New(im, c, "", spRes)
		hw, pb, mw, cw := make([]N, 5), make([]N, 64), make([]N, 80), make([]N, 15)
		ws := func(ns []N, name string) []N {
			var bs []N
			for i := range ns {
				ns[i] = c.Var(32, fmt.Sprintf("%s[%d]", name, i))
				for k := 0; k < 4; k++ {
					bs = append(bs, c.Extract(ns[i], 8*k, 8))
				}
			}
			return bs
		}
		for i := range pb {
			pb[i] = c.Var(8, fmt.Sprintf("p[%d]", i))
		}
		rh := m.NewRegion("h", ws(hw, "h"), false, 4)
		rp := m.NewRegion("p", pb, true, 1)
		rm := m.NewRegion("m1", ws(mw, "m1"), false, 4)
		rc := m.NewRegion("cs", ws(cw, "cs"), false, 4)
		var args []asm.V
		for _, q := range []struct {
			r *asm.Region
			n uint64
		}{{rh, 5}, {rp, 64}, {rm, 80}, {rc, 3}} {
			args = append(args, asm.V{R: q.r}, asm.V{N: c.Const(64, q.n)}, asm.V{N: c.Var(64, q.r.Name+".cap")})
		}
		var bad error
		func() {
			defer func() {
				if e := recover(); e != nil {
					if fe, ok := e.(asm.Fault); ok {
						bad = fe
						return
					}
					panic(e)
				}
			}()
			m.Run(gosym.Module+"."+fn, args)
		}()
		var fe asm.Fault
		if errors.As(bad, &fe) {
			v.refute(tg(prop, "C17", "C16"), fn, "accesses only h, p (reading), m1, cs and its frame, and returns properly"+at, fe.Msg)
			return
		}
		v.Contracted[fn+" (machine code)"] = true
		v.pass(tg(prop, "C17", "C16"), fn, fmt.Sprintf("accesses only h, p (reading), m1, cs and its frame, and returns properly: %d instructions, %s%s", m.Steps, m.AccessText(), at), "machine-code execution")
		st := v.M.NewState()
		ob := x.NewObj("blk", sym.Local, 64)
		st.SetCells(ob, vals(pb))
		_, w := v.callSpec(st.Fork(), "Expand", sym.Ptr{O: ob, Off: x.Int(0)})
		ww := words(w[0].(sym.Agg))
		ow := x.NewObj("w", sym.Local, 80)
		st.SetCells(ow, vals(ww))
		wp := sym.Ptr{O: ow, Off: x.Int(0)}
		h0 := sym.Agg(vals(hw))
		_, nh := v.callSpec(st.Fork(), "Compress", h0, wp)
		_, s56 := v.callSpec(st.Fork(), "Rounds", h0, wp, x.Int(0), x.Int(56))
		_, s64 := v.callSpec(st.Fork(), "Rounds", s56[0], wp, x.Int(56), x.Int(64))
		read := func(r *asm.Region) []N {
			b := m.Bytes(r)
			var out []N
			for i := 0; i < len(b); i += 4 {
				out = append(out, c.Concat(b[i+3], b[i+2], b[i+1], b[i]))
			}
			return out
		}
		eq := func(got []N, want []N) N {
			g := c.True()
			for i := range got {
				g = c.And(g, c.Eq(got[i], want[i]))
			}
			return g
		}
		gc := read(rc)
		v.record(tags, fn, "ensures m1 == Expand(p)"+at, nil, eq(read(rm), ww))
		v.record(tags, fn, "ensures h == Compress(old(h), Expand(p))"+at, nil, eq(read(rh), words(nh[0].(sym.Agg))))
		v.record(tags, fn, "ensures cs[0] == old(h)"+at, nil, eq(gc[0:5], hw))
		v.record(tags, fn, "ensures cs[1] == state before step 56"+at, nil, eq(gc[5:10], words(s56[0].(sym.Agg))))
		v.record(tags, fn, "ensures cs[2] == state before step 64"+at, nil, eq(gc[10:15], words(s64[0].(sym.Agg))))
	})
}

// asmFeatures are the CPU features the machine code of f needs, by the names
// of the cpuid package.
func (v *VC) asmFeatures(f *ssa.Function) []string {
	m := map[string]bool{}
	for _, i := range v.image().Insts(gosym.Module + "." + f.Name()) {
		fs := asm.X86Features(i.Op)
		if v.M.Cfg.GOARCH == "arm64" {
			fs = asm.ARMFeatures(i.Op)
		}
		for _, q := range fs {
			m[q] = true
		}
	}
	return sortedKeys(m)
}

// implied: reporting one of these features implies the feature.
var implied = map[string][]string{
	"SSE3":  {"SSSE3", "SSE4", "SSE42"},
	"SSSE3": {"SSE4", "SSE42"},
	"SSE4":  {"SSE42"},
	"AVX":   {"AVX2"},
}

// reported is the condition that the cpuid package reports a feature.
func (v *VC) reported(st *State, feature string) N {
	const path = "github.com/klauspost/cpuid/v2"
	p := v.M.Pkgs[path]
	if p == nil {
		return v.X.C.False()
	}
	k := p.Const(feature)
	f := v.M.Func(path, "(*CPUInfo).Has")
	o := v.M.GlobalObj(st, path, "CPU")
	if k == nil || f == nil || o == nil {
		sym.Unsup("cpuid does not know %s", feature)
	}
	n, _ := constant.Int64Val(k.Value.Value)
	outs := v.M.Call(st.Fork(), f, nil, []Val{sym.Ptr{O: o, Off: v.X.Int(0)}, v.X.C.Const(v.M.IntWidth(k.Type()), uint64(n))})
	if len(outs) != 1 {
		sym.Unsup("cpuid: %d outcomes", len(outs))
	}
	return outs[0].Ret[0].(N)
}

// dispatch: the obligations of C14 at a call of an assembly function.
func (v *VC) dispatch(st *State, f *ssa.Function) {
	if v.Only != "C14" {
		return
	}
	c := v.X.C
	if o := v.M.GlobalObj(st, gosym.Module, "forceGeneric"); o != nil {
		v.X.Require(st, "dispatch", f.Name()+" is not entered when the portable path is forced", c.Not(c.Var(1, "forceGeneric")))
	}
	for _, q := range v.asmFeatures(f) {
		cond := v.reported(st, q)
		for _, r := range implied[q] {
			cond = c.Or(cond, v.reported(st, r))
		}
		v.X.Require(st, "dispatch", fmt.Sprintf("%s is entered only if the CPU reports %s%s", f.Name(), q, strings.Join(append([]string{""}, implied[q]...), " or ")), cond)
	}
}
