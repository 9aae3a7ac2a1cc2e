package gosym

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

func inModule(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), Module)
}

// goFn implements sym.Fn.
type goFn struct {
	m    *M
	f    *ssa.Function
	live []map[ssa.Value]bool // live at block entry (phis excluded from their own block)
}

type fnKey struct {
	m *M
	f *ssa.Function
}

var fnCache = map[fnKey]*goFn{}

func (m *M) fn(f *ssa.Function) *goFn {
	k := fnKey{m, f}
	if g := fnCache[k]; g != nil {
		return g
	}
	if f.Blocks == nil && f.Pkg != nil {
		f.Pkg.Build()
	}
	if f.Blocks == nil {
		sym.Unsup("call of %s, which has no Go body and no contract", f)
	}
	g := &goFn{m: m, f: f}
	g.liveness()
	fnCache[k] = g
	return g
}

func (g *goFn) Name() string   { return shortName(g.f) }
func (g *goFn) NumBlocks() int { return len(g.f.Blocks) }
func (g *goFn) Succs(b int) []int {
	var out []int
	for _, s := range g.f.Blocks[b].Succs {
		out = append(out, s.Index)
	}
	return out
}

func shortName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, Module+"/internal/", "")
	s = strings.ReplaceAll(s, Module+"/", "")
	return strings.ReplaceAll(s, Module, "sha1cd")
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		return true
	}
	return false
}

func (g *goFn) liveness() {
	n := len(g.f.Blocks)
	g.live = make([]map[ssa.Value]bool, n)
	for i := range g.live {
		g.live[i] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := g.f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range g.live[s.Index] {
					cur[v] = true
				}
				// phi operands on this edge
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if tracked(ph.Edges[pi]) {
							cur[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != nil && tracked(*op) {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(g.live[i]) {
				g.live[i] = cur
				ch = true
			}
		}
	}
}

type allocKey struct{ a *ssa.Alloc }

func (k allocKey) String() string { return "alloc:" + k.a.Name() + k.a.Comment }

func (g *goFn) Enter(x *sym.Exec, st *State, from, to int) {
	b := g.f.Blocks[to]
	idx := -1
	for i, p := range b.Preds {
		if p.Index == from {
			idx = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, g.m.val(st, ph.Edges[idx]))
	}
	for k := range st.Regs {
		if v, ok := k.(ssa.Value); ok && !g.live[to][v] {
			delete(st.Regs, k)
		}
	}
	for i, ph := range phis {
		st.Regs[ph] = vals[i]
	}
}

func (g *goFn) Run(x *sym.Exec, st *State, b int) []sym.Out {
	return g.m.runBlock(g, st, g.f.Blocks[b], 0)
}
