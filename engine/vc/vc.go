// Package vc states the contracts of sha1cd and generates and discharges the
// obligations they give rise to.
package vc

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/asm"
	"verif/engine/csym"
	"verif/engine/gosym"
	"verif/engine/prove"
	"verif/engine/sym"
	"verif/engine/term"
)

type (
	N     = sym.N
	Val   = sym.Val
	State = sym.State
)

// Res is the outcome of one obligation.
type Res struct {
	Name   string   // what is claimed
	Tags   []string // properties that rest on it
	Fn     string   // function whose contract it belongs to
	Config string
	Status string            // proved, refuted, undecided, assumed
	By     string            // back end
	Detail string            `json:",omitempty"`
	Model  map[string]uint64 `json:",omitempty"`
	Ms     int64
	Shared bool `json:",omitempty"` // a write to a variable that all calls share
}

type VC struct {
	M     *gosym.M
	X     *sym.Exec
	Res   []Res
	Notes []string
	// functions under contract, and functions executed in full
	Contracted map[string]bool
	Assumed    map[string]bool
	force      map[string]int  // contract name -> how it is used
	foldGiven  map[string]bool // fold contracts decided elsewhere
	weak       bool
	runErr     string
	NoWeak     bool
	depth      int    // verifying an internal contract
	Only       string // the property of interest
	alias      map[string]bool
	Failed     []Res // failed obligations of contracts not in force
	pending    map[string]bool
	off        map[string]bool // contracts switched off (testing)
	opaque     map[string]bool
	fold       map[*ssa.Function]*foldC
	D          *digestInfo
	Cache      string // of go commands on the module
	img        *asm.Image
	imgErr     error
	target     string // package under contract
	cmod       *csym.M
	cstep      map[string]*stepC
	cfail      map[string]int
}

func New(p *gosym.Prog, seed uint64) (*VC, error) {
	m := gosym.NewM(p, seed)
	v := &VC{M: m, X: m.X, Contracted: map[string]bool{}, Assumed: map[string]bool{}, force: map[string]int{}, foldGiven: map[string]bool{}, pending: map[string]bool{}, off: map[string]bool{}, opaque: map[string]bool{}, fold: map[*ssa.Function]*foldC{}, cstep: map[string]*stepC{}}
	m.X.Config = func(n string) bool {
		return n == "forceGeneric" || strings.HasPrefix(n, "github.com/klauspost/cpuid")
	}
	m.Hook = v.hook
	if err := m.InitModule(); err != nil {
		v.Notes = append(v.Notes, "package initialisation: "+err.Error())
	}
	if o := m.GlobalObj(m.NewState(), gosym.Module, "forceGeneric"); o != nil {
		if _, ok := m.GlobalSt[o]; ok && len(m.GlobalSt[o].Cells) == 1 {
			m.GlobalSt[o] = &sym.Mem{Cells: []Val{v.X.C.Var(1, "forceGeneric")}}
		}
	}
	return v, nil
}

func (v *VC) spec(name string) *ssa.Function {
	f := v.M.Func(gosym.SpecPath, name)
	if f == nil {
		panic("no specification function " + name)
	}
	return f
}

// callSpec runs a pure specification function; it must have one outcome.
func (v *VC) callSpec(st *State, name string, args ...Val) (*State, []Val) {
	outs := v.M.Call(st, v.spec(name), nil, args)
	if len(outs) != 1 {
		sym.Unsup("specification function %s has %d outcomes", name, len(outs))
	}
	return outs[0].St, outs[0].Ret
}

func words(vs []Val) []N {
	out := make([]N, len(vs))
	for i, v := range vs {
		n, ok := v.(N)
		if !ok {
			sym.Unsup("word expected, got %T", v)
		}
		out[i] = n
	}
	return out
}

func w5(vs []Val) (h [5]N) {
	copy(h[:], words(vs))
	return
}

func vals(ns []N) []Val {
	out := make([]Val, len(ns))
	for i, n := range ns {
		out[i] = n
	}
	return out
}

// load reads n cells through a pointer value.
func (v *VC) load(st *State, p Val, n int) []N {
	q, ok := p.(sym.Ptr)
	if !ok || q.O == nil {
		sym.Unsup("contract argument is not a valid pointer")
	}
	return words(v.X.Load(st, q, n))
}

// record proves one obligation and notes the result.
func (v *VC) record(tags []string, fn, name string, pc []N, goals ...N) bool {
	tags, fn = v.own(tags), v.fnName(fn)
	if !v.wanted(tags) {
		return true
	}
	t0 := time.Now()
	s0 := v.X.P.Stats
	r := v.X.Prove(pc, goals...)
	goal := v.X.C.True()
	for _, g := range goals {
		goal = v.X.C.And(goal, g)
	}
	if d := time.Since(t0); v.X.Debug && d > 3*time.Second {
		fmt.Fprintf(os.Stderr, "SLOW %v %s %s\n%.3000s\nPC %.3000v\n", d, fn, name, goal, pc)
	}
	res := Res{Name: name, Tags: tags, Fn: fn, Config: v.M.Cfg.Name, Ms: time.Since(t0).Milliseconds()}
	switch r.Status {
	case prove.Unsat:
		res.Status = "proved"
		res.By = "normalisation"
		if v.X.P.Stats.Queries > s0.Queries {
			res.By = "z3"
		}
		if v.X.P.Stats.Fallbacks > s0.Fallbacks {
			res.By = "z3 4.8/cvc5"
		}
	case prove.Sat:
		res.Status = "refuted"
		res.Model = v.model(r, append([]N{goal}, pc...))
		res.Detail = clip(goal.String(), 600)
	default:
		res.Status = "undecided"
		res.Detail = r.Note + " " + clip(goal.String(), 600)
	}
	v.Res = append(v.Res, res)
	return r.Status == prove.Unsat
}

// wanted: the obligation belongs to the property of interest, or to a contract
// that others rest on.
func (v *VC) wanted(tags []string) bool {
	if v.depth > 0 || v.Only == "" {
		return true
	}
	for _, t := range tags {
		if t == v.Only || v.alias[t] {
			return true
		}
	}
	return false
}

// SetAlias: obligations of these properties count as well.
func (v *VC) SetAlias(ps []string) {
	v.alias = map[string]bool{}
	for _, p := range ps {
		v.alias[p] = true
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (v *VC) fail(tags []string, fn, name, detail string) {
	tags, fn = v.own(tags), v.fnName(fn)
	if !v.wanted(tags) {
		return
	}
	v.Res = append(v.Res, Res{Name: name, Tags: tags, Fn: fn, Config: v.M.Cfg.Name, Status: "undecided", Detail: detail})
}

func (v *VC) refute(tags []string, fn, name, detail string) {
	tags, fn = v.own(tags), v.fnName(fn)
	if !v.wanted(tags) {
		return
	}
	v.Res = append(v.Res, Res{Name: name, Tags: tags, Fn: fn, Config: v.M.Cfg.Name, Status: "refuted", Detail: detail})
}

func (v *VC) pass(tags []string, fn, name, by string) {
	tags, fn = v.own(tags), v.fnName(fn)
	if !v.wanted(tags) {
		return
	}
	v.Res = append(v.Res, Res{Name: name, Tags: tags, Fn: fn, Config: v.M.Cfg.Name, Status: "proved", By: by})
}

func (v *VC) model(r prove.Result, roots []N) map[string]uint64 {
	m := map[string]uint64{}
	for _, n := range term.Topo(roots...) {
		if n.Op == term.Var || n.Op == term.App && len(n.A) == 1 {
			if k, ok := r.Value(n); ok {
				name := n.Name
				if n.Op == term.App {
					i, ok := r.Value(n.A[0])
					if !ok {
						continue
					}
					name = fmt.Sprintf("%s[%d]", n.Name, i)
				}
				m[name] = k
				if len(m) > 400 {
					break
				}
			}
		}
	}
	return m
}

// safety discharges the implicit obligations of an execution (bounds, nil,
// division, explicit panics) and the frame.
func (v *VC) safety(tags []string, fn string, obs []sym.Oblig, fr []sym.FrameViolation, frameTags []string) bool {
	ok := true
	type key struct {
		name, pos string
		cond      N
	}
	seen := map[string]bool{}
	for _, o := range obs {
		k := fmt.Sprintf("%s|%s|%d", o.Name, o.Pos, o.Cond.ID)
		for _, p := range o.PC {
			k += fmt.Sprintf(",%d", p.ID)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		ts := tags
		if o.Kind == "dispatch" {
			ts = tg("C14")
		}
		if !v.record(ts, fn, fmt.Sprintf("%s [%s]", o.Name, o.Pos), o.PC, o.Cond) {
			ok = false
		}
	}
	done := map[string]bool{}
	for _, f := range fr {
		k := f.Obj.Name + f.Pos
		if done[k] {
			continue
		}
		done[k] = true
		// a write outside the frame matters when it is reachable
		if v.record(frameTags, fn, fmt.Sprintf("%s does not write %s [%s]", f.Func, f.Obj.Name, f.Pos), f.PC, v.X.C.False()) {
			continue
		}
		ok = false
		if n := len(v.Res); n > 0 && f.Obj.Kind == sym.Global {
			v.Res[n-1].Shared = true
		}
	}
	return ok
}

// ------------------------------------------------------------ digest layout

type digestInfo struct {
	Ptr                      types.Type // *digest
	T                        types.Type
	n                        int
	h, x, nx, ln, col        int // leaf offsets; -1 when absent
	nxW                      int
	names                    []string
	Write, Sum, CRSum, Reset *ssa.Function
	Marshal, Unmarshal       *ssa.Function
	Size, BlockSize          *ssa.Function
	extra                    []int
	inv                      map[int]Val // fields with a constant value in every valid state
	colW                     int
}

// digest finds the dynamic type behind New and its fields.
func (v *VC) digest() (*digestInfo, error) {
	if v.D != nil {
		return v.D, nil
	}
	f := v.M.Func(v.pkg(), "New")
	if f == nil {
		return nil, fmt.Errorf("%s.New not found", v.pkg())
	}
	var t types.Type
	_, _, err := v.X.Nested(func() {
		for _, o := range v.M.Call(v.M.NewState(), f, nil, nil) {
			if i, ok := o.Ret[0].(sym.Iface); ok && i.T != nil {
				t, _ = i.T.(types.Type)
			}
		}
	})
	if err != nil {
		return nil, err
	}
	pt, ok := t.(*types.Pointer)
	if !ok {
		return nil, fmt.Errorf("New returns %v, not a pointer to a struct", t)
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("New returns %v, not a pointer to a struct", t)
	}
	d := &digestInfo{Ptr: t, T: pt.Elem(), h: -1, x: -1, nx: -1, ln: -1, col: -1}
	meth := func(n string) *ssa.Function {
		sp := v.M.Pkgs[v.pkg()]
		if v.M.SSA.MethodSets.MethodSet(t).Lookup(sp.Pkg, n) == nil {
			return nil
		}
		return v.M.SSA.LookupMethod(t, sp.Pkg, n)
	}
	d.Write, d.Sum, d.CRSum, d.Reset = meth("Write"), meth("Sum"), meth("CollisionResistantSum"), meth("Reset")
	d.Marshal, d.Unmarshal = meth("MarshalBinary"), meth("UnmarshalBinary")
	d.Size, d.BlockSize = meth("Size"), meth("BlockSize")
	if v.onC() {
		if err := v.cdigest(t, d); err != nil {
			return nil, err
		}
		v.invariant(d)
		v.D = d
		return d, nil
	}
	off := 0
	pick := func(slot *int, want string, name string, o int) bool {
		if *slot < 0 || name == want {
			*slot = o
			return true
		}
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		n := v.M.Leaves(fl.Type())
		u := fl.Type().Underlying()
		used := false
		if a, ok := u.(*types.Array); ok {
			eb, _ := a.Elem().Underlying().(*types.Basic)
			if eb != nil && a.Len() == 5 && eb.Kind() == types.Uint32 {
				used = pick(&d.h, "h", fl.Name(), off)
			} else if eb != nil && a.Len() == 64 && eb.Kind() == types.Uint8 {
				used = pick(&d.x, "x", fl.Name(), off)
			}
		} else if b, ok := u.(*types.Basic); ok {
			switch b.Kind() {
			case types.Bool:
				used = pick(&d.col, "col", fl.Name(), off)
			case types.Uint64:
				used = pick(&d.ln, "len", fl.Name(), off)
			case types.Int, types.Uint8, types.Uint, types.Int32, types.Uint32, types.Int64:
				used = pick(&d.nx, "nx", fl.Name(), off)
				if used {
					d.nxW = v.M.IntWidth(fl.Type())
				}
			}
		}
		if !used {
			for k := 0; k < n; k++ {
				d.extra = append(d.extra, off+k)
			}
		}
		off += n
	}
	d.n = off
	if d.h < 0 || d.x < 0 || d.ln < 0 || d.col < 0 {
		return nil, fmt.Errorf("the digest %v does not have the fields of the abstraction (state words, buffer, length, verdict)", t)
	}
	d.colW = 1
	v.D = d
	return d, nil
}

// mkDigest adds an arbitrary digest in a valid state with nx pending bytes.
func (v *VC) mkDigest(st *State, d *digestInfo, name string, nx int) *sym.Obj {
	c := v.X.C
	o := v.X.NewObj(name, sym.Recv, d.n)
	o.Typ = d.T
	cells := v.M.Fresh(d.T, name)
	var h [5]N
	for i := range h {
		h[i] = c.Var(32, fmt.Sprintf("%s.h%d", name, i))
		cells[d.h+i] = h[i]
	}
	v.X.Abs.RegisterTuple(h)
	for i := 0; i < 64; i++ {
		cells[d.x+i] = c.Var(8, fmt.Sprintf("%s.x%d", name, i))
	}
	cells[d.ln] = c.Concat(c.Var(58, name+".q"), c.Const(6, uint64(nx)))
	if d.nx >= 0 {
		cells[d.nx] = c.Const(d.nxW, uint64(nx))
	}
	cells[d.col] = c.ZExt(c.Var(1, name+".col"), d.colW)
	for k, w := range d.inv {
		cells[k] = w
	}
	st.SetCells(o, cells)
	return o
}

// abs is the abstract state (leaves of verifspec.Digest) of a digest object.
func (v *VC) abs(st *State, d *digestInfo, o *sym.Obj) sym.Agg {
	cells := st.Heap[o].Cells
	var out sym.Agg
	for i := 0; i < 5; i++ {
		out = append(out, cells[d.h+i])
	}
	for i := 0; i < 64; i++ {
		out = append(out, cells[d.x+i])
	}
	ln := words(cells[d.ln : d.ln+1])[0]
	c := v.X.C
	col := words(cells[d.col : d.col+1])[0]
	if col.W > 1 {
		col = c.Ne(col, c.Const(col.W, 0))
	}
	out = append(out, c.ZExt(c.Extract(ln, 0, 6), v.X.IW), ln, col)
	return out
}

// offsets in the leaves of verifspec.Digest
const (
	aH   = 0
	aX   = 5
	aNX  = 69
	aLen = 70
	aCol = 71
)

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
