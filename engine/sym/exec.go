package sym

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"verif/engine/prove"
	"verif/engine/term"
)

// Fn is one function of a frontend as a control-flow graph.
type Fn interface {
	Name() string
	NumBlocks() int
	Succs(b int) []int
	// Enter evaluates the phis of block "to" for the edge from -> to and
	// removes registers that are not live there.
	Enter(x *Exec, st *State, from, to int)
	// Run executes the body of block b.
	Run(x *Exec, st *State, b int) []Out
}

type Out struct {
	St  *State
	To  int // -1: return
	Ret []Val
}

type FrameViolation struct {
	Obj  *Obj
	PC   []N
	Pos  string
	Func string
}

// Oblig is a proof obligation PC => Cond.
type Oblig struct {
	Name string
	Kind string // panic, bounds, nil, frame, post, loop, call
	Pos  string
	PC   []N
	Cond N
}

type Exec struct {
	concrete map[string]N
	C        *term.Ctx
	P        *prove.Prover
	IW       int // width of int and of offsets
	Obligs   []Oblig
	Frame    []FrameViolation
	Pos      string
	stack    []string
	quiet    int
	objs     int
	infos    map[Fn]*cfgInfo
	Abs      *AbsTheory
	// Variants are the step functions of the loops over message blocks.
	Variants []Variant
	Config   func(name string) bool // variables that describe the configuration
	noPrune  int
	// Expand replaces opaque step functions by their definitions.
	Expand func(roots []N) []N
	Debug    bool
	Loops    []LoopReport
	Steps    int
	MaxSteps int
	badLoops map[string]bool
	carry    map[string]bool // loops that carry a chaining value
	// extra facts usable in feasibility checks and proofs
	Facts []N
	Funcs map[string]int // executed functions
}

type LoopReport struct {
	Func string
	Kind string // summarised, unrolled
	Note string
}

func NewExec(iw int, seed uint64) *Exec {
	c := term.New()
	x := &Exec{C: c, P: prove.New(c, seed), IW: iw, infos: map[Fn]*cfgInfo{}, MaxSteps: 3000000, badLoops: map[string]bool{}, Funcs: map[string]int{}, Config: func(string) bool { return false }}
	x.Abs = newAbs(x)
	return x
}

func (x *Exec) fnName() string {
	if len(x.stack) == 0 {
		return ""
	}
	return x.stack[len(x.stack)-1]
}

// Probing: a loop body is executed to find its invariant.
func (x *Exec) Probing() bool { return x.noPrune > 0 }

func (x *Exec) Int(k int64) N { return x.C.Const(x.IW, uint64(k)) }

// Require adds an obligation and assumes it afterwards.
func (x *Exec) Require(st *State, kind, name string, cond N) {
	if cond.IsTrue() {
		return
	}
	if x.quiet == 0 {
		x.Obligs = append(x.Obligs, Oblig{Name: x.fnName() + ": " + name, Kind: kind, Pos: x.Pos, PC: append([]N(nil), st.PC...), Cond: cond})
	}
	st.Assume(cond)
}

func (x *Exec) feasible(st *State, extra N) bool {
	if extra.IsFalse() {
		return false
	}
	if x.noPrune > 0 {
		return true
	}
	for _, p := range st.PC {
		if p == extra {
			return true
		}
		if x.C.Not(p) == extra {
			return false
		}
	}
	return x.P.Feasible(append(append(append([]N{}, x.Facts...), st.PC...), extra))
}

// Branch splits st on cond; either result may be nil.
func (x *Exec) Branch(st *State, cond N) (t, f *State) {
	if cond.IsTrue() {
		return st, nil
	}
	if cond.IsFalse() {
		return nil, st
	}
	nc := x.C.Not(cond)
	ft, ff := x.feasible(st, cond), x.feasible(st, nc)
	switch {
	case ft && ff:
		t = st
		f = st.Fork()
		t.Assume(cond)
		f.Assume(nc)
	case ft:
		t = st
		t.Assume(cond)
	case ff:
		f = st
		f.Assume(nc)
	}
	return
}

// ------------------------------------------------------------ control flow

type loop struct {
	id     int
	header int
	body   map[int]bool
	parent *loop
	blocks []int
}

type cfgInfo struct {
	loops    []*loop
	inner    []*loop // innermost loop per block
	headerOf map[int]*loop
	pos      []int         // position of a block within its innermost region
	lpos     map[*loop]int // position of a loop within its parent region
	reach    []bool
}

func (x *Exec) info(f Fn) *cfgInfo {
	if i, ok := x.infos[f]; ok {
		return i
	}
	n := f.NumBlocks()
	preds := make([][]int, n)
	reach := make([]bool, n)
	var rpo []int
	var dfs func(b int)
	dfs = func(b int) {
		reach[b] = true
		for _, s := range f.Succs(b) {
			preds[s] = append(preds[s], b)
			if !reach[s] {
				dfs(s)
			}
		}
		rpo = append(rpo, b)
	}
	dfs(0)
	for i, j := 0, len(rpo)-1; i < j; i, j = i+1, j-1 {
		rpo[i], rpo[j] = rpo[j], rpo[i]
	}
	num := make([]int, n)
	for i, b := range rpo {
		num[b] = i
	}
	idom := make([]int, n)
	for i := range idom {
		idom[i] = -1
	}
	idom[0] = 0
	for ch := true; ch; {
		ch = false
		for _, b := range rpo[1:] {
			d := -1
			for _, p := range preds[b] {
				if !reach[p] || idom[p] < 0 {
					continue
				}
				if d < 0 {
					d = p
					continue
				}
				u, v := p, d
				for u != v {
					for num[u] > num[v] {
						u = idom[u]
					}
					for num[v] > num[u] {
						v = idom[v]
					}
				}
				d = u
			}
			if idom[b] != d {
				idom[b] = d
				ch = true
			}
		}
	}
	dom := func(a, b int) bool {
		for {
			if a == b {
				return true
			}
			if b == 0 {
				return false
			}
			b = idom[b]
		}
	}
	ci := &cfgInfo{inner: make([]*loop, n), headerOf: map[int]*loop{}, pos: make([]int, n), lpos: map[*loop]int{}, reach: reach}
	for _, b := range rpo {
		for _, s := range f.Succs(b) {
			if num[s] <= num[b] {
				if !dom(s, b) {
					Unsup("irreducible control flow in %s", f.Name())
				}
				l := ci.headerOf[s]
				if l == nil {
					l = &loop{id: len(ci.loops), header: s, body: map[int]bool{s: true}}
					ci.headerOf[s] = l
					ci.loops = append(ci.loops, l)
				}
				st := []int{b}
				for len(st) > 0 {
					y := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[y] {
						continue
					}
					l.body[y] = true
					for _, p := range preds[y] {
						if reach[p] {
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(ci.loops, func(i, j int) bool { return len(ci.loops[i].body) < len(ci.loops[j].body) })
	for i, l := range ci.loops {
		l.id = i
		for b := range l.body {
			if ci.inner[b] == nil {
				ci.inner[b] = l
			}
			l.blocks = append(l.blocks, b)
		}
		sort.Ints(l.blocks)
		for _, m := range ci.loops[i+1:] {
			if m.body[l.header] && m != l {
				l.parent = m
				break
			}
		}
	}
	// topological positions region by region; a region's units are blocks and
	// immediate sub-loops.
	unit := func(b int, r *loop) (blk int, sub *loop) {
		l := ci.inner[b]
		if l == r {
			return b, nil
		}
		for l.parent != r {
			l = l.parent
		}
		return -1, l
	}
	regions := append([]*loop{nil}, ci.loops...)
	for _, r := range regions {
		type u struct {
			b int
			l *loop
		}
		succ := map[u]map[u]bool{}
		var units []u
		seen := map[u]bool{}
		for _, b := range rpo {
			if r != nil && !r.body[b] {
				continue
			}
			bb, sl := unit(b, r)
			me := u{bb, sl}
			if sl != nil {
				me.b = -1
			}
			if !seen[me] {
				seen[me] = true
				units = append(units, me)
			}
			for _, s := range f.Succs(b) {
				if r != nil && (!r.body[s] || s == r.header) {
					continue
				}
				sb, ssl := unit(s, r)
				to := u{sb, ssl}
				if to == me {
					continue
				}
				if succ[me] == nil {
					succ[me] = map[u]bool{}
				}
				succ[me][to] = true
			}
		}
		mark := map[u]int{}
		var order []u
		var visit func(v u)
		visit = func(v u) {
			mark[v] = 1
			var ss []u
			for s := range succ[v] {
				ss = append(ss, s)
			}
			sort.Slice(ss, func(i, j int) bool { return key2(ss[i].b, ss[i].l) < key2(ss[j].b, ss[j].l) })
			for _, s := range ss {
				if mark[s] == 0 {
					visit(s)
				}
			}
			order = append(order, v)
		}
		for _, v := range units {
			if mark[v] == 0 {
				visit(v)
			}
		}
		for i, v := range order {
			p := len(order) - i
			if v.l != nil {
				ci.lpos[v.l] = p
			} else {
				ci.pos[v.b] = p
			}
		}
	}
	x.infos[f] = ci
	return ci
}

func key2(b int, l *loop) int {
	if l != nil {
		return 1000000 + l.id
	}
	return b
}

// chain lists the loops around block b inside region r, outermost first.
func (ci *cfgInfo) chain(b int, r *loop) []*loop {
	var out []*loop
	for l := ci.inner[b]; l != r && l != nil; l = l.parent {
		out = append(out, l)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (ci *cfgInfo) key(b int, r *loop, it map[int]int) []int {
	var k []int
	for _, l := range ci.chain(b, r) {
		k = append(k, ci.lpos[l], it[l.id])
	}
	return append(k, ci.pos[b])
}

func less(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

type item struct {
	key   []int
	block int
	sts   []*State
}

type regionResult struct {
	backs []*State // at the region header again (phis evaluated)
	exits []Out    // To outside the region (phis evaluated), or returns
}

const unrollLimit = 320

// runRegion executes from block start until control leaves the region r
// (nil: the function) or returns to its header.
func (x *Exec) runRegion(f Fn, r *loop, start int, st *State) regionResult {
	ci := x.info(f)
	var res regionResult
	work := map[string]*item{}
	add := func(b int, s *State) {
		k := ci.key(b, r, s.iter)
		ks := fmt.Sprint(k)
		it := work[ks]
		if it == nil {
			it = &item{key: k, block: b}
			work[ks] = it
		}
		for i, o := range it.sts {
			if m, ok := x.Merge(o, s); ok {
				it.sts[i] = m
				return
			}
		}
		it.sts = append(it.sts, s)
		if len(it.sts) > 200 {
			Unsup("too many paths in %s", f.Name())
		}
	}
	st.iter = map[int]int{}
	first := true
	add(start, st)
	route := func(from int, o Out) {
		if o.To < 0 {
			res.exits = append(res.exits, o)
			return
		}
		s := o.St
		if r != nil && o.To == r.header {
			f.Enter(x, s, from, o.To)
			res.backs = append(res.backs, s)
			return
		}
		if r != nil && !r.body[o.To] {
			f.Enter(x, s, from, o.To)
			s.iter = nil
			res.exits = append(res.exits, o)
			return
		}
		f.Enter(x, s, from, o.To)
		// iteration counters
		if l := ci.headerOf[o.To]; l != nil && l.body[from] {
			s.iter[l.id]++
			if s.iter[l.id] > 100000 {
				Unsup("loop does not end in %s", f.Name())
			}
		}
		for _, l := range ci.loops {
			if !l.body[o.To] {
				delete(s.iter, l.id)
			} else if l.header == o.To && !l.body[from] {
				s.iter[l.id] = 0
			}
		}
		add(o.To, s)
	}
	for len(work) > 0 {
		var best *item
		var bk string
		for k, it := range work {
			if best == nil || less(it.key, best.key) {
				best, bk = it, k
			}
		}
		delete(work, bk)
		for _, s := range best.sts {
			x.Steps++
			if x.Steps > x.MaxSteps {
				Unsup("step budget exhausted in %s", f.Name())
			}
			l := ci.headerOf[best.block]
			isRegionHeader := r != nil && best.block == r.header && first
			if l != nil && !isRegionHeader && l != r {
				if s.iter[l.id] == 0 {
					if outs, ok := x.summarise(f, l, s); ok {
						for _, o := range outs {
							// phis already evaluated by the sub-run
							if o.To < 0 {
								res.exits = append(res.exits, o)
								continue
							}
							if r != nil && o.To == r.header {
								res.backs = append(res.backs, o.St)
								continue
							}
							if r != nil && !r.body[o.To] {
								res.exits = append(res.exits, o)
								continue
							}
							o.St.iter = map[int]int{}
							for k, v := range s.iter {
								if ci.loops[k].body[o.To] {
									o.St.iter[k] = v
								}
							}
							if h := ci.headerOf[o.To]; h != nil && h.body[best.block] {
								o.St.iter[h.id]++
							}
							add(o.To, o.St)
						}
						continue
					}
				}
				if n := s.iter[l.id]; x.symIter(f, l) && (n > unrollLimit || n > 6 && x.carry[fmt.Sprintf("%s#%d", f.Name(), l.id)]) {
					Unsup("loop in %s has no bound and no summary", f.Name())
				}
			}
			outs := f.Run(x, s, best.block)
			for _, o := range outs {
				if o.St.iter == nil {
					o.St.iter = map[int]int{}
					for k, v := range s.iter {
						o.St.iter[k] = v
					}
				} else if o.St != s && len(outs) > 1 {
					it := map[int]int{}
					for k, v := range o.St.iter {
						it[k] = v
					}
					o.St.iter = it
				}
				if len(outs) > 1 && l != nil && o.To >= 0 && !l.body[o.To] {
					x.symLoops()[fmt.Sprintf("%s#%d", f.Name(), l.id)] = true
				}
				route(best.block, o)
			}
		}
		first = false
	}
	return res
}

func (x *Exec) symLoops() map[string]bool { return x.badLoops }
func (x *Exec) symIter(f Fn, l *loop) bool {
	return x.badLoops[fmt.Sprintf("%s#%d", f.Name(), l.id)]
}

type Outcome struct {
	St  *State
	Ret []Val
}

// CallFn executes f from st (whose registers hold the parameters) and
// returns its outcomes, merged where possible. Registers of st are lost.
func (x *Exec) CallFn(f Fn, st *State) []Outcome {
	x.stack = append(x.stack, f.Name())
	x.Funcs[f.Name()]++
	if len(x.stack) > 60 {
		Unsup("call depth in %s", f.Name())
	}
	saved := st.iter
	res := x.runRegion(f, nil, 0, st)
	x.stack = x.stack[:len(x.stack)-1]
	var outs []Outcome
	for _, e := range res.exits {
		e.St.Regs = map[interface{}]Val{}
		e.St.iter = saved
		merged := false
		for i := range outs {
			if len(outs[i].Ret) != len(e.Ret) {
				continue
			}
			// carry the results through the merge as registers
			a, b := outs[i].St, e.St
			for k := range e.Ret {
				a.Regs[k], b.Regs[k] = outs[i].Ret[k], e.Ret[k]
			}
			m, ok := x.Merge(a, b)
			a.Regs, b.Regs = map[interface{}]Val{}, map[interface{}]Val{}
			if ok {
				ret := make([]Val, len(e.Ret))
				for k := range ret {
					ret[k] = m.Regs[k]
				}
				m.Regs = map[interface{}]Val{}
				m.iter = saved
				outs[i] = Outcome{m, ret}
				merged = true
				break
			}
		}
		if !merged {
			outs = append(outs, Outcome{e.St, e.Ret})
		}
	}
	for i := range outs {
		if saved != nil {
			it := map[int]int{}
			for k, v := range saved {
				it[k] = v
			}
			outs[i].St.iter = it
		}
	}
	return outs
}

func (x *Exec) Logf(f string, a ...interface{}) {
	if x.Debug {
		fmt.Fprintf(os.Stderr, strings.Repeat("  ", len(x.stack))+f+"\n", a...)
	}
}

// Feasible tells whether extra can hold in st.
func (x *Exec) Feasible(st *State, extra N) bool { return x.feasible(st, extra) }

// Nested runs f with a clean record of obligations and returns what it added.
func (x *Exec) Nested(f func()) (obs []Oblig, fr []FrameViolation, err error) {
	so, sf, sq, sn, ss, sp := x.Obligs, x.Frame, x.quiet, x.noPrune, x.stack, x.Pos
	x.Obligs, x.Frame, x.quiet, x.noPrune, x.stack = nil, nil, 0, 0, nil
	defer func() {
		obs, fr = x.Obligs, x.Frame
		x.Obligs, x.Frame, x.quiet, x.noPrune, x.stack, x.Pos = so, sf, sq, sn, ss, sp
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				err = u
				return
			}
			if x.Debug {
				panic(r)
			}
			err = Unsupported{Msg: fmt.Sprintf("internal: %v", r)}
		}
	}()
	f()
	return
}

// Concrete replaces a term by the only value it can have in st, if so.
func (x *Exec) Concrete(st *State, n N) N {
	if n.IsConst() {
		return n
	}
	if len(term.Topo(n)) > 60 {
		return n
	}
	key := fmt.Sprintf("%d:", n.ID)
	var pc []N
	for _, a := range st.PC {
		if x.P.Size(a) <= 120 {
			pc = append(pc, a)
			key += fmt.Sprintf("%d,", a.ID)
		}
	}
	if r, ok := x.concrete[key]; ok {
		return r
	}
	if x.concrete == nil {
		x.concrete = map[string]N{}
	}
	z := x.C.Var(n.W, "value")
	out := n
	if r := x.P.Valid(append(append([]N{}, pc...), x.C.Eq(z, n)), x.C.False()); r.Status == prove.Sat {
		if k, ok := r.Value(z); ok {
			q := x.C.Const(n.W, k)
			if x.P.Valid(pc, x.C.Eq(n, q)).Valid() {
				out = q
			}
		}
	}
	x.concrete[key] = out
	return out
}

// SegOf is the byte sequence of a slice.
func (x *Exec) SegOf(st *State, s Slice) Seg {
	if s.O == nil {
		return Seg{FA: &FA{Kind: faZero, W: 8}, Off: x.Int(0), Len: x.Int(0)}
	}
	m := st.Heap[s.O]
	if m.FA == nil && s.Off.IsConst() && s.Len.IsConst() {
		vs := x.Load(st, Ptr{s.O, s.Off}, int(s.Len.K))
		cells := make([]N, len(vs))
		for i, v := range vs {
			n, ok := v.(N)
			if !ok {
				Unsup("absorbing non-scalar cells")
			}
			cells[i] = n
		}
		return Seg{FA: &FA{Kind: faCells, W: 8, Cells: cells}, Off: x.Int(0), Len: s.Len}
	}
	return Seg{FA: x.snap(st, s.O, 8), Off: s.Off, Len: s.Len}
}

// Snap gives the contents of an object.
func (x *Exec) Snap(st *State, o *Obj) *FA { return x.snap(st, o, 8) }
