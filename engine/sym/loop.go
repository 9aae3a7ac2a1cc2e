package sym

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"verif/engine/prove"
	"verif/engine/term"
)

// A location is a scalar component of the state at a loop header.
type loc struct {
	reg  interface{}
	part int
	obj  *Obj
	idx  int
	n    int // byte cells grouped (little endian)
}

func decompose(v Val) []N {
	switch p := v.(type) {
	case N:
		return []N{p}
	case Ptr:
		if p.O != nil {
			return []N{p.Off}
		}
	case Slice:
		if p.O != nil {
			return []N{p.Off, p.Len, p.Cap}
		}
	case Agg:
		var out []N
		for _, q := range p {
			out = append(out, decompose(q)...)
		}
		return out
	case Tuple:
		var out []N
		for _, q := range p {
			out = append(out, decompose(q)...)
		}
		return out
	}
	return nil
}

func recompose(v Val, ns *[]N) Val {
	take := func() N { n := (*ns)[0]; *ns = (*ns)[1:]; return n }
	switch p := v.(type) {
	case N:
		return take()
	case Ptr:
		if p.O != nil {
			return Ptr{p.O, take()}
		}
	case Slice:
		if p.O != nil {
			o, l, c := take(), take(), take()
			return Slice{p.O, o, l, c, p.Stride}
		}
	case Agg:
		r := make(Agg, len(p))
		for i := range p {
			r[i] = recompose(p[i], ns)
		}
		return r
	case Tuple:
		r := make(Tuple, len(p))
		for i := range p {
			r[i] = recompose(p[i], ns)
		}
		return r
	}
	return v
}

// shape equality apart from scalar components
func sameShape(a, b Val) bool {
	switch p := a.(type) {
	case N:
		q, ok := b.(N)
		return ok && p.W == q.W
	case Ptr:
		q, ok := b.(Ptr)
		return ok && p.O == q.O
	case Slice:
		q, ok := b.(Slice)
		return ok && p.O == q.O && p.Stride == q.Stride
	case Agg:
		q, ok := b.(Agg)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameShape(p[i], q[i]) {
				return false
			}
		}
		return true
	case Tuple:
		q, ok := b.(Tuple)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameShape(p[i], q[i]) {
				return false
			}
		}
		return true
	}
	return sameVal(a, b)
}

func (x *Exec) group(o *Obj, i int) int {
	if o.Layout != nil {
		if n, ok := o.Layout[i]; ok {
			return n
		}
	}
	return 1
}

func (x *Exec) joinLE(cells []Val) (N, bool) {
	parts := make([]N, len(cells))
	for i, v := range cells {
		n, ok := v.(N)
		if !ok {
			return nil, false
		}
		parts[len(cells)-1-i] = n
	}
	return x.C.Concat(parts...), true
}

// snapshot lists the scalar locations of st that exist in ref.
func (x *Exec) locs(st, ref *State) (map[loc]N, bool) {
	out := map[loc]N{}
	for k, rv := range ref.Regs {
		v, ok := st.Regs[k]
		if !ok {
			return nil, false
		}
		if !sameShape(rv, v) {
			return nil, false
		}
		for i, n := range decompose(v) {
			out[loc{reg: k, part: i}] = n
		}
	}
	for o, rm := range ref.Heap {
		m := st.Heap[o]
		if m == rm {
			if rm.FA == nil {
				// unchanged; still record for matching of initial values
			} else {
				continue
			}
		}
		if m.FA != nil || rm.FA != nil {
			if m.FA != rm.FA {
				return nil, false
			}
			continue
		}
		for i := 0; i < len(m.Cells); {
			n := x.group(o, i)
			if n == 1 {
				if !sameShape(rm.Cells[i], m.Cells[i]) {
					return nil, false
				}
				for j, q := range decompose(m.Cells[i]) {
					out[loc{obj: o, idx: i, part: j, n: 1}] = q
				}
			} else {
				q, ok := x.joinLE(m.Cells[i : i+n])
				if !ok {
					return nil, false
				}
				out[loc{obj: o, idx: i, n: n}] = q
			}
			i += n
		}
	}
	return out, true
}

func (x *Exec) setLocs(st *State, vals map[loc]N) {
	regs := map[interface{}]map[int]N{}
	for l, n := range vals {
		if l.obj == nil {
			if regs[l.reg] == nil {
				regs[l.reg] = map[int]N{}
			}
			regs[l.reg][l.part] = n
			continue
		}
		cells := st.wcells(l.obj)
		if l.n == 1 {
			ns := decompose(cells[l.idx])
			ns = append([]N{}, ns...)
			ns[l.part] = n
			cells[l.idx] = recompose(cells[l.idx], &ns)
		} else {
			for i := 0; i < l.n; i++ {
				cells[l.idx+i] = x.C.Extract(n, 8*i, 8)
			}
		}
	}
	for k, m := range regs {
		ns := append([]N{}, decompose(st.Regs[k])...)
		for i, n := range m {
			ns[i] = n
		}
		st.Regs[k] = recompose(st.Regs[k], &ns)
	}
}

func sortedLocs(m map[loc]N) []loc {
	var ls []loc
	for l := range m {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return locKey(ls[i]) < locKey(ls[j]) })
	return ls
}

func locKey(l loc) string {
	if l.obj != nil {
		return fmt.Sprintf("o%06d.%06d.%d", l.obj.ID, l.idx, l.part)
	}
	return fmt.Sprintf("r%v.%d", l.reg, l.part)
}

type role struct {
	kind  int // 0 unchanged, 1 affine, 2 havoc, 3 chain component, 4 flag accumulator
	delta uint64
	v     N // havoc variable
	comp  int
	konst N
}

// mergeAll merges states into one; ok=false if they must stay apart.
func (x *Exec) mergeAll(ss []*State) (*State, bool) {
	m := ss[0]
	for _, s := range ss[1:] {
		var ok bool
		m, ok = x.Merge(m, s)
		if !ok {
			return nil, false
		}
	}
	return m, true
}

// summarise replaces a loop over message blocks by the absorption of the
// blocks it consumed. It infers the loop invariant (affine counters, chaining
// value = absorb(initial, blocks so far), flag accumulators), proves it
// inductive, and returns the exit states of an arbitrary iteration.
func (x *Exec) summarise(f Fn, l *loop, st *State) (outs []Out, ok bool) {
	if len(x.Abs.tuples) == 0 {
		return nil, false
	}
	// does the state hold a chaining value at all?
	nObl, nFrame := len(x.Obligs), len(x.Frame)
	defer func() {
		if !ok {
			x.Obligs, x.Frame = x.Obligs[:nObl], x.Frame[:nFrame]
		}
	}()
	init, good := x.locs(st, st)
	if !good {
		x.Logf("loop in %s: state has no scalar shape", f.Name())
		return nil, false
	}
	have := map[N]bool{}
	for _, n := range init {
		have[n] = true
	}
	var cands [][5]N
	for _, t := range x.Abs.tuples {
		all := true
		for _, n := range t {
			if !have[n] {
				all = false
			}
		}
		if all {
			cands = append(cands, t)
		}
	}
	if len(cands) == 0 {
		x.Logf("loop in %s: no chaining value in the state", f.Name())
		return nil, false
	}
	outs, why, hopeless := x.trySummary(f, l, st, init, cands)
	if hopeless {
		Unsup("the loop over message blocks in %s: %s", f.Name(), why)
	}
	if outs == nil {
		x.Logf("loop in %s not summarised: %s", f.Name(), why)
		return nil, false
	}
	return outs, true
}

func (x *Exec) trySummary(f Fn, l *loop, st *State, init map[loc]N, cands [][5]N) (_ []Out, _ string, hopeless bool) {
	c := x.C
	probe := func(s *State) (rr regionResult, err error) {
		x.quiet++
		x.noPrune++
		depth := len(x.stack)
		defer func() {
			x.quiet--
			x.noPrune--
			if r := recover(); r != nil {
				if u, isU := r.(Unsupported); isU {
					err = u
					x.stack = x.stack[:depth]
					return
				}
				panic(r)
			}
		}()
		return x.runRegion(f, l, l.header, s), nil
	}
	rr, err := probe(st.Fork())
	if err != nil {
		return nil, err.Error(), hopeless
	}
	if len(rr.backs) == 0 || len(rr.exits) == 0 {
		return nil, "exit test is concrete", hopeless
	}
	back, good := x.mergeAll(rr.backs)
	if !good {
		return nil, "iteration paths cannot be merged", hopeless
	}
	cur, good := x.locs(back, st)
	if !good {
		return nil, "state changes shape", hopeless
	}
	ls := sortedLocs(init)
	roles := map[loc]*role{}
	for _, p := range ls {
		a, b := init[p], cur[p]
		r := &role{}
		if a != b {
			d := c.Sub(b, a)
			if d.IsConst() && a.W == x.IW || d.IsConst() && a.W == 64 {
				r.kind, r.delta = 1, d.K
			} else {
				r.kind = 2
				r.v = c.Fresh(a.W, "loop")
			}
		}
		roles[p] = r
	}
	k := c.Fresh(x.IW, "k")
	valAt := func(p loc, kk N) N {
		r := roles[p]
		a := init[p]
		switch r.kind {
		case 0:
			return a
		case 1:
			return c.Add(a, c.MulC(c.ZExt(kk, a.W), r.delta))
		}
		return r.v
	}
	var hyp []N
	generic := func() *State {
		g := st.Fork()
		vals := map[loc]N{}
		for _, p := range ls {
			if roles[p].kind != 0 {
				vals[p] = valAt(p, k)
			}
		}
		x.setLocs(g, vals)
		for _, h := range hyp {
			g.Assume(h)
		}
		return g
	}
	k1 := c.Add(k, c.Const(k.W, 1))
	for round := 0; ; round++ {
		if round > 6 {
			return nil, "roles do not stabilise", hopeless
		}
		rr, err = probe(generic())
		if err != nil {
			return nil, err.Error(), hopeless
		}
		if len(rr.backs) == 0 {
			return nil, "no generic iteration", hopeless
		}
		back, good = x.mergeAll(rr.backs)
		if !good {
			return nil, "iteration paths cannot be merged", hopeless
		}
		cur, good = x.locs(back, st)
		if !good {
			return nil, "state changes shape", hopeless
		}
		stable := true
		for _, p := range ls {
			r := roles[p]
			switch r.kind {
			case 0, 1:
				if cur[p] != valAt(p, k1) {
					r.kind = 2
					r.v = c.Fresh(init[p].W, "loop")
					stable = false
				}
			}
		}
		if stable {
			break
		}
	}
	// chaining value
	var tuple [5]N
	found := false
	for i := len(cands) - 1; i >= 0 && !found; i-- {
		t := cands[i]
		okT := true
		for _, n := range t {
			hit := false
			for _, p := range ls {
				if roles[p].kind == 2 && init[p] == n {
					hit = true
				}
			}
			if !hit {
				okT = false
			}
		}
		if okT {
			tuple, found = t, true
		}
	}
	if !found {
		if x.Debug {
			for _, p := range ls {
				if roles[p].kind != 0 && len(init[p].String()) < 200 {
					x.Logf("role %s kind %d init %s cur %.100s", locKey(p), roles[p].kind, init[p], cur[p])
				}
			}
			x.Logf("cands %v", cands)
		}
		return nil, "no chaining value is carried", hopeless
	}
	if x.carry == nil {
		x.carry = map[string]bool{}
	}
	x.carry[fmt.Sprintf("%s#%d", f.Name(), l.id)] = true
	var hv [5]N
	for i := range hv {
		hv[i] = c.Var(32, fmt.Sprintf("R.h%d", i))
	}
	// Of several locations that start as the same word of the chaining value,
	// the one with the largest new value carries it.
	compOf := map[loc]int{}
	{
		var best [5]loc
		var size [5]int
		for _, p := range ls {
			if roles[p].kind != 2 {
				continue
			}
			for i, n := range tuple {
				if init[p] == n {
					if sz := len(term.Topo(cur[p])); sz > size[i] {
						best[i], size[i] = p, sz
					}
				}
			}
		}
		for i, n := range tuple {
			for _, p := range ls {
				if roles[p].kind == 2 && init[p] == n && cur[p] == cur[best[i]] {
					compOf[p] = i
				}
			}
		}
	}
	sub := map[N]N{}
	for p, i := range compOf {
		sub[roles[p].v] = hv[i]
	}
	newv := map[loc]N{}
	{
		var roots []N
		for _, p := range ls {
			roots = append(roots, cur[p])
		}
		roots = append(roots, back.PC...)
		rs := c.Subst(sub, roots...)
		for i, p := range ls {
			newv[p] = rs[i]
		}
		back.PC = rs[len(ls):]
	}
	// the block consumed: 64 bytes of one array at an address affine in k
	var roots []N
	for p := range compOf {
		roots = append(roots, newv[p])
	}
	size := uint64(64)
	// an iteration that absorbs through the contract of another function
	via := x.absorbed(ls, compOf, roles, newv)
	var fa *FA
	var base N
	var why string
	if via != nil {
		size = via.Segs[0].Len.K
		fa, base, why = x.findSeg(st, via.Segs[0], k)
	} else {
		fa, base, why = x.findBlock(st, roots, k)
	}
	if fa == nil {
		return nil, "block not identified: " + why, hopeless
	}
	// from here on, blocks are consumed by a loop whose length is not known:
	// unrolling it is no alternative
	hopeless = true
	var blk [64]N
	for j := range blk {
		blk[j] = x.Sel(fa, c.Add(base, c.Const(base.W, uint64(j))))
	}
	// bounds on the iteration counter (Houdini)
	type bound struct{ n N }
	var bnds []bound
	seenB := map[N]bool{}
	for _, p := range ls {
		a := init[p]
		if a.W != x.IW || a.IsConst() || roles[p].kind >= 2 && p.obj != nil {
			continue
		}
		for _, b := range []N{c.LshrC(a, bits.TrailingZeros64(size)), a} {
			if !seenB[b] && len(bnds) < 60 {
				seenB[b] = true
				bnds = append(bnds, bound{b})
			}
		}
	}
	// an offset that runs towards a fixed end
	for _, p := range ls {
		if r := roles[p]; r.kind != 1 || r.delta != size || init[p].W != x.IW || init[p].IsConst() && init[p].K == 0 {
			continue
		}
		for _, q := range ls {
			if a := init[q]; roles[q].kind == 0 && a.W == x.IW && !a.IsConst() && (q.obj == nil || q.obj.Kind == Local) {
				b := c.LshrC(c.Sub(a, init[p]), bits.TrailingZeros64(size))
				if !b.IsConst() && !seenB[b] && len(bnds) < 60 {
					seenB[b] = true
					bnds = append(bnds, bound{b})
				}
			}
		}
	}
	holds := func(pc []N, g N) bool {
		return x.P.Valid(append(append([]N{}, x.Facts...), pc...), g).Status == prove.Unsat
	}
	// only the control part of the path condition matters here
	ctrl := func(pc []N) []N {
		var out []N
		for _, n := range pc {
			if len(term.Topo(n)) < 400 {
				out = append(out, n)
			}
		}
		return out
	}
	bpc := ctrl(back.PC)
	{ // a bound the control never looks at cannot be one
		seen := map[N]bool{}
		for _, n := range term.Topo(bpc...) {
			if n.Op == term.Var {
				seen[n] = true
			}
		}
		var keep []bound
		for _, b := range bnds {
			for _, n := range term.Topo(b.n) {
				if seen[n] {
					keep = append(keep, b)
					break
				}
			}
		}
		bnds = keep
	}
	for ch := true; ch; {
		ch = false
		var h []N
		for _, b := range bnds {
			h = append(h, c.Ule(k, b.n))
		}
		var keep []bound
		h = append(append([]N{}, bpc...), h...)
		if len(bnds) > 0 && !holds(h, c.Ult(k, k1)) {
			bnds = nil
			break
		}
		for _, b := range bnds {
			if holds(h, c.Ule(k1, b.n)) {
				keep = append(keep, b)
			} else {
				ch = true
			}
		}
		bnds = keep
	}
	for _, b := range bnds {
		hyp = append(hyp, c.Ule(k, b.n))
	}
	if len(bnds) == 0 {
		return nil, "no bound on the number of iterations", hopeless
	}
	pcs := append(append([]N{}, bpc...), hyp...)
	// flag accumulators: v' = flag or v, where flag does not depend on v
	var flag N
	accOf := map[loc]N{}
	isFlag := func(p loc) bool {
		r := roles[p]
		if _, isComp := compOf[p]; isComp || r.kind != 2 {
			return false
		}
		if r.v.W == 1 {
			return true
		}
		// an int used as a flag: either set to 1 or kept
		n := newv[p]
		return n.Op == term.Ite && (n.A[1] == r.v && n.A[2].IsConst() && n.A[2].K == 1 || n.A[2] == r.v && n.A[1].IsConst() && n.A[1].K == 1)
	}
	for _, own := range []bool{true, false} {
		for _, p := range ls {
			if !isFlag(p) || own != (p.obj != nil && p.obj.Kind == Recv) {
				continue
			}
			v := roles[p].v
			one := c.Const(v.W, 1)
			fl := flag
			if fl == nil {
				fl = c.Ne(c.Subst(map[N]N{v: c.Const(v.W, 0)}, newv[p])[0], c.Const(v.W, 0))
				if fl.IsTrue() || v.W > 1 && !x.P.Valid(nil, c.Eq(newv[p], c.Ite(fl, one, v))).Valid() {
					continue
				}
			}
			if x.P.Valid(append(append([]N{}, x.Facts...), pcs...), c.Eq(newv[p], c.Ite(fl, one, v))).Valid() {
				accOf[p] = one
				flag = fl
			} else if flag == nil && own {
				flag = fl // reported per block, but not accumulated
			}
		}
	}
	if flag == nil {
		flag = c.False()
	}
	// the step function of this loop
	vr := Variant{Func: f.Name(), Pos: x.Pos}
	if via != nil {
		if flag != c.False() && flag != via.Seg {
			return nil, "the flag is not that of the absorbed blocks", hopeless
		}
	} else {
		m := map[N]N{}
		for j := range blk {
			m[blk[j]] = c.Var(8, fmt.Sprintf("R.b%d", j))
		}
		var roots []N
		for i := range hv {
			for p, k := range compOf {
				if k == i {
					vr.Out[i] = newv[p]
				}
			}
			roots = append(roots, vr.Out[i])
		}
		roots = append(roots, flag)
		rs := c.Subst(m, roots...)
		if x.Expand != nil {
			rs = x.Expand(rs)
		}
		copy(vr.Out[:], rs)
		vr.Flag = rs[5]
		for _, n := range bpc {
			ok := true
			for _, q := range term.Topo(n) {
				if q.Op == term.Var && !x.Config(q.Name) || q.Op == term.App {
					ok = false
				}
			}
			if ok {
				vr.PC = append(vr.PC, n)
			}
		}
		for _, n := range term.Topo(rs...) {
			if n.Op == term.Var && !strings.HasPrefix(n.Name, "R.") && !x.Config(n.Name) || n.Op == term.App && byteArray(st, n) {
				return nil, "an iteration depends on more than the chaining value and its block (" + n.String() + ")", hopeless
			}
		}
	}
	if via == nil {
		x.AddVariant(vr)
	}
	// final pass with the absorbed values, in iteration kk
	final := func(kk N) regionResult {
		at := func(ns ...N) []N {
			if kk == k {
				return ns
			}
			return c.Subst(map[N]N{k: kk}, ns...)
		}
		kk1 := c.Add(kk, c.Const(kk.W, 1))
		seg := func(kk N) Seg {
			return Seg{FA: fa, Off: c.Subst(map[N]N{k: c.Const(k.W, 0)}, base)[0], Len: c.MulC(kk, size)}
		}
		ok0, f0 := x.Abs.Absorb(tuple, seg(kk))
		ok1, f1 := x.Abs.Absorb(tuple, seg(kk1))
		vals := map[loc]N{}
		for _, p := range ls {
			if i, isC := compOf[p]; isC {
				vals[p] = ok0[i]
			} else if one, isA := accOf[p]; isA {
				vals[p] = c.Ite(f0, one, init[p])
			} else if roles[p].kind != 0 {
				vals[p] = valAt(p, kk)
			}
		}
		g := st.Fork()
		x.setLocs(g, vals)
		for _, h := range at(hyp...) {
			g.Assume(h)
		}
		fr := x.runRegion(f, l, l.header, g)
		// values after a full step, for exits at the bottom of the body
		repl := map[N]N{}
		for _, b := range fr.backs {
			bl, good := x.locs(b, st)
			if !good {
				continue
			}
			for p, i := range compOf {
				repl[bl[p]] = ok1[i]
			}
			for p, one := range accOf {
				if bl[p] != vals[p] {
					repl[bl[p]] = c.Ite(f1, one, init[p])
				}
			}
		}
		for _, o := range fr.exits {
			x.replace(o.St, repl)
			for i := range o.Ret {
				o.Ret[i] = replaceVal(o.Ret[i], repl)
			}
		}
		return fr
	}
	fr := final(k)
	// If the loop can only be left after one number of iterations, name it.
	for _, b := range bnds {
		if b.n.Op == term.Var || len(fr.exits) == 0 {
			continue
		}
		forced := true
		for _, o := range fr.exits {
			if !holds(ctrl(o.St.PC), c.Eq(k, b.n)) {
				forced = false
				break
			}
		}
		if forced {
			x.quiet++
			fr = final(b.n)
			x.quiet--
			break
		}
	}
	var outs []Out
	for _, o := range fr.exits {
		if x.feasible(o.St, c.True()) {
			outs = append(outs, o)
		}
	}
	if x.quiet == 0 {
		x.Loops = append(x.Loops, LoopReport{Func: f.Name(), Kind: "summarised", Note: fmt.Sprintf("invariant: chaining value = absorb(initial, blocks), %d flag accumulators, %d counter bounds", len(accOf), len(bnds))})
	}
	x.Logf("loop in %s summarised (%d exits)", f.Name(), len(outs))
	if outs == nil {
		outs = []Out{}
	}
	return outs, "", false
}

func replaceVal(v Val, m map[N]N) Val {
	ns := decompose(v)
	if len(ns) == 0 {
		return v
	}
	ch := false
	out := make([]N, len(ns))
	for i, n := range ns {
		out[i] = n
		if r, ok := m[n]; ok {
			out[i] = r
			ch = true
		}
	}
	if !ch {
		return v
	}
	return recompose(v, &out)
}

func (x *Exec) replace(st *State, m map[N]N) {
	if len(m) == 0 {
		return
	}
	for k, v := range st.Regs {
		st.Regs[k] = replaceVal(v, m)
	}
	for o, mem := range st.Heap {
		if mem.FA != nil {
			continue
		}
		for i := 0; i < len(mem.Cells); {
			n := x.group(o, i)
			if n == 1 {
				nv := replaceVal(mem.Cells[i], m)
				if !sameVal(nv, mem.Cells[i]) {
					st.wcells(o)[i] = nv
					mem = st.Heap[o]
				}
			} else if q, ok := x.joinLE(mem.Cells[i : i+n]); ok {
				if r, hit := m[q]; hit {
					cells := st.wcells(o)
					for j := 0; j < n; j++ {
						cells[i+j] = x.C.Extract(r, 8*j, 8)
					}
					mem = st.Heap[o]
				}
			}
			i += n
		}
	}
}

// findBlock looks for 64 consecutive bytes of one uninterpreted array read
// at addresses 64*k + constant.
func (x *Exec) findBlock(st *State, roots []N, k N) (*FA, N, string) {
	byUF := map[string]map[int]N{}
	for _, n := range term.Topo(roots...) {
		if n.Op != term.App || len(n.A) != 1 || n.W != 8 {
			continue
		}
		if byUF[n.Name] == nil {
			byUF[n.Name] = map[int]N{}
		}
		byUF[n.Name][n.A[0].ID] = n.A[0]
	}
	c := x.C
	for _, o := range sortedObjs(st) {
		m := st.Heap[o]
		if m.FA == nil || m.FA.Kind != faBase {
			continue
		}
		idx := byUF[m.FA.UF]
		if len(idx) < 64 {
			continue
		}
		for _, a := range idx {
			// linear in k with coefficient 64
			d := c.Sub(c.Subst(map[N]N{k: c.Add(k, c.Const(k.W, 1))}, a)[0], a)
			if !d.IsConst() || d.K != 64 {
				continue
			}
			ok := true
			for j := 1; j < 64; j++ {
				if idx[c.Add(a, c.Const(a.W, uint64(j))).ID] == nil {
					ok = false
					break
				}
			}
			if ok {
				return m.FA, a, ""
			}
		}
	}
	return nil, nil, fmt.Sprintf("%d arrays read", len(byUF))
}

// absorbed: the five words of the chaining value become those of one entry of
// the theory that starts from the words at the head of the loop.
func (x *Exec) absorbed(ls []loc, compOf map[loc]int, roles map[loc]*role, newv map[loc]N) *AbsEntry {
	var e *AbsEntry
	for _, p := range ls {
		i, ok := compOf[p]
		if !ok {
			continue
		}
		q := x.Abs.byNode[newv[p]]
		if q == nil || e != nil && q != e || q.Out[i] != newv[p] || q.Prev != nil || len(q.Segs) != 1 || q.H[i] != roles[p].v {
			return nil
		}
		e = q
	}
	if e == nil {
		return nil
	}
	if l := e.Segs[0].Len; !l.IsConst() || l.K == 0 || l.K > 512 || l.K&(l.K-1) != 0 || l.K%64 != 0 {
		return nil
	}
	return e
}

// findSeg: the bytes of a segment are consecutive bytes of one array, at an
// address that advances by their number with k.
func (x *Exec) findSeg(st *State, g Seg, k N) (*FA, N, string) {
	c := x.C
	n := g.Len.K
	first := x.Sel(g.FA, g.Off)
	if first.Op != term.App || len(first.A) != 1 {
		return nil, nil, "the absorbed bytes are not those of an array"
	}
	for _, o := range sortedObjs(st) {
		m := st.Heap[o]
		if m.FA == nil || m.FA.Kind != faBase || m.FA.UF != first.Name {
			continue
		}
		a := first.A[0]
		if d := c.Sub(c.Subst(map[N]N{k: c.Add(k, c.Const(k.W, 1))}, a)[0], a); !d.IsConst() || d.K != n {
			return nil, nil, "the address does not advance with the blocks"
		}
		for j := uint64(1); j < n; j++ {
			if x.Sel(g.FA, c.Add(g.Off, c.Const(g.Off.W, j))) != x.Sel(m.FA, c.Add(a, c.Const(a.W, j))) {
				return nil, nil, "the absorbed bytes are not consecutive"
			}
		}
		return m.FA, a, ""
	}
	return nil, nil, "the absorbed bytes are not those of an argument"
}

func sortedObjs(st *State) []*Obj {
	var os []*Obj
	for o := range st.Heap {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].ID < os[j].ID })
	return os
}

func byteArray(st *State, n N) bool {
	for _, m := range st.Heap {
		if m.FA != nil && m.FA.Kind == faBase && m.FA.UF == n.Name {
			return true
		}
	}
	return false
}

// Variant is the step function found in a loop over message blocks, as terms
// over R.h0..R.h4 and R.b0..R.b63.
type Variant struct {
	Func, Pos string
	Out       [5]N
	Flag      N
	PC        []N // conditions on the configuration
}

func (x *Exec) AddVariant(v Variant) {
	for _, o := range x.Variants {
		if o.Out == v.Out && o.Flag == v.Flag {
			return
		}
	}
	x.Variants = append(x.Variants, v)
}

// Apply instantiates the step function.
func (x *Exec) ApplyVariant(v Variant, h [5]N, blk [64]N) ([5]N, N) {
	m := map[N]N{}
	for i := range h {
		m[x.C.Var(32, fmt.Sprintf("R.h%d", i))] = h[i]
	}
	for j := range blk {
		m[x.C.Var(8, fmt.Sprintf("R.b%d", j))] = blk[j]
	}
	rs := x.C.Subst(m, v.Out[0], v.Out[1], v.Out[2], v.Out[3], v.Out[4], v.Flag)
	var o [5]N
	copy(o[:], rs)
	return o, rs[5]
}
