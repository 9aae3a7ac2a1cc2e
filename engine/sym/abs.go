package sym

import (
	"fmt"
	"strings"

	"verif/engine/prove"
	"verif/engine/term"
)

// The theory of block absorption. absorb(h, q) is the chaining value after
// the blocks of q (a sequence whose length is a multiple of 64) and
// flagged(h, q) tells whether some block of q was flagged on the way. They
// are opaque; the only laws used are
//
//	absorb(h, empty) = h, flagged(h, empty) = false
//	absorb(absorb(h, q1), q2) = absorb(h, q1 ++ q2)
//	flagged(h, q1 ++ q2) = flagged(h, q1) || flagged(absorb(h, q1), q2)
//	absorb/flagged of one block = the specification's step
//	congruence (equal sequences, equal start values)
//
// which are the laws of a left fold (proved in /verif/lean/Absorb.lean).
type AbsTheory struct {
	x      *Exec
	list   []*AbsEntry
	byNode map[N]*AbsEntry
	byKey  map[string]*AbsEntry
	faIDs  map[*FA]int
	faKeys map[string]int
	tuples [][5]N
}

type Seg struct {
	FA       *FA
	Off, Len N
}

type AbsEntry struct {
	ID   int
	H    [5]N
	Segs []Seg
	Out  [5]N
	Cum  N // flagged(H, all segments)
	Seg  N // flagged of the last segment
	Prev *AbsEntry
}

func newAbs(x *Exec) *AbsTheory {
	return &AbsTheory{x: x, byNode: map[N]*AbsEntry{}, byKey: map[string]*AbsEntry{}, faIDs: map[*FA]int{}, faKeys: map[string]int{}}
}

func (x *Exec) isAbs(n N) bool {
	if n.Op == term.Extract {
		n = n.A[0]
	}
	return x.Abs.byNode[n] != nil && n.W > 1
}

// RegisterTuple names five words as a chaining value.
func (t *AbsTheory) RegisterTuple(h [5]N) { t.tuples = append(t.tuples, h) }

func (t *AbsTheory) faID(f *FA) int {
	if f == nil {
		return -1
	}
	if id, ok := t.faIDs[f]; ok {
		return id
	}
	nid := func(n N) int {
		if n == nil {
			return -1
		}
		return n.ID
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d %s %d %d %d %d %d %d %d %d %d:", f.Kind, f.UF, f.W, t.faID(f.Prev), nid(f.Idx), nid(f.Val), t.faID(f.Src), nid(f.SOff), nid(f.Cnt), nid(f.Cond), t.faID(f.Alt))
	for _, c := range f.Cells {
		fmt.Fprintf(&b, "%d,", c.ID)
	}
	k := b.String()
	id, ok := t.faKeys[k]
	if !ok {
		id = len(t.faKeys)
		t.faKeys[k] = id
	}
	t.faIDs[f] = id
	return id
}

// Absorb returns the chaining value and the flag of the segment.
func (t *AbsTheory) Absorb(h [5]N, s Seg) ([5]N, N) {
	c := t.x.C
	if s.Len.IsConst() && s.Len.K == 0 {
		return h, c.False()
	}
	var prev *AbsEntry
	if p := t.byNode[h[0]]; p != nil && p.Out == h {
		prev = p
	}
	var b strings.Builder
	if prev != nil {
		fmt.Fprintf(&b, "p%d", prev.ID)
	} else {
		for _, n := range h {
			fmt.Fprintf(&b, "h%d", n.ID)
		}
	}
	fmt.Fprintf(&b, " %d %d %d", t.faID(s.FA), s.Off.ID, s.Len.ID)
	if e := t.byKey[b.String()]; e != nil {
		return e.Out, e.Seg
	}
	e := &AbsEntry{ID: len(t.list), Prev: prev}
	if prev != nil {
		e.H = prev.H
		e.Segs = append(append([]Seg{}, prev.Segs...), s)
	} else {
		e.H = h
		e.Segs = []Seg{s}
	}
	for i := range e.Out {
		e.Out[i] = c.Var(32, fmt.Sprintf("absorb#%d.%d", e.ID, i))
		t.byNode[e.Out[i]] = e
	}
	e.Cum = c.Var(1, fmt.Sprintf("flagged#%d", e.ID))
	t.byNode[e.Cum] = e
	e.Seg = e.Cum
	if prev != nil {
		e.Seg = c.Var(1, fmt.Sprintf("flaggedseg#%d", e.ID))
		t.byNode[e.Seg] = e
	}
	t.list = append(t.list, e)
	t.byKey[b.String()] = e
	t.tuples = append(t.tuples, e.Out)
	return e.Out, e.Seg
}

func (e *AbsEntry) length(c *term.Ctx) N {
	l := e.Segs[0].Len
	for _, s := range e.Segs[1:] {
		l = c.Add(l, s.Len)
	}
	return l
}

// at gives byte i of the absorbed sequence.
func (t *AbsTheory) at(e *AbsEntry, i N) N {
	c := t.x.C
	var rec func(k int, base N) N
	rec = func(k int, base N) N {
		s := e.Segs[k]
		rel := c.Sub(i, base)
		if k == len(e.Segs)-1 {
			return t.x.Sel(s.FA, c.Add(rel, s.Off))
		}
		in := c.Ult(rel, s.Len)
		if in.IsTrue() {
			return t.x.Sel(s.FA, c.Add(rel, s.Off))
		}
		rest := rec(k+1, c.Add(base, s.Len))
		if in.IsFalse() {
			return rest
		}
		return c.Ite(in, t.x.Sel(s.FA, c.Add(rel, s.Off)), rest)
	}
	return rec(0, c.Const(i.W, 0))
}

// Facts lists the laws for the entries that occur below the given roots.
func (t *AbsTheory) entries(roots []N) []*AbsEntry {
	seen := map[*AbsEntry]bool{}
	var out []*AbsEntry
	var add func(e *AbsEntry)
	add = func(e *AbsEntry) {
		if e == nil || seen[e] {
			return
		}
		seen[e] = true
		add(e.Prev)
		out = append(out, e)
	}
	for _, n := range term.Topo(roots...) {
		if n.Op == term.Var {
			add(t.byNode[n])
		}
	}
	return out
}

func (t *AbsTheory) facts(es []*AbsEntry) []N {
	c := t.x.C
	var out []N
	add := func(n N) {
		if !n.IsTrue() {
			out = append(out, n)
		}
	}
	for _, e := range es {
		last := e.Segs[len(e.Segs)-1]
		empty := c.Eq(last.Len, c.Const(last.Len.W, 0))
		base := e.H
		if e.Prev != nil {
			base = e.Prev.Out
			add(c.Eq(e.Cum, c.Or(e.Prev.Cum, e.Seg)))
		}
		if !empty.IsFalse() {
			for i := range base {
				add(c.Implies(empty, c.Eq(e.Out[i], base[i])))
			}
			add(c.Implies(empty, c.Not(e.Seg)))
		}
	}
	return out
}

// same decides whether two entries absorb equal sequences from equal
// starting values under pc.
func (t *AbsTheory) same(pc []N, a, b *AbsEntry) bool {
	c, p := t.x.C, t.x.P
	valid := func(extra []N, goal N) bool {
		r := p.Valid(append(append([]N{}, pc...), extra...), goal)
		return r.Status == prove.Unsat
	}
	for i := range a.H {
		if !valid(nil, c.Eq(a.H[i], b.H[i])) {
			return false
		}
	}
	la, lb := a.length(c), b.length(c)
	if !valid(nil, c.Eq(la, lb)) {
		return false
	}
	if la.IsConst() && la.K <= 512 || lb.IsConst() && lb.K <= 512 {
		l := la
		if !l.IsConst() {
			l = lb
		}
		for i := uint64(0); i < l.K; i++ {
			k := c.Const(la.W, i)
			if !valid(nil, c.Eq(t.at(a, k), t.at(b, k))) {
				return false
			}
		}
		return true
	}
	i := c.Fresh(la.W, "i")
	return valid([]N{c.Ult(i, la)}, c.Eq(t.at(a, i), t.at(b, i)))
}

// Prove decides pc => goal in the theory.
func (x *Exec) Prove(pc []N, goals ...N) prove.Result {
	goal := x.C.True()
	for _, g := range goals {
		goal = x.C.And(goal, g)
	}
	if goal.IsTrue() {
		return x.P.Valid(nil, goal)
	}
	t := x.Abs
	pc = append(append([]N{}, x.Facts...), pc...)
	es := t.entries(append([]N{goal}, pc...))
	if len(es) == 0 {
		return x.P.ValidAll(pc, goal, goals)
	}
	// merge equal entries
	facts := t.facts(es)
	base := append(append([]N{}, pc...), facts...)
	sub := map[N]N{}
	for i := range es {
		for j := i + 1; j < len(es); j++ {
			a, b := es[i], es[j]
			if b.Prev == a || a.Prev == b {
				continue
			}
			if _, done := sub[b.Out[0]]; done {
				continue
			}
			if t.same(base, a, b) {
				for k := range a.Out {
					sub[b.Out[k]] = a.Out[k]
				}
				sub[b.Cum] = a.Cum
			}
		}
	}
	if len(sub) > 0 {
		all := append(append([]N{goal}, goals...), base...)
		all = x.C.Subst(sub, all...)
		goal, goals, base = all[0], all[1:len(goals)+1], all[len(goals)+1:]
	}
	return x.P.ValidAll(base, goal, goals)
}
