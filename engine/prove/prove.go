package prove

import (
	"fmt"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verif/engine/term"
)

type Stats struct {
	Goals     int           // validity goals posed
	BySimp    int           // closed by term normalisation alone
	BySolver  int           // closed by an SMT query
	Merges    int           // equalities of sub-terms proved on the way
	MergeSMT  int           // of those, by SMT
	Queries   int           // all SMT queries
	Solver    time.Duration // time spent in solvers
	Fallbacks int           // queries answered by a second solver
	Confirmed int           // unsat answers confirmed by cvc5 (thorough tier)
	Open      int           // unsat answers cvc5 did not decide in time
	Disagree  int           // unsat answers cvc5 contradicts
}

const nsim = 12

type Prover struct {
	C     *term.Ctx
	z     *Solver
	Stats Stats
	Limit time.Duration // per final query
	rep   map[*term.Node]*term.Node
	sims  []*term.Eval
	cand  map[uint64][]*term.Node
	Debug bool
	// Second has every unsat answer checked by cvc5 as well.
	Second bool
	fails  int
	// ByCaller counts queries and microseconds per call path, if not nil.
	ByCaller map[string][2]int64
	feas     map[string]bool
	sizes    map[*term.Node]int
}

func New(c *term.Ctx, seed uint64) *Prover {
	p := &Prover{C: c, z: &Solver{Path: "/usr/local/bin/z3-new", Args: []string{"-in", "-smt2"}}, Limit: 20 * time.Second,
		rep: map[*term.Node]*term.Node{}, cand: map[uint64][]*term.Node{}, feas: map[string]bool{}, sizes: map[*term.Node]int{}}
	if v := os.Getenv("SHA1VC_Z3"); v != "" {
		p.z.Path = v
	}
	for i := 0; i < nsim; i++ {
		e := term.NewEval(seed*1000003 + uint64(i))
		if i >= nsim/2 { // small values and sparse words as well
			k := uint64(i)
			e.Val = func(n *term.Node) uint64 {
				h := term.HashVal(n.Name, k*77+seed, nil)
				switch h % 4 {
				case 0:
					return h >> 8 & 0xff
				case 1:
					return h >> 8 & 3
				case 2:
					return 1 << (h >> 8 & 63)
				}
				return h >> 5
			}
		}
		p.sims = append(p.sims, e)
	}
	return p
}

func (p *Prover) Close() { p.z.Close() }

type Result struct {
	Status Status // Unsat: goal valid
	Model  map[*term.Node]uint64
	Sim    *term.Eval // set when the counterexample comes from simulation
	Note   string
}

func (r Result) Valid() bool { return r.Status == Unsat }

// Value gives the value of n in a counterexample.
func (r Result) Value(n *term.Node) (uint64, bool) {
	if r.Sim != nil {
		return r.Sim.Get(n), true
	}
	if n.Op == term.Const {
		return n.K, true
	}
	v, ok := r.Model[n]
	return v, ok
}

func (p *Prover) run(sc *Script, to time.Duration, model bool) (Status, map[*term.Node]uint64) {
	t0 := time.Now()
	st, m, err := p.z.Run(sc, to, model)
	p.Stats.Queries++
	p.Stats.Solver += time.Since(t0)
	if d := os.Getenv("SHA1VC_DUMP"); d != "" && time.Since(t0) > 200*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", d, p.Stats.Queries, time.Since(t0).Milliseconds()), []byte(sc.b.String()+"(check-sat)\n"), 0o644)
	}
	if p.ByCaller != nil {
		pcs := make([]uintptr, 24)
		k := ""
		fs := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
		for i := 0; i < 8; i++ {
			f, more := fs.Next()
			k += fmt.Sprintf(" %s:%d", f.Function[strings.LastIndex(f.Function, "/")+1:], f.Line)
			if !more {
				break
			}
		}
		c := p.ByCaller[k]
		p.ByCaller[k] = [2]int64{c[0] + 1, c[1] + time.Since(t0).Microseconds()}
	}
	if p.Debug && time.Since(t0) > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %v %v\n%s\n", time.Since(t0), st, debug.Stack())
	}
	if st == Unsat && p.Second {
		z := &Solver{Path: "cvc5", Args: []string{"--incremental", "--lang=smt2"}}
		st2, _, _ := z.Run(sc, 20*time.Second, false)
		z.Close()
		switch st2 {
		case Unsat:
			p.Stats.Confirmed++
		case Sat:
			p.Stats.Disagree++
			st = Unknown
		default:
			p.Stats.Open++
		}
	}
	if err != nil {
		if p.Debug {
			fmt.Fprintln(os.Stderr, "solver error:", err)
		}
	}
	return st, m
}

// depthCut returns a predicate that cuts the DAG below depth d of the roots.
func depthCut(d int, roots ...*term.Node) func(*term.Node) bool {
	depth := map[*term.Node]int{}
	cur := roots
	for _, r := range roots {
		depth[r] = 0
	}
	for k := 1; k <= d; k++ {
		var next []*term.Node
		for _, n := range cur {
			for _, a := range n.A {
				if _, ok := depth[a]; !ok {
					depth[a] = k
					next = append(next, a)
				}
			}
		}
		cur = next
	}
	return func(n *term.Node) bool {
		k, ok := depth[n]
		return !ok || k >= d
	}
}

func (p *Prover) sig(n *term.Node) (uint64, bool) {
	h := uint64(n.W) * 0x9e3779b97f4a7c15
	same := true
	var first uint64
	for i, e := range p.sims {
		v := e.Get(n)
		if i == 0 {
			first = v
		} else if v != first {
			same = false
		}
		h = (bits.RotateLeft64(h, 13) ^ v) * 0xff51afd7ed558ccd
		h ^= h >> 29
	}
	return h, same
}

// flat: the samples say little about n.
func (p *Prover) flat(n *term.Node) bool {
	cnt := map[uint64]int{}
	for _, e := range p.sims {
		cnt[e.Get(n)]++
	}
	for _, c := range cnt {
		if n.W > 1 && c*3 > len(p.sims)*2 {
			return true
		}
	}
	return false
}

// Rep returns the representative of n, merging proved-equal sub-terms.
func (p *Prover) Rep(root *term.Node) *term.Node {
	if r, ok := p.rep[root]; ok {
		return r
	}
	var todo []*term.Node
	seen := map[*term.Node]bool{}
	type fr struct {
		n *term.Node
		i int
	}
	st := []fr{{root, 0}}
	seen[root] = true
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.n.A) {
			a := f.n.A[f.i]
			f.i++
			if !seen[a] {
				seen[a] = true
				if _, ok := p.rep[a]; !ok {
					st = append(st, fr{a, 0})
				}
			}
			continue
		}
		todo = append(todo, f.n)
		st = st[:len(st)-1]
	}
	for _, n := range todo {
		if _, ok := p.rep[n]; ok {
			continue
		}
		p.rep[n] = p.repOne(n)
	}
	return p.rep[root]
}

func (p *Prover) get(n *term.Node) *term.Node {
	if r, ok := p.rep[n]; ok {
		return r
	}
	return p.Rep(n)
}

func (p *Prover) repOne(n *term.Node) *term.Node {
	if n.Op == term.Const || n.Op == term.Var {
		return n
	}
	same := true
	a := make([]*term.Node, len(n.A))
	for i, x := range n.A {
		a[i] = p.get(x)
		if a[i] != x {
			same = false
		}
	}
	m := n
	if !same {
		m = p.C.Rebuild(n, a)
		if m != n {
			if r, ok := p.rep[m]; ok {
				p.Stats.Merges++
				return r
			}
			if m.Op == term.Const || m.Op == term.Var {
				return m
			}
			r := p.Rep(m)
			return r
		}
	}
	// m is a new representative candidate
	s, konst := p.sig(m)
	if konst || p.flat(m) || m.Op == term.Extract || m.Op == term.Concat {
		return m
	}
	cs := p.cand[s]
	tries := 0
	for i := len(cs) - 1; i >= 0 && tries < 2; i-- {
		o := cs[i]
		if o.W != m.W {
			continue
		}
		tries++
		if p.equal(m, o) {
			p.Stats.Merges++
			p.Stats.MergeSMT++
			return o
		}
	}
	p.cand[s] = append(p.cand[s], m)
	return m
}

func (p *Prover) equal(a, b *term.Node) bool {
	if p.fails > 400 {
		return false
	}
	for _, d := range []int{2, 4, 7, 12} {
		sc := newScript()
		cut := depthCut(d, a, b)
		x, y := sc.define(a, cut), sc.define(b, cut)
		fmt.Fprintf(&sc.b, "(assert (not (= %s %s)))\n", x, y)
		st, _ := p.run(sc, 400*time.Millisecond, false)
		if st == Unsat {
			return true
		}
		if st == Unknown {
			break
		}
	}
	p.fails++
	return false
}

// Valid decides assumptions => goal.
// ValidAll decides a conjunction: as a whole if that is quick, else part by part.
func (p *Prover) ValidAll(assume []*term.Node, goal *term.Node, parts []*term.Node) Result {
	if len(parts) < 2 {
		return p.Valid(assume, goal)
	}
	sc := newScript()
	for _, a := range assume {
		sc.assert(a, true, nil)
	}
	sc.assert(goal, false, nil)
	if st, m := p.run(sc, 3*time.Second, true); st == Unsat {
		p.Stats.Goals++
		p.Stats.BySolver++
		return Result{Status: Unsat}
	} else if st == Sat {
		return Result{Status: Sat, Model: m, Note: "solver"}
	}
	for _, g := range parts {
		if r := p.Valid(assume, g); !r.Valid() {
			return r
		}
	}
	return Result{Status: Unsat}
}

func (p *Prover) Valid(assume []*term.Node, goal *term.Node) Result {
	p.Stats.Goals++
	if goal.IsTrue() {
		p.Stats.BySimp++
		return Result{Status: Unsat}
	}
	for _, a := range assume {
		if a.IsFalse() {
			p.Stats.BySimp++
			return Result{Status: Unsat}
		}
	}
	// random simulation first: a failed sample is a counterexample
	for _, e := range p.sims {
		ok := true
		for _, a := range assume {
			if e.Get(a) == 0 {
				ok = false
				break
			}
		}
		if ok && e.Get(goal) == 0 {
			return Result{Status: Sat, Sim: e, Note: "simulation"}
		}
	}
	// large conditions are data: most goals about control do not need them
	if p.size(goal) <= 300 {
		var small []*term.Node
		for _, a := range assume {
			if p.size(a) <= 120 {
				small = append(small, a)
			}
		}
		if len(small) < len(assume) {
			sc := newScript()
			for _, a := range small {
				sc.assert(a, true, nil)
			}
			sc.assert(goal, false, nil)
			if st, _ := p.run(sc, 2*time.Second, false); st == Unsat {
				p.Stats.BySolver++
				return Result{Status: Unsat}
			}
		}
	}
	size := len(term.Topo(append([]*term.Node{goal}, assume...)...))
	if size > 400 {
		// the boolean structure over atoms common to both sides
		sc := newScript()
		cut := p.atomCut(append([]*term.Node{goal}, assume...))
		for _, a := range assume {
			sc.assert(a, true, cut)
		}
		sc.assert(goal, false, cut)
		if st, _ := p.run(sc, 2*time.Second, false); st == Unsat {
			p.Stats.BySolver++
			return Result{Status: Unsat}
		}
	}
	if size > 250 {
		sc := newScript()
		for _, a := range assume {
			sc.assert(a, true, nil)
		}
		sc.assert(goal, false, nil)
		if st, m := p.run(sc, 5*time.Second, true); st == Unsat {
			p.Stats.BySolver++
			return Result{Status: Unsat}
		} else if st == Sat {
			return Result{Status: Sat, Model: m, Note: "solver"}
		}
		g2 := p.Rep(goal)
		as2 := make([]*term.Node, len(assume))
		for i, a := range assume {
			as2[i] = p.Rep(a)
		}
		goal, assume = g2, as2
		if goal.IsTrue() {
			p.Stats.BySimp++
			return Result{Status: Unsat}
		}
		for _, a := range assume {
			if a.IsFalse() {
				return Result{Status: Unsat}
			}
		}
		size = len(term.Topo(append([]*term.Node{goal}, assume...)...))
	}
	depths := []int{0}
	if size > 400 {
		depths = []int{4, 8, 14, 25, 0}
	}
	for _, d := range depths {
		sc := newScript()
		var cut func(*term.Node) bool
		to := p.Limit
		if d > 0 {
			cut = depthCut(d, append([]*term.Node{goal}, assume...)...)
			to = 4 * time.Second
		}
		for _, a := range assume {
			sc.assert(a, true, cut)
		}
		sc.assert(goal, false, cut)
		st, m := p.run(sc, to, d == 0)
		if st == Unsat {
			p.Stats.BySolver++
			return Result{Status: Unsat}
		}
		if d == 0 {
			if st == Unknown {
				st, m = p.fallback(assume, goal)
				if st == Unsat {
					p.Stats.BySolver++
					p.Stats.Fallbacks++
				}
			}
			return Result{Status: st, Model: m, Note: "solver"}
		}
	}
	return Result{Status: Unknown}
}

// atomCut cuts large comparisons and the applications of uninterpreted functions.
func (p *Prover) atomCut(roots []*term.Node) func(*term.Node) bool {
	big := map[*term.Node]bool{}
	weight := map[*term.Node]int{}
	over := map[*term.Node]bool{} // contains an atom
	for _, n := range term.Topo(roots...) {
		w := 1
		if n.Op != term.App {
			for _, a := range n.A {
				w += weight[a]
				over[n] = over[n] || over[a]
				if w > 1000 {
					w = 1000
				}
			}
		}
		weight[n] = w
		if n.Op == term.App || (n.Op == term.Eq || n.Op == term.Ult) && w > 60 && !over[n] {
			big[n] = true
			over[n] = n.Op != term.App
			weight[n] = 1
		}
	}
	return func(n *term.Node) bool { return big[n] }
}

func (p *Prover) fallback(assume []*term.Node, goal *term.Node) (Status, map[*term.Node]uint64) {
	for _, s := range []*Solver{{Path: "/usr/bin/z3", Args: []string{"-in", "-smt2"}}, {Path: "cvc5", Args: []string{"--incremental", "--lang=smt2"}}} {
		sc := newScript()
		for _, a := range assume {
			sc.assert(a, true, nil)
		}
		sc.assert(goal, false, nil)
		t0 := time.Now()
		st, m, err := s.Run(sc, p.Limit, true)
		p.Stats.Queries++
		p.Stats.Solver += time.Since(t0)
		s.Close()
		if err == nil && st != Unknown {
			return st, m
		}
	}
	return Unknown, nil
}

// Feasible reports whether the conjunction may be satisfiable. Large
// conditions are data, not control, and are dropped: exploring an infeasible
// path is only a cost, because every obligation carries its path condition.
func (p *Prover) Feasible(conj []*term.Node) bool {
	var small []*term.Node
	for _, a := range conj {
		if a.IsFalse() {
			return false
		}
		if p.size(a) <= 120 {
			small = append(small, a)
		}
	}
	if len(conj) == 0 {
		return true
	}
	if last := conj[len(conj)-1]; len(small) == 0 || small[len(small)-1] != last {
		return true
	}
	key := ""
	for _, a := range small {
		key += fmt.Sprintf("%d,", a.ID)
	}
	if r, ok := p.feas[key]; ok {
		return r
	}
	r := p.feasible(small)
	p.feas[key] = r
	return r
}

func (p *Prover) feasible(conj []*term.Node) bool {
	for _, e := range p.sims {
		ok := true
		for _, a := range conj {
			if e.Get(a) == 0 {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	sc := newScript()
	for _, a := range conj {
		sc.assert(a, true, nil)
	}
	st, _ := p.run(sc, 2*time.Second, false)
	return st != Unsat
}

func (p *Prover) Size(n *term.Node) int { return p.size(n) }

func (p *Prover) size(n *term.Node) int {
	if s, ok := p.sizes[n]; ok {
		return s
	}
	s := len(term.Topo(n))
	p.sizes[n] = s
	return s
}
