// Package term holds the hash-consed bit-vector terms of the verification
// conditions. Width 1 is the Boolean sort. Constructors simplify; every
// simplification is an identity of fixed-width machine arithmetic, checked
// by term_test.go against direct evaluation.
package term

import (
	"fmt"
	"math/bits"
	"sort"
)

type Op uint8

const (
	Const Op = iota
	Var
	App // uninterpreted function Name of A
	Xor // n-ary exclusive or of A and constant K
	Lut // bitwise function (truth table K) of at most 4 arguments
	Add // linear sum: sum C[i]*A[i] + K
	Mul
	UDiv
	URem
	SDiv
	SRem
	Shl
	Lshr
	Ashr
	Concat  // A[0] is most significant
	Extract // bits K .. K+W-1 of A[0]
	SExt
	Ite
	Eq
	Ult
	Slt
)

var opNames = [...]string{"const", "var", "app", "xor", "lut", "add", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "concat", "extract", "sext", "ite", "eq", "ult", "slt"}

func (o Op) String() string { return opNames[o] }

type Node struct {
	Op   Op
	W    int
	K    uint64
	A    []*Node
	C    []uint64
	Name string
	ID   int
	hash uint64
	max  uint64 // unsigned upper bound
}

type Ctx struct {
	tab   map[uint64][]*Node
	Nodes []*Node
	fresh int
	ext   map[extKey]*Node
}

type extKey struct{ id, lo, w int }

func New() *Ctx { return &Ctx{tab: map[uint64][]*Node{}, ext: map[extKey]*Node{}} }

func Mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>33
}

func (c *Ctx) intern(n Node) *Node {
	h := mix(uint64(n.Op)<<8|uint64(n.W), n.K)
	for _, a := range n.A {
		h = mix(h, uint64(a.ID))
	}
	for _, k := range n.C {
		h = mix(h, k)
	}
	for i := 0; i < len(n.Name); i++ {
		h = mix(h, uint64(n.Name[i]))
	}
	for _, m := range c.tab[h] {
		if m.Op == n.Op && m.W == n.W && m.K == n.K && m.Name == n.Name && len(m.A) == len(n.A) && len(m.C) == len(n.C) {
			ok := true
			for i := range m.A {
				if m.A[i] != n.A[i] {
					ok = false
					break
				}
			}
			for i := range m.C {
				if m.C[i] != n.C[i] {
					ok = false
					break
				}
			}
			if ok {
				return m
			}
		}
	}
	if n.W < 1 || n.W > 64 {
		panic(fmt.Sprintf("term: width %d", n.W))
	}
	p := new(Node)
	*p = n
	p.hash = h
	p.ID = len(c.Nodes)
	p.max = c.upper(p)
	c.Nodes = append(c.Nodes, p)
	c.tab[h] = append(c.tab[h], p)
	return p
}

func (c *Ctx) upper(n *Node) uint64 {
	m := Mask(n.W)
	switch n.Op {
	case Const:
		return n.K
	case Concat:
		var u uint64
		for _, a := range n.A {
			if a.W == 64 {
				u = a.max
			} else {
				u = u<<uint(a.W) | a.max
			}
		}
		return u
	case Extract:
		if n.K == 0 && n.A[0].max < m {
			return n.A[0].max
		}
		if n.A[0].max>>n.K < m {
			return n.A[0].max >> n.K
		}
	case Ite:
		if n.A[1].max > n.A[2].max {
			return n.A[1].max
		}
		return n.A[2].max
	case URem:
		if n.A[1].Op == Const && n.A[1].K > 0 {
			return n.A[1].K - 1
		}
	case UDiv:
		if n.A[1].Op == Const && n.A[1].K > 0 {
			return n.A[0].max / n.A[1].K
		}
	case Add:
		// no wrap if the exact sum of the bounds fits
		s := n.K
		for i, a := range n.A {
			k := n.C[i]
			if k != 0 && a.max > (^uint64(0)>>1)/k {
				return m
			}
			t := k * a.max
			if s+t < s {
				return m
			}
			s += t
		}
		if s <= m {
			return s
		}
	case Lshr:
		return n.A[0].max
	}
	return m
}

func (n *Node) IsConst() bool { return n.Op == Const }
func (n *Node) IsTrue() bool  { return n.Op == Const && n.W == 1 && n.K == 1 }
func (n *Node) IsFalse() bool { return n.Op == Const && n.W == 1 && n.K == 0 }
func (n *Node) Max() uint64   { return n.max }

func (c *Ctx) Const(w int, k uint64) *Node {
	return c.intern(Node{Op: Const, W: w, K: k & Mask(w)})
}
func (c *Ctx) Bool(b bool) *Node {
	if b {
		return c.Const(1, 1)
	}
	return c.Const(1, 0)
}
func (c *Ctx) True() *Node  { return c.Const(1, 1) }
func (c *Ctx) False() *Node { return c.Const(1, 0) }
func (c *Ctx) Var(w int, name string) *Node {
	return c.intern(Node{Op: Var, W: w, Name: name})
}
func (c *Ctx) Fresh(w int, prefix string) *Node {
	c.fresh++
	return c.Var(w, fmt.Sprintf("%s!%d", prefix, c.fresh))
}
func (c *Ctx) App(w int, name string, args ...*Node) *Node {
	return c.intern(Node{Op: App, W: w, Name: name, A: append([]*Node(nil), args...)})
}

// ---------------------------------------------------------------- bitwise

func isAll(n *Node) bool { return n.Op == Const && n.K == Mask(n.W) }
func isZero(n *Node) bool {
	return n.Op == Const && n.K == 0
}

// leavesOf gives the bitwise leaves of n (at most 4) and its truth table.
func leavesOf(n *Node) ([]*Node, uint16) {
	switch n.Op {
	case Lut:
		return n.A, uint16(n.K)
	case Xor:
		if len(n.A) <= 4 && (n.K == 0 || n.K == Mask(n.W)) {
			var tt uint16
			for i := 0; i < 16; i++ {
				v := 0
				for j := range n.A {
					v ^= i >> uint(j) & 1
				}
				if n.K != 0 {
					v ^= 1
				}
				tt |= uint16(v) << uint(i)
			}
			return n.A, tt
		}
	}
	return []*Node{n}, 0xaaaa
}

// remap expresses a truth table over leaves in terms of the union leaves.
func remap(tt uint16, leaves, union []*Node) uint16 {
	var pos [4]int
	for i, l := range leaves {
		for j, u := range union {
			if l == u {
				pos[i] = j
			}
		}
	}
	var out uint16
	for i := 0; i < 16; i++ {
		idx := 0
		for j := range leaves {
			idx |= (i >> uint(pos[j]) & 1) << uint(j)
		}
		out |= (tt >> uint(idx) & 1) << uint(i)
	}
	return out
}

func unionLeaves(a, b []*Node) []*Node {
	out := make([]*Node, 0, 8)
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i].ID < b[j].ID:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].ID < a[i].ID:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

// fromTT builds the canonical node for truth table tt over sorted leaves.
func (c *Ctx) fromTT(w int, leaves []*Node, tt uint16) *Node {
	// constant leaves 0 / all ones and non-support leaves go away
	var keep []*Node
	for j := 0; j < len(leaves); j++ {
		dep := false
		for i := 0; i < 16; i++ {
			if i>>uint(j)&1 == 0 && (tt>>uint(i)&1) != (tt>>uint(i|1<<uint(j))&1) {
				dep = true
			}
		}
		if dep {
			keep = append(keep, leaves[j])
		}
	}
	// pad unused variables to duplicates: project
	if len(keep) != len(leaves) {
		var nt uint16
		for i := 0; i < 16; i++ {
			idx := 0
			for k, l := range keep {
				for j, u := range leaves {
					if u == l {
						idx |= (i >> uint(k) & 1) << uint(j)
					}
				}
			}
			nt |= (tt >> uint(idx) & 1) << uint(i)
		}
		tt = nt
		leaves = keep
	}
	n := len(leaves)
	if n == 0 {
		if tt&1 != 0 {
			return c.Const(w, Mask(w))
		}
		return c.Const(w, 0)
	}
	// affine?
	base := tt & 1
	aff := true
	for i := 0; i < 16 && aff; i++ {
		v := int(base)
		for j := 0; j < n; j++ {
			v ^= i >> uint(j) & 1
		}
		if int(tt>>uint(i)&1) != v {
			aff = false
		}
	}
	if aff {
		k := uint64(0)
		if base != 0 {
			k = Mask(w)
		}
		return c.rawXor(w, leaves, k)
	}
	return c.intern(Node{Op: Lut, W: w, K: uint64(tt), A: leaves})
}

func (c *Ctx) rawXor(w int, leaves []*Node, k uint64) *Node {
	if len(leaves) == 0 {
		return c.Const(w, k)
	}
	if len(leaves) == 1 && k == 0 {
		return leaves[0]
	}
	return c.intern(Node{Op: Xor, W: w, K: k & Mask(w), A: leaves})
}

type cut struct{ lo, w int }

// parts splits n at its concat boundaries, least significant first.
func bounds(n *Node) []int {
	b := []int{0}
	if n.Op == Concat {
		p := 0
		for i := len(n.A) - 1; i >= 0; i-- {
			p += n.A[i].W
			b = append(b, p)
		}
		return b
	}
	if n.Op == Const && n.K != 0 && n.K != Mask(n.W) {
		for i := 1; i < n.W; i++ {
			if n.K>>uint(i)&1 != n.K>>uint(i-1)&1 {
				b = append(b, i)
			}
		}
	}
	return append(b, n.W)
}

func mergeBounds(a, b []int) []int {
	m := append(append([]int{}, a...), b...)
	sort.Ints(m)
	out := m[:0]
	for i, v := range m {
		if i == 0 || v != out[len(out)-1] {
			out = append(out, v)
		}
	}
	return out
}

func (c *Ctx) bitop(tt uint16, a, b *Node) *Node { // tt over (a=bit0,b=bit1), low 4 bits
	if a.W != b.W {
		panic(fmt.Sprintf("term: bitwise widths %d %d", a.W, b.W))
	}
	w := a.W
	f := func(x, y int) uint16 { return tt >> uint(x|y<<1) & 1 }
	if a.Op == Const && b.Op == Const {
		var k uint64
		for i := 0; i < w; i++ {
			k |= uint64(f(int(a.K>>uint(i)&1), int(b.K>>uint(i)&1))) << uint(i)
		}
		return c.Const(w, k)
	}
	if a == b {
		switch {
		case f(0, 0) == 0 && f(1, 1) == 1:
			return a
		case f(0, 0) == 0 && f(1, 1) == 0:
			return c.Const(w, 0)
		case f(0, 0) == 1 && f(1, 1) == 1:
			return c.Const(w, Mask(w))
		}
		return c.Not(a)
	}
	if a.Op == Const {
		a, b = b, a
		tt = tt&9 | tt>>1&2 | tt<<1&4
		f = func(x, y int) uint16 { return tt >> uint(x|y<<1) & 1 }
	}
	if b.Op == Const && (b.K == 0 || b.K == Mask(w)) {
		y := 0
		if b.K != 0 {
			y = 1
		}
		v0, v1 := f(0, y), f(1, y)
		switch {
		case v0 == 0 && v1 == 1:
			return a
		case v0 == 0 && v1 == 0:
			return c.Const(w, 0)
		case v0 == 1 && v1 == 1:
			return c.Const(w, Mask(w))
		}
		return c.Not(a)
	}
	isXor := tt&15 == 6
	if b.Op == Const { // mixed constant
		if !isXor {
			// and/or-like: piecewise
			bs := mergeBounds(bounds(a), bounds(b))
			return c.piecewise(tt, a, b, bs)
		}
		if a.Op == Concat {
			bs := mergeBounds(bounds(a), bounds(b))
			if c.allConstSide(a, b, bs) && len(bs) <= len(bounds(a)) {
				return c.piecewise(tt, a, b, bs)
			}
		}
		if a.Op == Xor {
			return c.rawXor(w, a.A, a.K^b.K)
		}
		return c.rawXor(w, []*Node{a}, b.K)
	}
	if w > 1 && (a.Op == Concat || b.Op == Concat) {
		bs := mergeBounds(bounds(a), bounds(b))
		if c.allConstSide(a, b, bs) || c.bitty(a, b, bs) {
			return c.piecewise(tt, a, b, bs)
		}
	}
	if w > 1 && a.Op == SExt && b.Op == SExt && a.A[0].W == 1 && b.A[0].W == 1 {
		return c.SExt(c.bitop(tt, a.A[0], b.A[0]), w)
	}
	if isXor {
		// collect atoms
		cnt := map[*Node]bool{}
		var k uint64
		var atoms []*Node
		add := func(n *Node) {
			xs := []*Node{n}
			if n.Op == Xor {
				xs = n.A
				k ^= n.K
			}
			for _, x := range xs {
				cnt[x] = !cnt[x]
				atoms = append(atoms, x)
			}
		}
		add(a)
		add(b)
		var out []*Node
		seen := map[*Node]bool{}
		for _, x := range atoms {
			if cnt[x] && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
		if len(out) == 0 {
			return c.Const(w, k)
		}
		if k == 0 || k == Mask(w) {
			var lv []*Node
			var t uint16
			ok := true
			for _, x := range out {
				l, xt := leavesOf(x)
				u := unionLeaves(lv, l)
				if len(u) > 4 {
					ok = false
					break
				}
				t = remap(t, lv, u) ^ remap(xt, l, u)
				lv = u
			}
			if ok {
				if k != 0 {
					t = ^t
				}
				return c.fromTT(w, lv, t)
			}
		}
		return c.rawXor(w, out, k)
	}
	la, ta := leavesOf(a)
	lb, tb := leavesOf(b)
	u := unionLeaves(la, lb)
	if len(u) > 4 {
		// flatten only one side if that fits
		if u2 := unionLeaves(la, []*Node{b}); len(u2) <= 4 && len(la) <= len(lb) {
			lb, tb, u = []*Node{b}, 0xaaaa, u2
		} else if u2 := unionLeaves([]*Node{a}, lb); len(u2) <= 4 {
			la, ta, u = []*Node{a}, 0xaaaa, u2
		} else {
			la, ta, lb, tb = []*Node{a}, 0xaaaa, []*Node{b}, 0xaaaa
			u = unionLeaves(la, lb)
		}
	}
	x, y := remap(ta, la, u), remap(tb, lb, u)
	var t uint16
	for i := 0; i < 16; i++ {
		t |= f(int(x>>uint(i)&1), int(y>>uint(i)&1)) << uint(i)
	}
	return c.fromTT(w, u, t)
}

func (c *Ctx) constSide(a *Node, lo, w int) (bool, uint64) {
	p := c.Extract(a, lo, w)
	return p.Op == Const, p.K
}

func (c *Ctx) allConstSide(a, b *Node, bs []int) bool {
	if len(bs) > 40 {
		return false
	}
	for i := 0; i+1 < len(bs); i++ {
		x, _ := c.constSide(a, bs[i], bs[i+1]-bs[i])
		y, _ := c.constSide(b, bs[i], bs[i+1]-bs[i])
		if !x && !y {
			return false
		}
	}
	return true
}

// bitty: both sides split into single bits or constants (bit-sliced masks).
func (c *Ctx) bitty(a, b *Node, bs []int) bool {
	if len(bs) < 5 {
		return false
	}
	n := 0
	for i := 0; i+1 < len(bs); i++ {
		w := bs[i+1] - bs[i]
		if w == 1 {
			n++
		}
	}
	return n*3 >= len(bs)
}

func (c *Ctx) piecewise(tt uint16, a, b *Node, bs []int) *Node {
	var parts []*Node
	for i := len(bs) - 2; i >= 0; i-- {
		lo, w := bs[i], bs[i+1]-bs[i]
		x, y := c.Extract(a, lo, w), c.Extract(b, lo, w)
		parts = append(parts, c.bitop(tt, x, y))
	}
	return c.Concat(parts...)
}

func (c *Ctx) And(a, b *Node) *Node { return c.bitop(8, a, b) }
func (c *Ctx) Or(a, b *Node) *Node  { return c.bitop(14, a, b) }
func (c *Ctx) Xor(a, b *Node) *Node { return c.bitop(6, a, b) }
func (c *Ctx) Not(a *Node) *Node {
	switch a.Op {
	case Const:
		return c.Const(a.W, ^a.K)
	case Xor:
		return c.rawXor(a.W, a.A, ^a.K&Mask(a.W))
	case Lut:
		return c.intern(Node{Op: Lut, W: a.W, K: uint64(^uint16(a.K)), A: a.A})
	case Concat:
		rot := true // a rotation is one operand, not pieces
		for _, x := range a.A {
			if x.Op != Extract || x.W == 1 {
				rot = false
			}
		}
		if rot {
			break
		}
		parts := make([]*Node, len(a.A))
		for i, x := range a.A {
			parts[i] = c.Not(x)
		}
		return c.Concat(parts...)
	case SExt:
		return c.SExt(c.Not(a.A[0]), a.W)
	case Ite:
		if a.A[1].Op == Const && a.A[2].Op == Const {
			return c.Ite(a.A[0], c.Not(a.A[1]), c.Not(a.A[2]))
		}
	}
	return c.rawXor(a.W, []*Node{a}, Mask(a.W))
}
func (c *Ctx) Implies(a, b *Node) *Node { return c.Or(c.Not(a), b) }
func (c *Ctx) AndN(xs ...*Node) *Node {
	r := c.True()
	for _, x := range xs {
		r = c.And(r, x)
	}
	return r
}
func (c *Ctx) OrN(xs ...*Node) *Node {
	r := c.False()
	for _, x := range xs {
		r = c.Or(r, x)
	}
	return r
}

// ---------------------------------------------------------------- structure

// bitLeaves: taking one bit of each leaf costs nothing.
func bitLeaves(xs []*Node) bool {
	atom := func(x *Node) bool {
		return x.Op == Var || x.Op == Const || x.Op == Extract && (x.A[0].Op == Var || x.A[0].Op == App)
	}
	for _, x := range xs {
		if atom(x) {
			continue
		}
		if x.Op != Concat {
			return false
		}
		for _, y := range x.A {
			if !atom(y) || y.Op == Var {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) Extract(a *Node, lo, w int) *Node {
	if lo == 0 && w == a.W {
		return a
	}
	switch a.Op {
	case Ite, Xor, Lut: // shared below: without a memory of it, exponential
		k := extKey{a.ID, lo, w}
		r, ok := c.ext[k]
		if !ok {
			r = c.extract(a, lo, w)
			c.ext[k] = r
		}
		return r
	}
	return c.extract(a, lo, w)
}

func (c *Ctx) extract(a *Node, lo, w int) *Node {
	if lo < 0 || w < 1 || lo+w > a.W {
		panic(fmt.Sprintf("term: extract %d+%d of %d", lo, w, a.W))
	}
	switch a.Op {
	case Const:
		return c.Const(w, a.K>>uint(lo))
	case Extract:
		return c.Extract(a.A[0], int(a.K)+lo, w)
	case Concat:
		var parts []*Node
		p := a.W
		for _, x := range a.A {
			p -= x.W
			// x covers bits p .. p+x.W-1
			l, h := lo, lo+w
			if l < p {
				l = p
			}
			if h > p+x.W {
				h = p + x.W
			}
			if l < h {
				parts = append(parts, c.Extract(x, l-p, h-l))
			}
		}
		return c.Concat(parts...)
	case SExt:
		s := a.A[0]
		if lo+w <= s.W {
			return c.Extract(s, lo, w)
		}
		if s.W == 1 {
			return c.SExt(s, w)
		}
		if lo == 0 && w > s.W {
			return c.SExt(s, w)
		}
	case Xor, Lut:
		if w == 1 && a.W > 1 && bitLeaves(a.A) {
			l, tt := a.A, uint16(a.K)
			if a.Op == Xor {
				r := c.Const(1, a.K>>uint(lo))
				for _, x := range l {
					r = c.Xor(r, c.Extract(x, lo, 1))
				}
				return r
			}
			xs := make([]*Node, len(l))
			for i, x := range l {
				xs[i] = c.Extract(x, lo, 1)
			}
			return c.applyTT(tt, xs)
		}
	case Ite:
		if a.A[1].Op == Const && a.A[2].Op == Const || w == 1 {
			return c.Ite(a.A[0], c.Extract(a.A[1], lo, w), c.Extract(a.A[2], lo, w))
		}
		x, y := c.Extract(a.A[1], lo, w), c.Extract(a.A[2], lo, w)
		if x == y {
			return x
		}
	case Add:
		if lo == 6 && lo+w == a.W && len(a.A) <= 2 && a.K>>6 != 0 {
			// block counts: whole blocks leave the quotient
			r := c.Const(a.W, a.K&63)
			for i, x := range a.A {
				r = c.lin(a.W, r, 1, x, a.C[i])
			}
			return c.Add(c.Extract(r, lo, w), c.Const(w, a.K>>6))
		}
		if lo == 0 {
			// truncation distributes over the ring operations
			cheap := true
			for _, x := range a.A {
				if x.Op != Concat && x.Op != Extract && x.Op != SExt {
					cheap = false
				}
			}
			if cheap {
				r := c.Const(w, a.K)
				for i, x := range a.A {
					r = c.Add(r, c.MulC(c.Extract(x, 0, w), a.C[i]))
				}
				return r
			}
		}
	}
	return c.intern(Node{Op: Extract, W: w, K: uint64(lo), A: []*Node{a}})
}

// applyTT applies a truth table to width-1 arguments.
func (c *Ctx) applyTT(tt uint16, xs []*Node) *Node {
	n := len(xs)
	if n == 0 {
		return c.Const(1, uint64(tt&1))
	}
	// Shannon on the last variable
	half := uint(1) << uint(n-1)
	m := uint16(1<<half - 1)
	lo, hi := tt&m, tt>>half&m
	if lo == hi {
		return c.applyTT(lo, xs[:n-1])
	}
	// try direct leaves combination
	allDistinctAtoms := true
	seen := map[*Node]bool{}
	for _, x := range xs {
		if x.Op == Const || x.Op == Xor || x.Op == Lut || seen[x] {
			allDistinctAtoms = false
		}
		seen[x] = true
	}
	if allDistinctAtoms {
		type p struct {
			n *Node
			i int
		}
		ps := make([]p, n)
		for i, x := range xs {
			ps[i] = p{x, i}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].n.ID < ps[j].n.ID })
		lv := make([]*Node, n)
		for i := range ps {
			lv[i] = ps[i].n
		}
		var t uint16
		for i := 0; i < 16; i++ {
			idx := 0
			for k := range ps {
				idx |= (i >> uint(k) & 1) << uint(ps[k].i)
			}
			t |= (tt >> uint(idx) & 1) << uint(i)
		}
		return c.fromTT(1, lv, t)
	}
	return c.Ite(xs[n-1], c.applyTT(hi, xs[:n-1]), c.applyTT(lo, xs[:n-1]))
}

func (c *Ctx) Concat(parts ...*Node) *Node {
	var out []*Node
	w := 0
	var push func(x *Node)
	push = func(x *Node) {
		if x.Op == Concat {
			for _, y := range x.A {
				push(y)
			}
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			switch {
			case l.Op == Const && x.Op == Const:
				out = out[:len(out)-1]
				push(c.Const(l.W+x.W, l.K<<uint(x.W)|x.K))
				return
			case l.Op == Extract && x.Op == Extract && l.A[0] == x.A[0] && int(l.K) == int(x.K)+x.W:
				out = out[:len(out)-1]
				push(c.Extract(l.A[0], int(x.K), l.W+x.W))
				return
			case l.Op == Extract && x.Op == Extract && l.A[0].Op != Var && l.A[0] == x.A[0]:
			case l.W == 1 && x.W > 1 && x.Op == SExt && x.A[0] == l:
				out = out[:len(out)-1]
				push(c.SExt(l, x.W+1))
				return
			case x.W == 1 && l.Op == SExt && l.A[0] == x:
				out = out[:len(out)-1]
				push(c.SExt(x, l.W+1))
				return
			case l.Op == SExt && x.Op == SExt && l.A[0] == x.A[0] && x.A[0].W == 1:
				out = out[:len(out)-1]
				push(c.SExt(x.A[0], l.W+x.W))
				return
			case l.Op == Ite && x.Op == Ite && l.A[0] == x.A[0] && l.W+x.W <= 64:
				p, q := c.Concat(l.A[1], x.A[1]), c.Concat(l.A[2], x.A[2])
				if p.Op != Concat && q.Op != Concat {
					out = out[:len(out)-1]
					push(c.Ite(l.A[0], p, q))
					return
				}
			}
		}
		out = append(out, x)
	}
	for _, p := range parts {
		w += p.W
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 2 && out[1].Op == Const && out[1].W == 6 && out[1].K == 0 && out[0].Op == Add && out[0].K != 0 {
		q := out[0]
		r := c.Sub(q, c.Const(q.W, q.K))
		return c.Add(c.Concat(r, out[1]), c.Const(w, q.K<<6))
	}
	// the parts of one term, the lower ones in a form of their own
	if h := out[0]; h.Op == Extract && h.A[0].W == w && int(h.K)+h.W == w {
		ok := true
		lo := w - h.W
		for _, p := range out[1:] {
			lo -= p.W
			if c.Extract(h.A[0], lo, p.W) != p {
				ok = false
				break
			}
		}
		if ok {
			return h.A[0]
		}
	}
	return c.intern(Node{Op: Concat, W: w, A: out})
}

func (c *Ctx) ZExt(a *Node, w int) *Node {
	if w == a.W {
		return a
	}
	if w < a.W {
		return c.Extract(a, 0, w)
	}
	return c.Concat(c.Const(w-a.W, 0), a)
}

func (c *Ctx) SExt(a *Node, w int) *Node {
	if w == a.W {
		return a
	}
	if w < a.W {
		return c.Extract(a, 0, w)
	}
	if a.Op == Const {
		k := a.K
		if k>>uint(a.W-1)&1 != 0 {
			k |= ^Mask(a.W)
		}
		return c.Const(w, k)
	}
	if a.Op == Concat && a.A[0].Op == Const && a.A[0].K>>uint(a.A[0].W-1) == 0 {
		return c.ZExt(a, w)
	}
	if a.max>>uint(a.W-1) == 0 {
		return c.ZExt(a, w)
	}
	if a.Op == SExt {
		a = a.A[0]
	}
	return c.intern(Node{Op: SExt, W: w, A: []*Node{a}})
}

func (c *Ctx) ShlC(a *Node, k int) *Node {
	if k <= 0 {
		return a
	}
	if k >= a.W {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Extract(a, 0, a.W-k), c.Const(k, 0))
}
func (c *Ctx) LshrC(a *Node, k int) *Node {
	if k <= 0 {
		return a
	}
	if k >= a.W {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Const(k, 0), c.Extract(a, k, a.W-k))
}
func (c *Ctx) AshrC(a *Node, k int) *Node {
	if k <= 0 {
		return a
	}
	if k >= a.W {
		k = a.W - 1
	}
	return c.SExt(c.Extract(a, k, a.W-k), a.W)
}
func (c *Ctx) RotlC(a *Node, k int) *Node {
	k %= a.W
	if k < 0 {
		k += a.W
	}
	if k == 0 {
		return a
	}
	return c.Concat(c.Extract(a, 0, a.W-k), c.Extract(a, a.W-k, k))
}

// Shl, Lshr and Ashr take a shift amount of the same width; amounts >= W
// give 0 (or the sign), as in Go and SMT-LIB.
func (c *Ctx) Shl(a, b *Node) *Node {
	if b.Op == Const {
		if b.K >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		return c.ShlC(a, int(b.K))
	}
	return c.intern(Node{Op: Shl, W: a.W, A: []*Node{a, b}})
}
func (c *Ctx) Lshr(a, b *Node) *Node {
	if b.Op == Const {
		if b.K >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		return c.LshrC(a, int(b.K))
	}
	return c.intern(Node{Op: Lshr, W: a.W, A: []*Node{a, b}})
}
func (c *Ctx) Ashr(a, b *Node) *Node {
	if b.Op == Const {
		if b.K >= uint64(a.W) {
			return c.AshrC(a, a.W-1)
		}
		return c.AshrC(a, int(b.K))
	}
	return c.intern(Node{Op: Ashr, W: a.W, A: []*Node{a, b}})
}

// ---------------------------------------------------------------- arithmetic

func (c *Ctx) Add(a, b *Node) *Node {
	if a.W != b.W {
		panic(fmt.Sprintf("term: add widths %d %d", a.W, b.W))
	}
	return c.lin(a.W, a, 1, b, 1)
}
func (c *Ctx) Sub(a, b *Node) *Node { return c.lin(a.W, a, 1, b, ^uint64(0)) }
func (c *Ctx) Neg(a *Node) *Node    { return c.MulC(a, ^uint64(0)) }
func (c *Ctx) MulC(a *Node, k uint64) *Node {
	return c.lin(a.W, a, k, c.Const(a.W, 0), 0)
}

func (c *Ctx) lin(w int, a *Node, ka uint64, b *Node, kb uint64) *Node {
	if w == 1 {
		r := c.False()
		if ka&1 == 1 {
			r = c.Xor(r, a)
		}
		if kb&1 == 1 {
			r = c.Xor(r, b)
		}
		return r
	}
	m := Mask(w)
	coef := map[*Node]uint64{}
	var order []*Node
	var k uint64
	var add func(n *Node, f uint64)
	add = func(n *Node, f uint64) {
		f &= m
		if f == 0 {
			return
		}
		switch n.Op {
		case Const:
			k += f * n.K
			return
		case Add:
			k += f * n.K
			for i, x := range n.A {
				add(x, f*n.C[i])
			}
			return
		case Xor:
			// ^x = -x-1
			if n.K == m && len(n.A) == 1 {
				k -= f
				add(n.A[0], -f)
				return
			}
		case Concat:
			// x<<k as a multiple of x when x is an extract-free low part
			l := n.A[len(n.A)-1]
			if len(n.A) == 2 && l.Op == Const && l.K == 0 {
				h := n.A[0]
				if h.Op == Extract && h.K == 0 && h.A[0].W == w {
					add(h.A[0], f<<uint(l.W))
					return
				}
			}
			// a multiple of 2^j times a value below 2^(w-j) is a shift
			if z := n.A[0]; z.Op == Const && z.K == 0 && f&(1<<uint(z.W)-1) == 0 && len(n.A) == 2 && n.A[1].Op != Const {
				g := uint64(int64(f<<uint(64-w))>>uint(64-w+z.W)) & m
				add(c.Concat(n.A[1], c.Const(z.W, 0)), g)
				return
			}
			if l.Op == Const && l.K != 0 {
				parts := append(append([]*Node{}, n.A[:len(n.A)-1]...), c.Const(l.W, 0))
				k += f * l.K
				add(c.Concat(parts...), f)
				return
			}
		case SExt:
			// -1 if bit: sext(b) = -zext(b)
			if n.A[0].W == 1 {
				add(c.ZExt(n.A[0], w), -f)
				return
			}
		}
		if _, ok := coef[n]; !ok {
			order = append(order, n)
		}
		coef[n] += f
	}
	add(a, ka)
	add(b, kb)
	k &= m
	var A []*Node
	var C []uint64
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	for _, n := range order {
		if f := coef[n] & m; f != 0 {
			A = append(A, n)
			C = append(C, f)
		}
	}
	if len(A) == 0 {
		return c.Const(w, k)
	}
	// y - (y>>lo<<lo) is the low part of y
	for i, t := range A {
		if len(A) < 2 || C[i] != m || t.Op != Concat || len(t.A) != 2 || t.A[0].Op != Extract {
			continue
		}
		h, l := t.A[0], t.A[1]
		if l.Op != Const || l.K != 0 || int(h.K) != l.W || h.A[0].W != w {
			continue
		}
		y := h.A[0]
		z, cz := y, uint64(1)
		if y.Op == Add {
			if len(y.A) != 1 {
				continue
			}
			z, cz = y.A[0], y.C[0]
		}
		hit := false
		for j := range A {
			if A[j] == z && C[j] == cz {
				hit = true
			}
		}
		if !hit {
			continue
		}
		r := c.Const(w, k)
		for j := range A {
			if j != i {
				r = c.lin(w, r, 1, A[j], C[j])
			}
		}
		r = c.Sub(r, y)
		return c.Add(r, c.ZExt(c.Extract(y, 0, l.W), w))
	}
	if len(A) == 1 {
		if C[0] == 1 && k == 0 {
			return A[0]
		}
		n := A[0]
		// zext(bit)*-1 = sext(bit); zext(bit)-1 = sext(!bit)
		if n.Op == Concat && len(n.A) == 2 && n.A[0].Op == Const && n.A[0].K == 0 && n.A[1].W == 1 {
			if C[0] == m && k == 0 {
				return c.SExt(n.A[1], w)
			}
			if C[0] == 1 && k == m {
				return c.SExt(c.Not(n.A[1]), w)
			}
		}
		// bit at position p minus 2^p: (b<<p) - (1<<p)  =  !b ? -2^p : 0
		if n.Op == Concat && C[0] == 1 {
			p := 0
			var bit *Node
			ok := true
			for i := len(n.A) - 1; i >= 0; i-- {
				x := n.A[i]
				if x.Op == Const && x.K == 0 {
					if bit == nil {
						p += x.W
					}
					continue
				}
				if x.W == 1 && bit == nil {
					bit = x
					continue
				}
				ok = false
			}
			if ok && bit != nil && p > 0 && p < w && k == (-(uint64(1)<<uint(p)))&m {
				return c.Concat(c.SExt(c.Not(bit), w-p), c.Const(p, 0))
			}
		}
		if k == m && C[0] == m {
			return c.Not(n)
		}
		// power of two multiple as shift
		if k == 0 && C[0]&(C[0]-1) == 0 {
			s := 0
			for C[0]>>uint(s)&1 == 0 {
				s++
			}
			return c.ShlC(n, s)
		}
		// constant added to concat with zero low part: merge when no carry
		if C[0] == 1 && n.Op == Concat {
			l := n.A[len(n.A)-1]
			if l.Op == Const && l.K == 0 && k>>uint(l.W) == 0 {
				parts := append(append([]*Node{}, n.A[:len(n.A)-1]...), c.Const(l.W, k))
				return c.Concat(parts...)
			}
		}
	}
	// disjoint concats: sum is or
	if len(A) >= 2 && k == 0 {
		all := true
		for i := range A {
			if C[i] != 1 || A[i].Op != Concat {
				all = false
			}
		}
		if all {
			r := A[0]
			ok := true
			for _, x := range A[1:] {
				bs := mergeBounds(bounds(r), bounds(x))
				if !c.disjoint(r, x, bs) {
					ok = false
					break
				}
				r = c.Or(r, x)
			}
			if ok {
				return r
			}
		}
	}
	// disjoint bitwise functions: sum is or (two summands inside a longer sum too)
	for i := 0; i < len(A); i++ {
		if A[i].Op != Lut || C[i] != 1 {
			continue
		}
		for j := i + 1; j < len(A); j++ {
			if A[j].Op != Lut || C[j] != 1 {
				continue
			}
			if z := c.And(A[i], A[j]); z.Op == Const && z.K == 0 {
				o := c.Or(A[i], A[j])
				r := c.Const(w, k)
				for t := range A {
					if t != i && t != j {
						r = c.lin(w, r, 1, A[t], C[t])
					}
				}
				return c.lin(w, r, 1, o, 1)
			}
		}
	}
	return c.intern(Node{Op: Add, W: w, K: k, A: A, C: C})
}

func (c *Ctx) disjoint(a, b *Node, bs []int) bool {
	for i := 0; i+1 < len(bs); i++ {
		x, kx := c.constSide(a, bs[i], bs[i+1]-bs[i])
		y, ky := c.constSide(b, bs[i], bs[i+1]-bs[i])
		if !(x && kx == 0 || y && ky == 0) {
			return false
		}
	}
	return true
}

func (c *Ctx) Mul(a, b *Node) *Node {
	if a.Op == Const {
		a, b = b, a
	}
	if b.Op == Const {
		return c.MulC(a, b.K)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.intern(Node{Op: Mul, W: a.W, A: []*Node{a, b}})
}

// UDiv and URem follow SMT-LIB on zero divisors; callers emit the
// divide-by-zero obligation.
func (c *Ctx) UDiv(a, b *Node) *Node {
	if b.Op == Const && b.K != 0 {
		if b.K&(b.K-1) == 0 {
			s := 0
			for b.K>>uint(s)&1 == 0 {
				s++
			}
			return c.LshrC(a, s)
		}
		if a.Op == Const {
			return c.Const(a.W, a.K/b.K)
		}
	}
	return c.intern(Node{Op: UDiv, W: a.W, A: []*Node{a, b}})
}
func (c *Ctx) URem(a, b *Node) *Node {
	if b.Op == Const && b.K != 0 {
		if b.K&(b.K-1) == 0 {
			return c.And(a, c.Const(a.W, b.K-1))
		}
		if a.Op == Const {
			return c.Const(a.W, a.K%b.K)
		}
	}
	return c.intern(Node{Op: URem, W: a.W, A: []*Node{a, b}})
}
func sx(k uint64, w int) int64 { return int64(k<<uint(64-w)) >> uint(64-w) }
func (c *Ctx) SDiv(a, b *Node) *Node {
	if b.Op == Const && b.K != 0 && a.max>>uint(a.W-1) == 0 && b.K>>uint(a.W-1) == 0 {
		return c.UDiv(a, b)
	}
	if a.Op == Const && b.Op == Const && b.K != 0 {
		if sx(b.K, b.W) == -1 {
			return c.Neg(a)
		}
		return c.Const(a.W, uint64(sx(a.K, a.W)/sx(b.K, b.W)))
	}
	return c.intern(Node{Op: SDiv, W: a.W, A: []*Node{a, b}})
}
func (c *Ctx) SRem(a, b *Node) *Node {
	if b.Op == Const && b.K != 0 && a.max>>uint(a.W-1) == 0 && b.K>>uint(a.W-1) == 0 {
		return c.URem(a, b)
	}
	if a.Op == Const && b.Op == Const && b.K != 0 {
		if sx(b.K, b.W) == -1 {
			return c.Const(a.W, 0)
		}
		return c.Const(a.W, uint64(sx(a.K, a.W)%sx(b.K, b.W)))
	}
	return c.intern(Node{Op: SRem, W: a.W, A: []*Node{a, b}})
}

// ---------------------------------------------------------------- control

func (c *Ctx) Ite(k, a, b *Node) *Node {
	if k.W != 1 || a.W != b.W {
		panic("term: ite widths")
	}
	if k.Op == Const {
		if k.K == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 1 {
		return c.Or(c.And(k, a), c.And(c.Not(k), b))
	}
	if k.Op == Xor && k.K == 1 {
		return c.Ite(c.Not(k), b, a)
	}
	if a.Op == Ite && a.A[0] == k {
		a = a.A[1]
	}
	if b.Op == Ite && b.A[0] == k {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	if isAll(a) && isZero(b) {
		return c.SExt(k, a.W)
	}
	if isZero(a) && isAll(b) {
		return c.SExt(c.Not(k), a.W)
	}
	if a.Op == Const && b.Op == Const && a.K == 1 && b.K == 0 {
		return c.ZExt(k, a.W)
	}
	// nested: ite(k, ite(k2,x,b), b) = ite(k&k2,x,b)
	if a.Op == Ite && a.A[2] == b {
		return c.Ite(c.And(k, a.A[0]), a.A[1], b)
	}
	if a.Op == Ite && a.A[1] == b {
		return c.Ite(c.And(k, c.Not(a.A[0])), a.A[2], b)
	}
	if b.Op == Ite && b.A[1] == a {
		return c.Ite(c.Or(k, b.A[0]), a, b.A[2])
	}
	if a.Op == Concat && b.Op == Concat || (a.Op == Concat && b.Op == Const) || (a.Op == Const && b.Op == Concat) {
		bs := mergeBounds(bounds(a), bounds(b))
		good := a.Op == Concat && b.Op == Concat && c.bitty(a, b, bs)
		for i := 0; i+1 < len(bs) && !good; i++ {
			lo, w := bs[i], bs[i+1]-bs[i]
			if c.Extract(a, lo, w) == c.Extract(b, lo, w) {
				good = true
			}
		}
		if good {
			var parts []*Node
			for i := len(bs) - 2; i >= 0; i-- {
				lo, w := bs[i], bs[i+1]-bs[i]
				parts = append(parts, c.Ite(k, c.Extract(a, lo, w), c.Extract(b, lo, w)))
			}
			return c.Concat(parts...)
		}
	}
	return c.intern(Node{Op: Ite, W: a.W, A: []*Node{k, a, b}})
}

func (c *Ctx) Eq(a, b *Node) *Node {
	if a.W != b.W {
		panic(fmt.Sprintf("term: eq widths %d %d", a.W, b.W))
	}
	if a == b {
		return c.True()
	}
	if a.Op == Const && b.Op == Const {
		return c.Bool(a.K == b.K)
	}
	if a.W == 1 {
		return c.Not(c.Xor(a, b))
	}
	if a.Op == Const {
		a, b = b, a
	}
	if b.Op == Const {
		if b.K > a.max {
			return c.False()
		}
		switch a.Op {
		case Ite:
			if a.A[1].Op == Const || a.A[2].Op == Const {
				return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
			}
		case SExt:
			s := a.A[0]
			lo := c.Const(s.W, b.K)
			if c.SExt(lo, a.W) != b {
				return c.False()
			}
			return c.Eq(s, lo)
		case Xor:
			if a.K != 0 {
				return c.Eq(c.rawXor(a.W, a.A, 0), c.Const(a.W, a.K^b.K))
			}
			if b.K == 0 && len(a.A) == 2 {
				return c.Eq(a.A[0], a.A[1])
			}
		case Lut:
			if b.K == 0 || b.K == Mask(a.W) {
				tt := uint16(a.K)
				if b.K == 0 {
					tt = ^tt
				}
				if r := c.splitAll(a, tt); r != nil {
					return r
				}
			}
		}
	}
	if a.Op == Concat || b.Op == Concat {
		if a.Op != Concat {
			a, b = b, a
		}
		if b.Op == Concat || b.Op == Const {
			bs := bounds(a)
			if b.Op == Concat {
				bs = mergeBounds(bs, bounds(b))
			}
			if len(bs) <= 40 {
				r := c.True()
				for i := 0; i+1 < len(bs); i++ {
					lo, w := bs[i], bs[i+1]-bs[i]
					x := c.Eq(c.Extract(a, lo, w), c.Extract(b, lo, w))
					if x.IsFalse() {
						return x
					}
					r = c.And(r, x)
				}
				return r
			}
		}
	}
	if a.Op == Add || b.Op == Add {
		d := c.Sub(a, b)
		if d.Op == Const {
			return c.Bool(d.K == 0)
		}
		if d.Op == Add {
			if len(d.A) == 1 && (d.C[0] == 1 || d.C[0] == Mask(d.W)) {
				x := c.Const(d.W, -d.K)
				if d.C[0] != 1 {
					x = c.Const(d.W, d.K)
				}
				return c.eqRaw(d.A[0], x)
			}
			// orient: positive leading coefficient
			if d.C[0]>>uint(d.W-1)&1 == 1 {
				d = c.Neg(d)
			}
			if d.Op == Add && d.K == 0 && len(d.A) == 2 {
				if d.C[0] == 1 && d.C[1] == Mask(d.W) {
					return c.eqRaw(d.A[0], d.A[1])
				}
			}
			return c.eqRaw(d, c.Const(d.W, 0))
		}
		if !(b.Op == Const && b.K == 0 || a.Op == Const && a.K == 0) {
			return c.Eq(d, c.Const(d.W, 0))
		}
	}
	return c.eqRaw(a, b)
}

// splitAll decides "every bit of the function tt of a's leaves is set" leaf by
// leaf when tt is a product of constraints on disjoint sets of leaves; nil
// when it is not.
func (c *Ctx) splitAll(a *Node, tt uint16) *Node {
	n := len(a.A)
	proj := func(set int) (seen [16]bool) {
		for i := 0; i < 1<<uint(n); i++ {
			if tt>>uint(i)&1 == 1 {
				seen[i&set] = true
			}
		}
		return
	}
	count := func(s [16]bool) (k int) {
		for _, b := range s {
			if b {
				k++
			}
		}
		return
	}
	full := 1<<uint(n) - 1
	total := 0
	for i := 0; i <= full; i++ {
		if tt>>uint(i)&1 == 1 {
			total++
		}
	}
	for _, size := range []int{1, 2} {
		for set := 1; set < full; set++ {
			if bits.OnesCount(uint(set)) != size {
				continue
			}
			p, q := proj(set), proj(full&^set)
			if count(p)*count(q) != total {
				continue
			}
			part := func(set int, p [16]bool) *Node {
				var leaves []*Node
				var idx []int
				for i := 0; i < n; i++ {
					if set>>uint(i)&1 == 1 {
						leaves = append(leaves, a.A[i])
						idx = append(idx, i)
					}
				}
				var t uint16
				for k := 0; k < 1<<uint(len(leaves)); k++ {
					x := 0
					for j, i := range idx {
						if k>>uint(j)&1 == 1 {
							x |= 1 << uint(i)
						}
					}
					if p[x] {
						t |= 1 << uint(k)
					}
				}
				for k := 1 << uint(len(leaves)); k < 16; k++ {
					t |= t >> uint(k&(1<<uint(len(leaves))-1)) & 1 << uint(k)
				}
				return c.Eq(c.fromTT(a.W, leaves, t), c.Const(a.W, Mask(a.W)))
			}
			return c.And(part(set, p), part(full&^set, q))
		}
	}
	return nil
}

func (c *Ctx) eqRaw(a, b *Node) *Node {
	if a == b {
		return c.True()
	}
	if a.Op == Const && b.Op == Const {
		return c.Bool(a.K == b.K)
	}
	if a.Op == Const || b.Op != Const && a.ID > b.ID {
		a, b = b, a
	}
	if b.Op == Const && b.K > a.max {
		return c.False()
	}
	return c.intern(Node{Op: Eq, W: 1, A: []*Node{a, b}})
}
func (c *Ctx) Ne(a, b *Node) *Node { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Ult(a, b *Node) *Node {
	if a == b {
		return c.False()
	}
	if a.Op == Const && b.Op == Const {
		return c.Bool(a.K < b.K)
	}
	if b.Op == Const {
		if b.K == 0 {
			return c.False()
		}
		if a.max < b.K {
			return c.True()
		}
		if b.K == 1 {
			return c.Eq(a, c.Const(a.W, 0))
		}
		// compare on high bits only when bound is a power of two
		if b.K&(b.K-1) == 0 {
			s := 0
			for b.K>>uint(s)&1 == 0 {
				s++
			}
			return c.Eq(c.Extract(a, s, a.W-s), c.Const(a.W-s, 0))
		}
	}
	if a.Op == Const {
		if a.K >= b.max {
			return c.False()
		}
		if a.K == 0 {
			return c.Ne(b, c.Const(b.W, 0))
		}
		if (a.K+1)&a.K == 0 {
			return c.Not(c.Ult(b, c.Const(b.W, a.K+1)))
		}
	}
	if a.W == 1 {
		return c.And(c.Not(a), b)
	}
	return c.intern(Node{Op: Ult, W: 1, A: []*Node{a, b}})
}
func (c *Ctx) Ule(a, b *Node) *Node { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Node) *Node {
	if a == b {
		return c.False()
	}
	if a.Op == Const && b.Op == Const {
		return c.Bool(sx(a.K, a.W) < sx(b.K, b.W))
	}
	top := uint64(1) << uint(a.W-1)
	if a.max < top && b.max < top {
		return c.Ult(a, b)
	}
	if b.Op == Const && b.K == 0 && a.W > 1 {
		return c.Extract(a, a.W-1, 1)
	}
	return c.intern(Node{Op: Slt, W: 1, A: []*Node{a, b}})
}
func (c *Ctx) Sle(a, b *Node) *Node { return c.Not(c.Slt(b, a)) }

// Rebuild constructs a node like n with arguments a through the smart
// constructors.
func (c *Ctx) Rebuild(n *Node, a []*Node) *Node {
	switch n.Op {
	case Const, Var:
		return n
	case App:
		return c.App(n.W, n.Name, a...)
	case Xor:
		r := c.Const(n.W, n.K)
		for _, x := range a {
			r = c.Xor(r, x)
		}
		return r
	case Lut:
		return c.lutOf(n.W, uint16(n.K), a)
	case Add:
		r := c.Const(n.W, n.K)
		for i, x := range a {
			r = c.lin(n.W, r, 1, x, n.C[i])
		}
		return r
	case Mul:
		return c.Mul(a[0], a[1])
	case UDiv:
		return c.UDiv(a[0], a[1])
	case URem:
		return c.URem(a[0], a[1])
	case SDiv:
		return c.SDiv(a[0], a[1])
	case SRem:
		return c.SRem(a[0], a[1])
	case Shl:
		return c.Shl(a[0], a[1])
	case Lshr:
		return c.Lshr(a[0], a[1])
	case Ashr:
		return c.Ashr(a[0], a[1])
	case Concat:
		return c.Concat(a...)
	case Extract:
		return c.Extract(a[0], int(n.K), n.W)
	case SExt:
		return c.SExt(a[0], n.W)
	case Ite:
		return c.Ite(a[0], a[1], a[2])
	case Eq:
		return c.Eq(a[0], a[1])
	case Ult:
		return c.Ult(a[0], a[1])
	case Slt:
		return c.Slt(a[0], a[1])
	}
	panic("rebuild")
}

// lutOf applies truth table tt to arbitrary (not necessarily distinct,
// sorted or atomic) arguments.
func (c *Ctx) lutOf(w int, tt uint16, a []*Node) *Node {
	// common leaves
	ok := true
	var u []*Node
	var lv [4][]*Node
	var ts [4]uint16
	for i, x := range a {
		if x.Op == Const {
			ok = false
			break
		}
		lv[i], ts[i] = leavesOf(x)
		u = unionLeaves(u, lv[i])
		if len(u) > 4 {
			ok = false
			break
		}
	}
	if !ok {
		u = nil
		ok = true
		seen := map[*Node]bool{}
		for i, x := range a {
			if x.Op == Const || seen[x] {
				ok = false
				break
			}
			seen[x] = true
			lv[i], ts[i] = []*Node{x}, 0xaaaa
			u = unionLeaves(u, lv[i])
		}
	}
	if ok {
		var cols [4]uint16
		for i := range a {
			cols[i] = remap(ts[i], lv[i], u)
		}
		var t uint16
		for i := 0; i < 16; i++ {
			idx := 0
			for j := range a {
				idx |= int(cols[j]>>uint(i)&1) << uint(j)
			}
			t |= (tt >> uint(idx) & 1) << uint(i)
		}
		return c.fromTT(w, u, t)
	}
	// Shannon expansion on the last argument
	n := len(a)
	if n == 0 {
		if tt&1 != 0 {
			return c.Const(w, Mask(w))
		}
		return c.Const(w, 0)
	}
	half := uint(1) << uint(n-1)
	m := uint16(1<<half - 1)
	if half == 8 {
		m = 0xff
	}
	lo, hi := tt&m, tt>>half&m
	rep := func(t uint16) uint16 {
		for s := half; s < 16; s *= 2 {
			t |= t << s
		}
		return t
	}
	l, h := c.lutOf(w, rep(lo), a[:n-1]), c.lutOf(w, rep(hi), a[:n-1])
	x := a[n-1]
	return c.Or(c.And(x, h), c.And(c.Not(x), l))
}
