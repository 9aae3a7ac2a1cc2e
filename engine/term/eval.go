package term

// Eval evaluates nodes under a valuation of variables and functions.
type Eval struct {
	Val   func(n *Node) uint64                // variables
	Fun   func(n *Node, args []uint64) uint64 // uninterpreted functions
	memo  []uint64
	known []bool
}

func HashVal(name string, seed uint64, args []uint64) uint64 {
	h := mix(0x1234567, seed)
	for i := 0; i < len(name); i++ {
		h = mix(h, uint64(name[i]))
	}
	for _, a := range args {
		h = mix(h, a)
	}
	h = mix(h, h>>7)
	return mix(h, h<<3)
}

// NewEval is an evaluation in which all unknowns are hashed from a seed.
func NewEval(seed uint64) *Eval {
	return &Eval{
		Val: func(n *Node) uint64 { return HashVal(n.Name, seed, nil) },
		Fun: func(n *Node, args []uint64) uint64 { return HashVal(n.Name, seed, args) },
	}
}

func (e *Eval) Get(root *Node) uint64 {
	if len(e.memo) <= root.ID {
		m := make([]uint64, root.ID+root.ID/2+1024)
		copy(m, e.memo)
		e.memo = m
		k := make([]bool, len(m))
		copy(k, e.known)
		e.known = k
	}
	if e.known[root.ID] {
		return e.memo[root.ID]
	}
	st := []*Node{root}
	for len(st) > 0 {
		n := st[len(st)-1]
		if e.known[n.ID] {
			st = st[:len(st)-1]
			continue
		}
		ready := true
		for _, a := range n.A {
			if !e.known[a.ID] {
				st = append(st, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		e.memo[n.ID] = e.node(n)
		e.known[n.ID] = true
		st = st[:len(st)-1]
	}
	return e.memo[root.ID]
}

func (e *Eval) node(n *Node) uint64 {
	m := Mask(n.W)
	v := func(i int) uint64 { return e.memo[n.A[i].ID] }
	switch n.Op {
	case Const:
		return n.K
	case Var:
		return e.Val(n) & m
	case App:
		args := make([]uint64, len(n.A))
		for i := range args {
			args[i] = v(i)
		}
		return e.Fun(n, args) & m
	case Xor:
		r := n.K
		for i := range n.A {
			r ^= v(i)
		}
		return r
	case Lut:
		var x [4]uint64
		for i := range n.A {
			x[i] = v(i)
		}
		var r uint64
		for idx := 0; idx < 1<<uint(len(n.A)); idx++ {
			if n.K>>uint(idx)&1 == 0 {
				continue
			}
			t := m
			for i := range n.A {
				if idx>>uint(i)&1 == 1 {
					t &= x[i]
				} else {
					t &= ^x[i]
				}
			}
			r |= t
		}
		return r
	case Add:
		r := n.K
		for i := range n.A {
			r += n.C[i] * v(i)
		}
		return r & m
	case Mul:
		return v(0) * v(1) & m
	case UDiv:
		if v(1) == 0 {
			return m
		}
		return v(0) / v(1)
	case URem:
		if v(1) == 0 {
			return v(0)
		}
		return v(0) % v(1)
	case SDiv:
		a, b := sx(v(0), n.W), sx(v(1), n.W)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case SRem:
		a, b := sx(v(0), n.W), sx(v(1), n.W)
		if b == 0 {
			return uint64(a) & m
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case Shl:
		if v(1) >= uint64(n.W) {
			return 0
		}
		return v(0) << v(1) & m
	case Lshr:
		if v(1) >= uint64(n.W) {
			return 0
		}
		return v(0) >> v(1)
	case Ashr:
		s := v(1)
		if s >= uint64(n.W) {
			s = uint64(n.W - 1)
		}
		return uint64(sx(v(0), n.W)>>s) & m
	case Concat:
		var r uint64
		for i, a := range n.A {
			if i > 0 {
				r <<= uint(a.W)
			}
			r |= v(i)
		}
		return r
	case Extract:
		return v(0) >> n.K & m
	case SExt:
		return uint64(sx(v(0), n.A[0].W)) & m
	case Ite:
		if v(0) != 0 {
			return v(1)
		}
		return v(2)
	case Eq:
		if v(0) == v(1) {
			return 1
		}
		return 0
	case Ult:
		if v(0) < v(1) {
			return 1
		}
		return 0
	case Slt:
		if sx(v(0), n.A[0].W) < sx(v(1), n.A[1].W) {
			return 1
		}
		return 0
	}
	panic("eval")
}

// Topo lists the nodes reachable from roots, arguments first.
func Topo(roots ...*Node) []*Node {
	seen := map[*Node]bool{}
	var out []*Node
	type fr struct {
		n *Node
		i int
	}
	for _, r := range roots {
		if seen[r] {
			continue
		}
		seen[r] = true
		st := []fr{{r, 0}}
		for len(st) > 0 {
			f := &st[len(st)-1]
			if f.i < len(f.n.A) {
				a := f.n.A[f.i]
				f.i++
				if !seen[a] {
					seen[a] = true
					st = append(st, fr{a, 0})
				}
				continue
			}
			out = append(out, f.n)
			st = st[:len(st)-1]
		}
	}
	return out
}

// Subst rewrites roots with the given replacements.
func (c *Ctx) Subst(m map[*Node]*Node, roots ...*Node) []*Node {
	res := map[*Node]*Node{}
	for _, n := range Topo(roots...) {
		if r, ok := m[n]; ok {
			res[n] = r
			continue
		}
		same := true
		a := make([]*Node, len(n.A))
		for i, x := range n.A {
			a[i] = res[x]
			if a[i] != x {
				same = false
			}
		}
		if same {
			res[n] = n
		} else {
			res[n] = c.Rebuild(n, a)
		}
	}
	out := make([]*Node, len(roots))
	for i, r := range roots {
		out[i] = res[r]
	}
	return out
}
