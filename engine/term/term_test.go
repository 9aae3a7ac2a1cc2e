package term

import (
	"math/rand"
	"testing"
)

// TestConstructors compares every constructor, on random operands built by
// the constructors themselves, with direct evaluation of the operation.
func TestConstructors(t *testing.T) {
	for seed := int64(0); seed < 60; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := New()
		evs := make([]*Eval, 6)
		for i := range evs {
			evs[i] = NewEval(uint64(seed*100 + int64(i)))
			if i == 5 {
				evs[i].Val = func(n *Node) uint64 { return HashVal(n.Name, 5, nil) & 3 }
			}
		}
		pool := map[int][]*Node{}
		ws := []int{1, 8, 32, 64}
		add := func(n *Node) { pool[n.W] = append(pool[n.W], n) }
		for _, w := range ws {
			for i := 0; i < 3; i++ {
				add(c.Var(w, string(rune('a'+i))+string(rune('0'+w%10))))
			}
			for _, k := range []uint64{0, 1, 2, ^uint64(0), 0xf0, 0x80, 0x55aa, r.Uint64()} {
				add(c.Const(w, k))
			}
		}
		pick := func(w int) *Node {
			p := pool[w]
			if r.Intn(3) == 0 && len(p) > 6 {
				return p[len(p)-1-r.Intn(5)]
			}
			return p[r.Intn(len(p))]
		}
		for step := 0; step < 1500; step++ {
			w := ws[r.Intn(len(ws))]
			a, b := pick(w), pick(w)
			m := Mask(w)
			var n *Node
			var f func(x, y uint64, e *Eval) uint64
			bl := func(b bool) uint64 {
				if b {
					return 1
				}
				return 0
			}
			sh := r.Intn(w)
			k := r.Uint64() >> uint(r.Intn(64))
			switch op := r.Intn(26); op {
			case 0:
				n, f = c.And(a, b), func(x, y uint64, e *Eval) uint64 { return x & y }
			case 1:
				n, f = c.Or(a, b), func(x, y uint64, e *Eval) uint64 { return x | y }
			case 2:
				n, f = c.Xor(a, b), func(x, y uint64, e *Eval) uint64 { return x ^ y }
			case 3:
				n, f = c.Not(a), func(x, y uint64, e *Eval) uint64 { return ^x }
			case 4:
				n, f = c.Add(a, b), func(x, y uint64, e *Eval) uint64 { return x + y }
			case 5:
				n, f = c.Sub(a, b), func(x, y uint64, e *Eval) uint64 { return x - y }
			case 6:
				n, f = c.MulC(a, k), func(x, y uint64, e *Eval) uint64 { return x * k }
			case 7:
				n, f = c.ShlC(a, sh), func(x, y uint64, e *Eval) uint64 { return x << uint(sh) }
			case 8:
				n, f = c.LshrC(a, sh), func(x, y uint64, e *Eval) uint64 { return x >> uint(sh) }
			case 9:
				n, f = c.AshrC(a, sh), func(x, y uint64, e *Eval) uint64 { return uint64(sx(x, w) >> uint(sh)) }
			case 10:
				n, f = c.RotlC(a, sh), func(x, y uint64, e *Eval) uint64 { return x<<uint(sh) | x>>uint(w-sh) }
			case 11:
				w2 := ws[r.Intn(len(ws))]
				if w2 >= w {
					n, f = c.ZExt(a, w2), func(x, y uint64, e *Eval) uint64 { return x }
				} else {
					n, f = c.Extract(a, r.Intn(1), w2), func(x, y uint64, e *Eval) uint64 { return x }
				}
			case 12:
				w2 := ws[r.Intn(len(ws))]
				n, f = c.SExt(a, w2), func(x, y uint64, e *Eval) uint64 { return uint64(sx(x, w)) }
			case 13:
				if w > 8 {
					lo := r.Intn(w - 8)
					n, f = c.Extract(a, lo, 8), func(x, y uint64, e *Eval) uint64 { return x >> uint(lo) }
				} else {
					continue
				}
			case 14:
				if w == 32 {
					n, f = c.Concat(a, b), func(x, y uint64, e *Eval) uint64 { return x<<32 | y }
				} else if w == 8 {
					x2, y2 := pick(8), pick(8)
					n, f = c.Concat(a, b, x2, y2), func(x, y uint64, e *Eval) uint64 { return x<<24 | y<<16 | e.Get(x2)<<8 | e.Get(y2) }
				} else {
					continue
				}
			case 15, 16:
				q := pick(1)
				n, f = c.Ite(q, a, b), func(x, y uint64, e *Eval) uint64 {
					if e.Get(q) == 1 {
						return x
					}
					return y
				}
			case 17:
				n, f = c.Eq(a, b), func(x, y uint64, e *Eval) uint64 { return bl(x == y) }
			case 18:
				n, f = c.Ult(a, b), func(x, y uint64, e *Eval) uint64 { return bl(x < y) }
			case 19:
				n, f = c.Slt(a, b), func(x, y uint64, e *Eval) uint64 { return bl(sx(x, w) < sx(y, w)) }
			case 20:
				n, f = c.UDiv(a, b), func(x, y uint64, e *Eval) uint64 {
					if y == 0 {
						return m
					}
					return x / y
				}
			case 21:
				n, f = c.URem(a, b), func(x, y uint64, e *Eval) uint64 {
					if y == 0 {
						return x
					}
					return x % y
				}
			case 22:
				n, f = c.Shl(a, b), func(x, y uint64, e *Eval) uint64 {
					if y >= uint64(w) {
						return 0
					}
					return x << y
				}
			case 23:
				n, f = c.Lshr(a, b), func(x, y uint64, e *Eval) uint64 {
					if y >= uint64(w) {
						return 0
					}
					return x >> y
				}
			case 24:
				n, f = c.Mul(a, b), func(x, y uint64, e *Eval) uint64 { return x * y }
			case 25:
				n, f = c.And(a, c.Const(w, k)), func(x, y uint64, e *Eval) uint64 { return x & k }
			}
			for i, e := range evs {
				want := f(e.Get(a), e.Get(b), e) & Mask(n.W)
				got := e.Get(n)
				if got != want {
					t.Fatalf("seed %d step %d eval %d: got %x want %x\n%s\nfrom %s\nand %s", seed, step, i, got, want, n.String(), a.String(), b.String())
				}
				if got > n.max {
					t.Fatalf("bound %x > %x: %s", got, n.max, n.String())
				}
			}
			// rebuild identity
			if q := c.Rebuild(n, n.A); q != n {
				for i, e := range evs {
					if e.Get(q) != e.Get(n) {
						t.Fatalf("rebuild %d: %s vs %s", i, q.String(), n.String())
					}
				}
			}
			if len(Topo(n)) < 400 {
				add(n)
			}
			// substitution consistency
			if step%10 == 0 {
				v := c.Var(w, "a"+string(rune('0'+w%10)))
				x := pick(w)
				s := c.Subst(map[*Node]*Node{v: x}, n)[0]
				for i, e := range evs {
					e2 := NewEval(0)
					e2.Fun = e.Fun
					e2.Val = func(q *Node) uint64 {
						if q == v {
							return e.Get(x)
						}
						return e.Val(q)
					}
					if e2.Get(n) != e.Get(s) {
						t.Fatalf("subst %d", i)
					}
				}
			}
		}
	}
}
