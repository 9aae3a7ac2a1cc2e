package term

import (
	"fmt"
	"strings"
)

func (n *Node) String() string { return n.str(6) }

func (n *Node) str(d int) string {
	switch n.Op {
	case Const:
		return fmt.Sprintf("%#x:%d", n.K, n.W)
	case Var:
		return n.Name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", n.ID)
	}
	var a []string
	for i, x := range n.A {
		s := x.str(d - 1)
		if n.Op == Add {
			s = fmt.Sprintf("%#x*%s", n.C[i], s)
		}
		a = append(a, s)
	}
	name := n.Op.String()
	if n.Op == App {
		name = n.Name
	}
	k := ""
	if n.K != 0 || n.Op == Extract {
		k = fmt.Sprintf("[%#x]", n.K)
	}
	return fmt.Sprintf("%s%s:%d(%s)", name, k, n.W, strings.Join(a, ","))
}

func bv(w int, k uint64) string { return fmt.Sprintf("(_ bv%d %d)", k, w) }

// Smt writes n over already named arguments.
func (n *Node) Smt(arg func(*Node) string) string {
	a := make([]string, len(n.A))
	for i, x := range n.A {
		a[i] = arg(x)
	}
	bin := func(op string) string { return "(" + op + " " + a[0] + " " + a[1] + ")" }
	toBV := func(s string) string { return "(ite " + s + " #b1 #b0)" }
	switch n.Op {
	case Const:
		return bv(n.W, n.K)
	case App:
		return "(" + Sym(n.Name) + " " + strings.Join(a, " ") + ")"
	case Xor:
		s := a[0]
		for _, x := range a[1:] {
			s = "(bvxor " + s + " " + x + ")"
		}
		if n.K == Mask(n.W) {
			s = "(bvnot " + s + ")"
		} else if n.K != 0 {
			s = "(bvxor " + s + " " + bv(n.W, n.K) + ")"
		}
		return s
	case Lut:
		return lutSmt(uint16(n.K), a, n.W)
	case Add:
		s := ""
		for i, x := range a {
			t := x
			switch {
			case n.C[i] == 1:
			case n.C[i] == Mask(n.W):
				t = "(bvneg " + x + ")"
			default:
				t = "(bvmul " + bv(n.W, n.C[i]) + " " + x + ")"
			}
			if s == "" {
				s = t
			} else {
				s = "(bvadd " + s + " " + t + ")"
			}
		}
		if n.K != 0 {
			s = "(bvadd " + s + " " + bv(n.W, n.K) + ")"
		}
		return s
	case Mul:
		return bin("bvmul")
	case UDiv:
		return bin("bvudiv")
	case URem:
		return bin("bvurem")
	case SDiv:
		return bin("bvsdiv")
	case SRem:
		return bin("bvsrem")
	case Shl:
		return bin("bvshl")
	case Lshr:
		return bin("bvlshr")
	case Ashr:
		return bin("bvashr")
	case Concat:
		return "(concat " + strings.Join(a, " ") + ")"
	case Extract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(n.K)+n.W-1, n.K, a[0])
	case SExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", n.W-n.A[0].W, a[0])
	case Ite:
		return "(ite (= " + a[0] + " #b1) " + a[1] + " " + a[2] + ")"
	case Eq:
		return toBV(bin("="))
	case Ult:
		return toBV(bin("bvult"))
	case Slt:
		return toBV(bin("bvslt"))
	}
	panic("smt " + n.Op.String())
}

func lutSmt(tt uint16, a []string, w int) string {
	n := uint(len(a))
	full := uint16(1)<<(1<<n) - 1
	if n == 4 {
		full = 0xffff
	}
	tt &= full
	if tt == 0 {
		return bv(w, 0)
	}
	if tt == full {
		return bv(w, Mask(w))
	}
	half := uint(1) << (n - 1)
	m := uint16(1)<<half - 1
	lo, hi := tt&m, tt>>half&m
	x := a[n-1]
	if lo == hi {
		return lutSmt(lo, a[:n-1], w)
	}
	switch {
	case lo == 0 && hi == m:
		return x
	case lo == m && hi == 0:
		return "(bvnot " + x + ")"
	case lo == 0:
		return "(bvand " + x + " " + lutSmt(hi, a[:n-1], w) + ")"
	case hi == 0:
		return "(bvand (bvnot " + x + ") " + lutSmt(lo, a[:n-1], w) + ")"
	case lo == m:
		return "(bvor (bvnot " + x + ") " + lutSmt(hi, a[:n-1], w) + ")"
	case hi == m:
		return "(bvor " + x + " " + lutSmt(lo, a[:n-1], w) + ")"
	case lo == ^hi&m:
		return "(bvxor " + x + " " + lutSmt(lo, a[:n-1], w) + ")"
	}
	return "(bvor (bvand " + x + " " + lutSmt(hi, a[:n-1], w) + ") (bvand (bvnot " + x + ") " + lutSmt(lo, a[:n-1], w) + "))"
}

// Sym quotes a symbol.
func Sym(s string) string { return "|" + s + "|" }
