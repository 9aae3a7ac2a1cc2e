package asm

import (
	"regexp"
	"strconv"
	"strings"

	"verif/engine/sym"
)

// ARMFeatures are the CPU features an instruction needs beyond ARMv8.0 with
// floating point and Advanced SIMD.
func ARMFeatures(op string) []string {
	switch {
	case strings.HasPrefix(op, "sha1"):
		return []string{"SHA1"}
	case strings.HasPrefix(op, "sha256"):
		return []string{"SHA2"}
	case strings.HasPrefix(op, "sha512"):
		return []string{"SHA512"}
	case op == "eor3", op == "rax1", op == "xar", op == "bcax":
		return []string{"SHA3"}
	case strings.HasPrefix(op, "aes"):
		return []string{"AESARM"}
	}
	return nil
}

func (m *M) areg(n string) V {
	switch n {
	case "xzr":
		return V{N: m.C.Const(64, 0)}
	case "wzr":
		return V{N: m.C.Const(32, 0)}
	case "wsp":
		sym.Unsup("register wsp")
	}
	w := 64
	r := n
	if n[0] == 'w' {
		w = 32
		r = "x" + n[1:]
	}
	v, ok := m.g[r]
	if !ok {
		v = V{N: m.undef(64, r)}
		m.g[r] = v
	}
	if w == 64 {
		return v
	}
	if v.R != nil {
		sym.Unsup("machine code uses part of a pointer")
	}
	return V{N: m.C.Extract(v.N, 0, 32)}
}

func isAreg(n string) bool {
	if n == "sp" || n == "xzr" || n == "wzr" {
		return true
	}
	if len(n) < 2 || n[0] != 'x' && n[0] != 'w' {
		return false
	}
	_, err := strconv.Atoi(n[1:])
	return err == nil
}

func (m *M) aset(i Inst, n string, v V) {
	if n == "xzr" || n == "wzr" {
		return
	}
	if n == "sp" {
		if v.R != m.Stack {
			sym.Unsup("stack pointer set to something else (%s)", i.Text)
		}
		if v.O < m.Low {
			m.Low = v.O
		}
		// the frame pointer is saved just below the stack pointer
		m.Stack.lo = v.O - 8
	}
	if n[0] == 'w' {
		m.g["x"+n[1:]] = V{N: m.C.ZExt(v.N, 64)}
		return
	}
	m.g[n] = v
}

func (m *M) vreg(n string) [4]N {
	v, ok := m.x[n]
	if !ok {
		for k := range v {
			v[k] = m.undef(32, n)
		}
		m.x[n] = v
	}
	return v
}

// vector operand: v1.4s, v1.16b, v1.s[2]; q1, d1, s1
type vop struct {
	r    string
	arr  string // 16b, 4s, 2d, 8h, ... or ""
	lane int    // -1
	el   byte
	size int // scalar: bytes
}

var vre = regexp.MustCompile(`^v(\d+)\.(?:(\d+)?([bhsd]))(?:\[(\d+)\])?$`)
var sre = regexp.MustCompile(`^([qdshb])(\d+)$`)

func vec(a string) (vop, bool) {
	if q := vre.FindStringSubmatch(a); q != nil {
		o := vop{r: "v" + q[1], lane: -1, el: q[3][0]}
		if q[4] != "" {
			o.lane, _ = strconv.Atoi(q[4])
		} else {
			o.arr = q[2] + q[3]
		}
		return o, true
	}
	if q := sre.FindStringSubmatch(a); q != nil {
		return vop{r: "v" + q[2], lane: -1, size: map[string]int{"q": 16, "d": 8, "s": 4, "h": 2, "b": 1}[q[1]]}, true
	}
	return vop{}, false
}

func aimm(a string) (int64, bool) {
	a = strings.TrimPrefix(a, "#")
	k, err := strconv.ParseInt(a, 0, 64)
	if err != nil {
		u, err := strconv.ParseUint(a, 0, 64)
		if err != nil {
			return 0, false
		}
		k = int64(u)
	}
	return k, true
}

// amem parses [xn], [xn, #k], [xn, #k]!, [xn, xm], [xn, xm, lsl #k] and a
// post-index operand; commit performs the write-back.
func (m *M) amem(i Inst, args []string) (addr V, commit func()) {
	a := args[0]
	pre := strings.HasSuffix(a, "!")
	a = strings.TrimSuffix(a, "!")
	if !strings.HasPrefix(a, "[") || !strings.HasSuffix(a, "]") {
		sym.Unsup("address %s", i.Text)
	}
	ps := splitArgs(a[1 : len(a)-1])
	base := m.areg(ps[0])
	off := V{N: m.C.Const(64, 0)}
	if len(ps) > 1 {
		if k, ok := aimm(ps[1]); ok {
			off = V{N: m.C.Const(64, uint64(k))}
		} else if isAreg(ps[1]) && ps[1][0] == 'x' {
			off = m.areg(ps[1])
			if len(ps) > 2 {
				sh, ok := strings.CutPrefix(ps[2], "lsl ")
				k, ok2 := aimm(sh)
				if !ok || !ok2 || off.R != nil {
					sym.Unsup("address %s", i.Text)
				}
				off = V{N: m.C.ShlC(off.N, int(k))}
			}
		} else {
			sym.Unsup("address %s", i.Text)
		}
	}
	commit = func() {}
	addr = m.plus(i, base, off)
	if pre {
		r := addr
		commit = func() { m.aset(i, ps[0], r) }
	}
	if len(args) > 1 {
		var k V
		if q, ok := aimm(args[1]); ok {
			k = V{N: m.C.Const(64, uint64(q))}
		} else {
			k = m.areg(args[1])
		}
		r := m.plus(i, base, k)
		commit = func() { m.aset(i, ps[0], r) }
	}
	return
}

// second operand of data processing: register (shifted) or immediate
func (m *M) aop2(i Inst, args []string, w int) V {
	if k, ok := aimm(args[0]); ok {
		v := uint64(k)
		if len(args) > 1 {
			sh, ok := strings.CutPrefix(args[1], "lsl ")
			n, ok2 := aimm(sh)
			if !ok || !ok2 {
				sym.Unsup("operand %s", i.Text)
			}
			v <<= uint(n)
		}
		return V{N: m.C.Const(w, v)}
	}
	v := m.areg(args[0])
	if len(args) > 1 {
		kind, ks, _ := strings.Cut(args[1], " ")
		k, ok := aimm(ks)
		if !ok || v.R != nil {
			if kind == "uxtx" && ks == "" {
				return v
			}
			sym.Unsup("operand %s", i.Text)
		}
		switch kind {
		case "lsl":
			v.N = m.C.ShlC(v.N, int(k))
		case "lsr":
			v.N = m.C.LshrC(v.N, int(k))
		case "asr":
			v.N = m.C.AshrC(v.N, int(k))
		case "ror":
			v.N = m.C.RotlC(v.N, (w-int(k)%w)%w)
		default:
			sym.Unsup("operand %s", i.Text)
		}
	}
	return v
}

func (m *M) armCond(i Inst, cc string) bool {
	c, f := m.C, m.f // c: ARM carry (not borrow)
	not := func(n N) N {
		if n == nil {
			return nil
		}
		return c.Not(n)
	}
	and := func(a, b N) N {
		if a == nil || b == nil {
			return nil
		}
		return c.And(a, b)
	}
	xor := func(a, b N) N {
		if a == nil || b == nil {
			return nil
		}
		return c.Xor(a, b)
	}
	switch cc {
	case "eq":
		return m.cond(i, f.z)
	case "ne":
		return m.cond(i, not(f.z))
	case "hs", "cs":
		return m.cond(i, f.c)
	case "lo", "cc":
		return m.cond(i, not(f.c))
	case "hi":
		return m.cond(i, and(f.c, not(f.z)))
	case "ls":
		return m.cond(i, not(and(f.c, not(f.z))))
	case "mi":
		return m.cond(i, f.s)
	case "pl":
		return m.cond(i, not(f.s))
	case "ge":
		return m.cond(i, not(xor(f.s, f.o)))
	case "lt":
		return m.cond(i, xor(f.s, f.o))
	case "gt":
		return m.cond(i, and(not(f.z), not(xor(f.s, f.o))))
	case "le":
		return m.cond(i, not(and(not(f.z), not(xor(f.s, f.o)))))
	case "al":
		return true
	}
	sym.Unsup("condition %s", cc)
	return false
}

func (m *M) runARM(pc uint64, ra V) {
	m.g["sp"] = V{R: m.Stack, O: m.sp0}
	m.Stack.lo = m.sp0 - 8
	// the caller's frame pointer record lies just below the stack pointer
	fp := V{R: m.Stack, O: m.sp0 - 8}
	m.g["x29"] = fp
	m.g["x30"] = ra
	keep := map[string]V{}
	for _, r := range []string{"x18", "x28"} {
		keep[r] = m.areg(r)
	}
	for {
		i, ok := m.Im.code[pc]
		if !ok {
			sym.Unsup("execution leaves the decoded code at %x", pc)
		}
		if m.Steps++; m.Steps > 20000 {
			sym.Unsup("the machine code runs too long")
		}
		pc = i.Next
		jump := func() {
			t, ok := m.Im.target(i)
			if !ok {
				sym.Unsup("jump %s", i.Text)
			}
			pc = t
		}
		switch {
		case i.Op == "ret":
			t := m.areg("x30")
			if len(i.Args) > 0 {
				t = m.areg(i.Args[0])
			}
			if t == ra {
				if sp := m.g["sp"]; sp.R != m.Stack || sp.O != m.sp0 {
					fault(i, "returns with another stack pointer")
				}
				if m.areg("x29") != fp {
					fault(i, "the frame pointer is not preserved")
				}
				for r, v := range keep {
					if m.areg(r) != v {
						fault(i, "%s is not preserved", r)
					}
				}
				return
			}
			if t.R == nil && t.N.IsConst() {
				pc = t.N.K
				continue
			}
			fault(i, "the return address is overwritten")
		case i.Op == "b":
			jump()
		case i.Op == "bl":
			m.g["x30"] = V{N: m.C.Const(64, i.Next)}
			jump()
		case strings.HasPrefix(i.Op, "b."):
			if m.armCond(i, i.Op[2:]) {
				jump()
			}
		case i.Op == "cbz" || i.Op == "cbnz":
			v := m.areg(i.Args[0])
			z := m.C.False()
			if v.R == nil {
				z = m.C.Eq(v.N, m.C.Const(v.N.W, 0))
			}
			if m.cond(i, z) == (i.Op == "cbz") {
				jump()
			}
		case i.Op == "tbz" || i.Op == "tbnz":
			v := m.areg(i.Args[0])
			k, _ := aimm(i.Args[1])
			if v.R != nil {
				sym.Unsup("%s", i.Text)
			}
			if m.cond(i, m.C.Extract(v.N, int(k), 1)) == (i.Op == "tbnz") {
				jump()
			}
		default:
			m.arm(i)
		}
	}
}

func (m *M) armSubFlags(i Inst, a, b V) {
	m.subFlags(i, a, b)
	if m.f.c != nil {
		m.f.c = m.C.Not(m.f.c)
	}
}

func (m *M) arm(i Inst) {
	c := m.C
	a := i.Args
	op := i.Op
	if len(a) > 0 {
		if _, ok := vec(a[0]); ok || strings.HasPrefix(a[0], "{") {
			m.neon(i)
			return
		}
	}
	w := 64
	if len(a) > 0 && strings.HasPrefix(a[0], "w") {
		w = 32
	}
	logic := func(f func(x, y N) N, flags bool) {
		x, y := m.areg(a[1]), m.aop2(i, a[2:], w)
		if x.R != nil || y.R != nil {
			if x.R != nil && y.R == nil && y.N.IsConst() && op == "and" {
				low := ^y.N.K
				if low&(low+1) != 0 || int64(x.R.align) < int64(low+1) {
					fault(i, "the result depends on an unknown alignment")
				}
				m.aset(i, a[0], V{R: x.R, O: x.O - (x.R.res+x.O)&int64(low)})
				return
			}
			sym.Unsup("pointer operand (%s)", i.Text)
		}
		r := f(x.N, y.N)
		if flags {
			m.logicFlags(r)
		}
		m.aset(i, a[0], V{N: r})
	}
	switch op {
	case "nop", "hint", "prfm", "bti", "dmb", "dsb", "isb":
	case "mov", "movz":
		if k, ok := aimm(a[1]); ok {
			if len(a) > 2 {
				s, _ := strings.CutPrefix(a[2], "lsl ")
				n, _ := aimm(s)
				k <<= uint(n)
			}
			m.aset(i, a[0], V{N: c.Const(w, uint64(k))})
			return
		}
		if v, ok := vec(a[1]); ok { // mov w0, v1.s[0]
			m.umov(i, a[0], v)
			return
		}
		m.aset(i, a[0], m.areg(a[1]))
	case "movn":
		k, _ := aimm(a[1])
		if len(a) > 2 {
			s, _ := strings.CutPrefix(a[2], "lsl ")
			n, _ := aimm(s)
			k <<= uint(n)
		}
		m.aset(i, a[0], V{N: c.Const(w, ^uint64(k))})
	case "movk":
		k, _ := aimm(a[1])
		n := int64(0)
		if len(a) > 2 {
			s, _ := strings.CutPrefix(a[2], "lsl ")
			n, _ = aimm(s)
		}
		v := m.areg(a[0])
		if v.R != nil {
			sym.Unsup("%s", i.Text)
		}
		r := c.Or(c.And(v.N, c.Const(w, ^(uint64(0xffff)<<uint(n)))), c.Const(w, uint64(k)<<uint(n)))
		m.aset(i, a[0], V{N: r})
	case "umov":
		v, ok := vec(a[1])
		if !ok {
			sym.Unsup("%s", i.Text)
		}
		m.umov(i, a[0], v)
	case "fmov":
		v, ok := vec(a[1])
		if !ok {
			sym.Unsup("%s", i.Text)
		}
		m.umov(i, a[0], v)
	case "adrp", "adr":
		k, err := strconv.ParseUint(strings.TrimPrefix(a[1], "#"), 0, 64)
		if err != nil {
			sym.Unsup("%s", i.Text)
		}
		m.aset(i, a[0], V{N: c.Const(64, k)})
	case "add":
		m.aset(i, a[0], m.plus(i, m.areg(a[1]), m.aop2(i, a[2:], w)))
	case "sub":
		m.aset(i, a[0], m.minus(i, m.areg(a[1]), m.aop2(i, a[2:], w)))
	case "neg":
		m.aset(i, a[0], V{N: c.Neg(m.aop2(i, a[1:], w).N)})
	case "subs":
		x, y := m.areg(a[1]), m.aop2(i, a[2:], w)
		if x.R == nil || x.R == y.R {
			m.armSubFlags(i, x, y)
		} else {
			m.f = flags{}
		}
		m.aset(i, a[0], m.minus(i, x, y))
	case "adds":
		x, y := m.areg(a[1]), m.aop2(i, a[2:], w)
		r := m.plus(i, x, y)
		m.f = flags{}
		if r.R == nil {
			m.addFlags(x.N, y.N, r.N)
		}
		m.aset(i, a[0], r)
	case "cmp":
		m.armSubFlags(i, m.areg(a[0]), m.aop2(i, a[1:], w))
	case "tst":
		x, y := m.areg(a[0]), m.aop2(i, a[1:], w)
		if x.R != nil || y.R != nil {
			sym.Unsup("%s", i.Text)
		}
		m.logicFlags(c.And(x.N, y.N))
	case "and":
		logic(c.And, false)
	case "ands":
		logic(c.And, true)
	case "orr":
		logic(c.Or, false)
	case "eor":
		logic(c.Xor, false)
	case "bic":
		logic(func(x, y N) N { return c.And(x, c.Not(y)) }, false)
	case "mvn":
		m.aset(i, a[0], V{N: c.Not(m.aop2(i, a[1:], w).N)})
	case "lsl", "lsr", "asr", "ror":
		x := m.areg(a[1])
		k, ok := aimm(a[2])
		if !ok {
			s := m.areg(a[2])
			if s.R != nil || !s.N.IsConst() {
				sym.Unsup("%s", i.Text)
			}
			k = int64(s.N.K)
		}
		if x.R != nil {
			sym.Unsup("pointer operand (%s)", i.Text)
		}
		n := int(k) & (w - 1)
		var r N
		switch op {
		case "lsl":
			r = c.ShlC(x.N, n)
		case "lsr":
			r = c.LshrC(x.N, n)
		case "asr":
			r = c.AshrC(x.N, n)
		default:
			r = c.RotlC(x.N, (w-n)%w)
		}
		m.aset(i, a[0], V{N: r})
	case "rev":
		m.aset(i, a[0], V{N: m.swap(m.areg(a[1]).N)})
	case "ldr", "ldur", "ldrb", "ldurb", "ldrh", "ldurh", "ldrsw":
		n := w / 8
		switch {
		case strings.HasSuffix(op, "b"):
			n = 1
		case strings.HasSuffix(op, "h"):
			n = 2
		case op == "ldrsw":
			n = 4
		}
		p, commit := m.amem(i, a[1:])
		v := m.load(i, p, n)
		if v.R == nil && v.N.W < w {
			if op == "ldrsw" {
				v.N = c.SExt(v.N, w)
			} else {
				v.N = c.ZExt(v.N, w)
			}
		}
		commit()
		m.aset(i, a[0], v)
	case "str", "stur", "strb", "strh", "sturb", "sturh":
		n := w / 8
		switch {
		case strings.HasSuffix(op, "b"):
			n = 1
		case strings.HasSuffix(op, "h"):
			n = 2
		}
		v := m.areg(a[0])
		p, commit := m.amem(i, a[1:])
		if v.R == nil && v.N.W > 8*n {
			v.N = c.Extract(v.N, 0, 8*n)
		}
		commit() // a push moves the stack pointer first
		m.store(i, p, v, n)
	case "ldp":
		p, commit := m.amem(i, a[2:])
		x, y := m.load(i, p, w/8), m.load(i, add(p, int64(w/8), c), w/8)
		commit()
		m.aset(i, a[0], x)
		m.aset(i, a[1], y)
	case "stp":
		p, commit := m.amem(i, a[2:])
		x, y := m.areg(a[0]), m.areg(a[1])
		commit()
		m.store(i, p, x, w/8)
		m.store(i, add(p, int64(w/8), c), y, w/8)
	default:
		sym.Unsup("instruction %s", i.Text)
	}
}

func (m *M) umov(i Inst, dst string, v vop) {
	s := m.vreg(v.r)
	n := 32
	if dst[0] == 'x' {
		n = 64
	}
	var r N
	switch {
	case v.size == 4 || v.el == 's' && v.lane >= 0:
		k := max(v.lane, 0)
		r = s[k]
	case v.size == 8 || v.el == 'd' && v.lane >= 0:
		k := max(v.lane, 0)
		r = m.C.Concat(s[2*k+1], s[2*k])
	case v.el == 'b' && v.lane >= 0:
		r = m.bytesOf(s)[v.lane]
	default:
		sym.Unsup("%s", i.Text)
	}
	if r.W > n {
		sym.Unsup("%s", i.Text)
	}
	m.aset(i, dst, V{N: m.C.ZExt(r, n)})
}

func (m *M) neon(i Inst) {
	c := m.C
	a := i.Args
	op := i.Op
	zero := c.Const(32, 0)
	// structure loads and stores
	if strings.HasPrefix(a[0], "{") {
		list := a[0]
		lane := -1
		if j := strings.Index(list, "}"); j >= 0 {
			if s := strings.TrimSpace(list[j+1:]); s != "" {
				k, err := strconv.Atoi(strings.Trim(s, "[]"))
				if err != nil {
					sym.Unsup("%s", i.Text)
				}
				lane = k
			}
			list = strings.TrimSpace(list[1:j])
		}
		if strings.Contains(list, "-") {
			sym.Unsup("register range (%s)", i.Text)
		}
		p, commit := m.amem(i, a[1:])
		if op != "ld1" && op != "st1" {
			sym.Unsup("instruction %s", i.Text)
		}
		for _, r := range splitArgs(list) {
			o, ok := vec(r)
			if !ok {
				sym.Unsup("%s", i.Text)
			}
			if lane >= 0 {
				if o.el != 's' {
					sym.Unsup("%s", i.Text)
				}
				v := m.vreg(o.r)
				if op == "ld1" {
					v[lane] = m.load(i, p, 4).N
					m.x[o.r] = v
				} else {
					m.store(i, p, V{N: v[lane]}, 4)
				}
				p = add(p, 4, c)
				continue
			}
			n := 16
			if o.arr == "8b" || o.arr == "2s" || o.arr == "4h" || o.arr == "1d" {
				n = 8
			}
			if op == "ld1" {
				m.x[o.r] = m.loadX(i, p, n)
			} else {
				m.storeX(i, p, m.vreg(o.r), n)
			}
			p = add(p, int64(n), c)
		}
		commit()
		return
	}
	d, _ := vec(a[0])
	set := func(v [4]N) { m.x[d.r] = v }
	low := func(v [4]N) [4]N { // 64-bit arrangements clear the upper half
		if d.arr == "8b" || d.arr == "2s" || d.arr == "4h" {
			v[2], v[3] = zero, zero
		}
		return v
	}
	src := func(k int) [4]N {
		o, ok := vec(a[k])
		if !ok {
			sym.Unsup("%s", i.Text)
		}
		return m.vreg(o.r)
	}
	lanes := func(f func(x, y N) N) {
		x, y := src(1), src(2)
		var v [4]N
		for j := range v {
			v[j] = f(x[j], y[j])
		}
		set(low(v))
	}
	words := func() {
		if d.el != 's' {
			sym.Unsup("%s", i.Text)
		}
	}
	switch op {
	case "ldr", "ldur":
		p, commit := m.amem(i, a[1:])
		if d.size < 4 {
			sym.Unsup("%s", i.Text)
		}
		set(m.loadX(i, p, d.size))
		commit()
	case "str", "stur":
		p, commit := m.amem(i, a[1:])
		if d.size < 4 {
			sym.Unsup("%s", i.Text)
		}
		m.storeX(i, p, m.vreg(d.r), d.size)
		commit()
	case "ldp", "stp":
		if d.size < 4 {
			sym.Unsup("%s", i.Text)
		}
		p, commit := m.amem(i, a[2:])
		e, _ := vec(a[1])
		p2 := add(p, int64(d.size), c)
		if op == "ldp" {
			x, y := m.loadX(i, p, d.size), m.loadX(i, p2, d.size)
			m.x[d.r], m.x[e.r] = x, y
		} else {
			m.storeX(i, p, m.vreg(d.r), d.size)
			m.storeX(i, p2, m.vreg(e.r), d.size)
		}
		commit()
	case "mov", "ins", "fmov":
		if isAreg(a[1]) { // from a general register
			g := m.areg(a[1])
			if g.R != nil {
				sym.Unsup("%s", i.Text)
			}
			v := [4]N{zero, zero, zero, zero}
			if d.lane >= 0 {
				v = m.vreg(d.r)
			}
			k := max(d.lane, 0)
			switch {
			case d.el == 's' || d.size == 4:
				v[k] = c.Extract(g.N, 0, 32)
			case d.el == 'd' || d.size == 8:
				v[2*k], v[2*k+1] = c.Extract(g.N, 0, 32), c.Extract(g.N, 32, 32)
			default:
				sym.Unsup("%s", i.Text)
			}
			set(v)
			return
		}
		s, ok := vec(a[1])
		if !ok {
			sym.Unsup("%s", i.Text)
		}
		x := m.vreg(s.r)
		switch {
		case d.arr == "16b" || d.arr == "4s" || d.arr == "2d":
			set(x)
		case d.arr == "8b":
			set(low(x))
		case d.size == 4 && (s.size == 4 || s.el == 's'):
			set([4]N{x[max(s.lane, 0)], zero, zero, zero})
		case d.size == 8 && (s.size == 8 || s.el == 'd'):
			k := max(s.lane, 0)
			set([4]N{x[2*k], x[2*k+1], zero, zero})
		case d.lane >= 0 && d.el == 's' && s.lane >= 0:
			v := m.vreg(d.r)
			v[d.lane] = x[s.lane]
			set(v)
		case d.lane >= 0 && d.el == 'd' && s.lane >= 0:
			v := m.vreg(d.r)
			v[2*d.lane], v[2*d.lane+1] = x[2*s.lane], x[2*s.lane+1]
			set(v)
		default:
			sym.Unsup("%s", i.Text)
		}
	case "dup":
		if isAreg(a[1]) {
			g := m.areg(a[1])
			words()
			v := c.Extract(g.N, 0, 32)
			set(low([4]N{v, v, v, v}))
			return
		}
		s, _ := vec(a[1])
		words()
		if s.el != 's' || s.lane < 0 {
			sym.Unsup("%s", i.Text)
		}
		v := m.vreg(s.r)[s.lane]
		if d.size != 0 {
			set([4]N{v, zero, zero, zero})
			return
		}
		set(low([4]N{v, v, v, v}))
	case "movi":
		k, ok := aimm(a[1])
		if !ok || k != 0 {
			sym.Unsup("%s", i.Text)
		}
		set([4]N{zero, zero, zero, zero})
	case "rev32", "rev64", "rev16":
		if op != "rev32" || d.el != 'b' {
			sym.Unsup("%s", i.Text)
		}
		x := src(1)
		for j := range x {
			x[j] = m.swap(x[j])
		}
		set(low(x))
	case "add":
		words()
		lanes(c.Add)
	case "sub":
		words()
		lanes(c.Sub)
	case "eor":
		lanes(c.Xor)
	case "and":
		lanes(c.And)
	case "orr":
		lanes(c.Or)
	case "bic":
		lanes(func(x, y N) N { return c.And(x, c.Not(y)) })
	case "shl", "ushr", "sshr":
		words()
		x := src(1)
		k, ok := aimm(a[2])
		if !ok {
			sym.Unsup("%s", i.Text)
		}
		for j := range x {
			switch op {
			case "shl":
				x[j] = c.ShlC(x[j], int(k))
			case "ushr":
				x[j] = c.LshrC(x[j], int(k))
			default:
				x[j] = c.AshrC(x[j], min(int(k), 31))
			}
		}
		set(low(x))
	case "ext":
		if d.arr != "16b" {
			sym.Unsup("%s", i.Text)
		}
		x, y := m.bytesOf(src(1)), m.bytesOf(src(2))
		k, _ := aimm(a[3])
		var r [16]N
		for j := range r {
			if q := j + int(k); q < 16 {
				r[j] = x[q]
			} else {
				r[j] = y[q-16]
			}
		}
		set(m.fromBytes(r))
	case "sha1c", "sha1p", "sha1m":
		x, w := m.vreg(d.r), src(2)
		e := src(1)[0]
		f := map[string]int{"sha1c": 0, "sha1p": 1, "sha1m": 2}[op]
		// x[0] is A, ..., x[3] is D
		for j := 0; j < 4; j++ {
			t := c.Add(c.Add(e, c.RotlC(x[0], 5)), c.Add(m.fn(f, x[1], x[2], x[3]), w[j]))
			e, x[3], x[2], x[1], x[0] = x[3], x[2], c.RotlC(x[1], 30), x[0], t
		}
		set(x)
	case "sha1h":
		set([4]N{c.RotlC(src(1)[0], 30), zero, zero, zero})
	case "sha1su0":
		x, y, z := m.vreg(d.r), src(1), src(2)
		// (y<63:0> : x<127:64>) ^ x ^ z
		s := [4]N{x[2], x[3], y[0], y[1]}
		var v [4]N
		for j := range v {
			v[j] = c.Xor(c.Xor(s[j], x[j]), z[j])
		}
		set(v)
	case "sha1su1":
		x, y := m.vreg(d.r), src(1)
		t := [4]N{c.Xor(x[0], y[1]), c.Xor(x[1], y[2]), c.Xor(x[2], y[3]), x[3]}
		// the last word is ROL(t[3], 1) ^ ROL(t[0], 2)
		r := [4]N{c.RotlC(t[0], 1), c.RotlC(t[1], 1), c.RotlC(t[2], 1), c.RotlC(c.Xor(t[3], c.RotlC(t[0], 1)), 1)}
		set(r)
	default:
		sym.Unsup("instruction %s", i.Text)
	}
}
