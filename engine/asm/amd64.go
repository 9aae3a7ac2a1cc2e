package asm

import (
	"strconv"
	"strings"

	"verif/engine/sym"
)

var gp64 = map[string][2]any{}

func init() {
	add := func(n, r string, w int) { gp64[n] = [2]any{r, w} }
	for _, q := range [][4]string{{"rax", "eax", "ax", "al"}, {"rbx", "ebx", "bx", "bl"}, {"rcx", "ecx", "cx", "cl"}, {"rdx", "edx", "dx", "dl"},
		{"rsi", "esi", "si", "sil"}, {"rdi", "edi", "di", "dil"}, {"rbp", "ebp", "bp", "bpl"}, {"rsp", "esp", "sp", "spl"}} {
		add(q[0], q[0], 64)
		add(q[1], q[0], 32)
		add(q[2], q[0], 16)
		add(q[3], q[0], 8)
	}
	for i := 8; i < 16; i++ {
		r := "r" + strconv.Itoa(i)
		add(r, r, 64)
		add(r+"d", r, 32)
		add(r+"w", r, 16)
		add(r+"b", r, 8)
	}
}

// X86Features are the CPU features an instruction needs beyond x86-64 (SSE2).
func X86Features(op string) []string {
	switch {
	case strings.HasPrefix(op, "sha1"), strings.HasPrefix(op, "sha256"):
		return []string{"SHA"}
	case op == "pinsrd", op == "pextrd", op == "pinsrq", op == "pextrq", op == "pblendw", op == "pinsrb", op == "pextrb", op == "ptest", op == "blendps":
		return []string{"SSE4"}
	case op == "pshufb", op == "palignr":
		return []string{"SSSE3"}
	case op == "movbe":
		return []string{"MOVBE"}
	case op == "rorx", op == "sarx", op == "shlx", op == "shrx":
		return []string{"BMI2"}
	case op == "andn":
		return []string{"BMI1"}
	case op == "lddqu":
		return []string{"SSE3"}
	case strings.HasPrefix(op, "v") && op != "verr" && op != "verw":
		return []string{"AVX"}
	}
	return nil
}

func (m *M) reg(n string) V {
	q, ok := gp64[n]
	if !ok {
		sym.Unsup("register %s", n)
	}
	r, w := q[0].(string), q[1].(int)
	v, ok := m.g[r]
	if !ok {
		v = V{N: m.undef(64, r)}
		m.g[r] = v
	}
	if w == 64 {
		return v
	}
	if v.R != nil {
		sym.Unsup("machine code uses part of a pointer")
	}
	return V{N: m.C.Extract(v.N, 0, w)}
}

func (m *M) setReg(i Inst, n string, v V) {
	q, ok := gp64[n]
	if !ok {
		sym.Unsup("register %s", n)
	}
	r, w := q[0].(string), q[1].(int)
	if r == "rsp" {
		if v.R != m.Stack {
			sym.Unsup("stack pointer set to something else (%s)", i.Text)
		}
		if v.O < m.Low {
			m.Low = v.O
			m.Stack.lo = v.O
		}
		m.Stack.lo = v.O
	}
	switch w {
	case 64:
		m.g[r] = v
	case 32:
		m.g[r] = V{N: m.C.ZExt(v.N, 64)}
	default:
		old := m.reg(r)
		if old.R != nil {
			sym.Unsup("machine code changes part of a pointer")
		}
		m.g[r] = V{N: m.C.Concat(m.C.Extract(old.N, w, 64-w), v.N)}
	}
}

func xmm(n string) bool { return strings.HasPrefix(n, "xmm") && !strings.Contains(n, "[") }

func (m *M) xreg(n string) [4]N {
	v, ok := m.x[n]
	if !ok {
		for k := range v {
			v[k] = m.undef(32, n)
		}
		m.x[n] = v
	}
	return v
}

// mem parses a memory operand: size in bytes (0: not given) and address.
func (m *M) mem(i Inst, a string) (V, int, bool) {
	j := strings.IndexByte(a, '[')
	if j < 0 || !strings.HasSuffix(a, "]") {
		return V{}, 0, false
	}
	n := 0
	size, _, _ := strings.Cut(a[:j], " ")
	switch size {
	case "byte":
		n = 1
	case "word":
		n = 2
	case "dword":
		n = 4
	case "qword":
		n = 8
	case "xmmword":
		n = 16
	case "ymmword", "zmmword":
		sym.Unsup("wide vector access (%s)", i.Text)
	}
	if strings.Contains(a[:j], ":") {
		sym.Unsup("segment override (%s)", i.Text)
	}
	var base V
	have := false
	plus := func(v V) {
		if !have {
			base, have = v, true
			return
		}
		base = m.plus(i, base, v)
	}
	neg := false
	for _, t := range strings.Fields(a[j+1 : len(a)-1]) {
		switch {
		case t == "+":
			neg = false
			continue
		case t == "-":
			neg = true
			continue
		case t == "rip":
			plus(V{N: m.C.Const(64, i.Next)})
			continue
		}
		if _, ok := gp64[t]; ok {
			plus(m.reg(t))
			continue
		}
		if k, r, ok := strings.Cut(t, "*"); ok {
			s, err := strconv.Atoi(k)
			if err != nil {
				sym.Unsup("address %s", a)
			}
			v := m.reg(r)
			if v.R != nil {
				sym.Unsup("scaled pointer")
			}
			plus(V{N: m.C.MulC(v.N, uint64(s))})
			continue
		}
		k, err := strconv.ParseUint(t, 0, 64)
		if err != nil {
			sym.Unsup("address %s", a)
		}
		if neg {
			k = -k
		}
		plus(V{N: m.C.Const(64, k)})
	}
	return base, n, true
}

// plus adds two values.
func (m *M) plus(i Inst, a, b V) V {
	if a.R == nil && b.R != nil {
		a, b = b, a
	}
	if a.R != nil {
		if b.R != nil || !b.N.IsConst() {
			sym.Unsup("pointer arithmetic (%s)", i.Text)
		}
		return V{R: a.R, O: a.O + int64(b.N.K)}
	}
	return V{N: m.C.Add(a.N, b.N)}
}

func (m *M) minus(i Inst, a, b V) V {
	if a.R != nil && b.R == a.R {
		return V{N: m.C.Const(64, uint64(a.O-b.O))}
	}
	if a.R != nil && b.R == nil && b.N.IsConst() {
		return V{R: a.R, O: a.O - int64(b.N.K)}
	}
	if a.R != nil || b.R != nil {
		sym.Unsup("pointer arithmetic (%s)", i.Text)
	}
	return V{N: m.C.Sub(a.N, b.N)}
}

// width of an operand in bytes.
func (m *M) width(args []string) int {
	for _, a := range args {
		if q, ok := gp64[a]; ok {
			return q[1].(int) / 8
		}
	}
	for _, a := range args {
		for _, q := range []struct {
			s string
			n int
		}{{"byte ", 1}, {"word ", 2}, {"dword ", 4}, {"qword ", 8}, {"xmmword ", 16}} {
			if strings.HasPrefix(a, q.s) {
				return q.n
			}
		}
	}
	return 8
}

func (m *M) get(i Inst, a string, n int) V {
	if _, ok := gp64[a]; ok {
		return m.reg(a)
	}
	if p, k, ok := m.mem(i, a); ok {
		if k == 0 {
			k = n
		}
		return m.load(i, p, k)
	}
	k, err := strconv.ParseInt(a, 0, 64)
	if err != nil {
		u, err2 := strconv.ParseUint(a, 0, 64)
		if err2 != nil {
			sym.Unsup("operand %s", a)
		}
		k = int64(u)
	}
	return V{N: m.C.Const(8*n, uint64(k))}
}

func (m *M) put(i Inst, a string, v V, n int) {
	if _, ok := gp64[a]; ok {
		m.setReg(i, a, v)
		return
	}
	p, k, ok := m.mem(i, a)
	if !ok {
		sym.Unsup("operand %s", a)
	}
	if k == 0 {
		k = n
	}
	m.store(i, p, v, k)
}

// xget reads a 16-byte operand; legacy operands in memory must be aligned.
func (m *M) xget(i Inst, a string, needAlign bool) [4]N {
	if xmm(a) {
		return m.xreg(a)
	}
	p, n, ok := m.mem(i, a)
	if !ok {
		sym.Unsup("operand %s", a)
	}
	if n == 0 {
		n = 16
	}
	if needAlign {
		m.aligned(i, p, 16)
	}
	return m.loadX(i, p, n)
}

func imm(a string) int {
	k, err := strconv.ParseUint(a, 0, 64)
	if err != nil {
		sym.Unsup("immediate %s", a)
	}
	return int(k)
}

func (m *M) addFlags(a, b, r N) {
	c := m.C
	w := r.W
	sa, sb, sr := c.Extract(a, w-1, 1), c.Extract(b, w-1, 1), c.Extract(r, w-1, 1)
	m.f = flags{z: c.Eq(r, c.Const(w, 0)), c: c.Ult(r, a), s: sr, o: c.And(c.Not(c.Xor(sa, sb)), c.Xor(sa, sr))}
}

func (m *M) subFlags(i Inst, a, b V) {
	c := m.C
	if a.R != nil || b.R != nil {
		switch {
		case a.R == b.R:
			d := a.O - b.O
			m.f = flags{z: c.Bool(d == 0), c: c.Bool(d < 0), s: c.Bool(d < 0), o: c.False()}
		case a.R != nil && b.R == nil && b.N.IsConst() && b.N.K == 0:
			m.f = flags{z: c.False(), c: c.False()}
		default:
			sym.Unsup("comparison of unrelated pointers (%s)", i.Text)
		}
		return
	}
	r := c.Sub(a.N, b.N)
	w := r.W
	sa, sb, sr := c.Extract(a.N, w-1, 1), c.Extract(b.N, w-1, 1), c.Extract(r, w-1, 1)
	m.f = flags{z: c.Eq(a.N, b.N), c: c.Ult(a.N, b.N), s: sr, o: c.And(c.Xor(sa, sb), c.Xor(sa, sr))}
}

func (m *M) logicFlags(r N) {
	c := m.C
	m.f = flags{z: c.Eq(r, c.Const(r.W, 0)), c: c.False(), s: c.Extract(r, r.W-1, 1), o: c.False()}
}

func (m *M) x86cond(i Inst, cc string) bool {
	c, f := m.C, m.f
	not := func(n N) N {
		if n == nil {
			return nil
		}
		return c.Not(n)
	}
	xor := func(a, b N) N {
		if a == nil || b == nil {
			return nil
		}
		return c.Xor(a, b)
	}
	or := func(a, b N) N {
		if a == nil || b == nil {
			return nil
		}
		return c.Or(a, b)
	}
	switch cc {
	case "e", "z":
		return m.cond(i, f.z)
	case "ne", "nz":
		return m.cond(i, not(f.z))
	case "b", "c", "nae":
		return m.cond(i, f.c)
	case "ae", "nc", "nb":
		return m.cond(i, not(f.c))
	case "be", "na":
		return m.cond(i, or(f.c, f.z))
	case "a", "nbe":
		return m.cond(i, not(or(f.c, f.z)))
	case "s":
		return m.cond(i, f.s)
	case "ns":
		return m.cond(i, not(f.s))
	case "l", "nge":
		return m.cond(i, xor(f.s, f.o))
	case "ge", "nl":
		return m.cond(i, not(xor(f.s, f.o)))
	case "le", "ng":
		return m.cond(i, or(f.z, xor(f.s, f.o)))
	case "g", "nle":
		return m.cond(i, not(or(f.z, xor(f.s, f.o))))
	}
	sym.Unsup("condition %s", cc)
	return false
}

func (m *M) runX86(pc uint64, ra V) {
	m.g["rsp"] = V{R: m.Stack, O: m.sp0}
	m.Stack.lo = m.sp0
	rbp := V{N: m.C.Var(64, "rbp"+m.tag)}
	m.g["rbp"] = rbp
	for {
		i, ok := m.Im.code[pc]
		if !ok {
			sym.Unsup("execution leaves the decoded code at %x", pc)
		}
		if m.Steps++; m.Steps > 20000 {
			sym.Unsup("the machine code runs too long")
		}
		pc = i.Next
		switch {
		case i.Op == "ret":
			sp := m.g["rsp"]
			t := m.load(i, sp, 8)
			m.setReg(i, "rsp", V{R: sp.R, O: sp.O + 8})
			if t.R == nil && t.N == ra.N {
				if sp.O != m.sp0 {
					fault(i, "returns with the stack pointer off by %d", sp.O-m.sp0)
				}
				if b := m.reg("rbp"); b != rbp {
					fault(i, "the frame pointer is not preserved")
				}
				return
			}
			if t.R == nil && t.N.IsConst() {
				pc = t.N.K
				continue
			}
			fault(i, "the return address is overwritten")
		case i.Op == "call":
			t, ok := m.Im.target(i)
			if !ok {
				sym.Unsup("indirect call")
			}
			sp := V{R: m.Stack, O: m.g["rsp"].O - 8}
			m.setReg(i, "rsp", sp)
			m.store(i, sp, V{N: m.C.Const(64, i.Next)}, 8)
			pc = t
		case i.Op == "jmp":
			t, ok := m.Im.target(i)
			if !ok {
				sym.Unsup("indirect jump")
			}
			pc = t
		case strings.HasPrefix(i.Op, "j"):
			t, ok := m.Im.target(i)
			if !ok {
				sym.Unsup("jump %s", i.Text)
			}
			if m.x86cond(i, i.Op[1:]) {
				pc = t
			}
		default:
			m.x86(i)
		}
	}
}

func (m *M) x86(i Inst) {
	c := m.C
	a := i.Args
	op := i.Op
	for _, s := range a {
		if strings.HasPrefix(s, "ymm") || strings.HasPrefix(s, "zmm") || strings.HasPrefix(s, "k") {
			sym.Unsup("wide vectors (%s)", i.Text)
		}
	}
	n := m.width(a)
	bin := func(f func(x, y N) N) {
		x, y := m.get(i, a[0], n), m.get(i, a[1], n)
		if x.R != nil || y.R != nil {
			sym.Unsup("pointer operand (%s)", i.Text)
		}
		r := f(x.N, y.N)
		m.put(i, a[0], V{N: r}, n)
		m.logicFlags(r)
	}
	switch op {
	case "nop", "endbr64", "vzeroupper", "sfence", "lfence", "mfence", "pause", "data16":
		return
	case "mov", "movabs":
		m.put(i, a[0], m.get(i, a[1], n), n)
		return
	case "movzx":
		v := m.get(i, a[1], m.width(a[1:]))
		m.put(i, a[0], V{N: c.ZExt(v.N, 8*m.width(a[:1]))}, 0)
		return
	case "movsx", "movsxd":
		v := m.get(i, a[1], m.width(a[1:]))
		m.put(i, a[0], V{N: c.SExt(v.N, 8*m.width(a[:1]))}, 0)
		return
	case "movbe":
		v := m.get(i, a[1], n)
		m.put(i, a[0], V{N: m.swap(v.N)}, n)
		return
	case "bswap":
		m.put(i, a[0], V{N: m.swap(m.get(i, a[0], n).N)}, n)
		return
	case "lea":
		p, _, ok := m.mem(i, a[1])
		if !ok {
			sym.Unsup("%s", i.Text)
		}
		if n == 4 {
			if p.R != nil {
				sym.Unsup("%s", i.Text)
			}
			p.N = c.Extract(p.N, 0, 32)
		}
		m.put(i, a[0], p, n)
		return
	case "push":
		sp := V{R: m.Stack, O: m.g["rsp"].O - 8}
		v := m.get(i, a[0], 8)
		m.setReg(i, "rsp", sp)
		m.store(i, sp, v, 8)
		return
	case "pop":
		sp := m.g["rsp"]
		m.put(i, a[0], m.load(i, sp, 8), 8)
		m.setReg(i, "rsp", V{R: sp.R, O: sp.O + 8})
		return
	case "add":
		x, y := m.get(i, a[0], n), m.get(i, a[1], n)
		r := m.plus(i, x, y)
		m.put(i, a[0], r, n)
		m.f = flags{}
		if r.R == nil {
			m.addFlags(x.N, y.N, r.N)
		}
		return
	case "sub":
		x, y := m.get(i, a[0], n), m.get(i, a[1], n)
		if x.R == nil || y.R == x.R {
			m.subFlags(i, x, y)
		} else {
			m.f = flags{}
		}
		m.put(i, a[0], m.minus(i, x, y), n)
		return
	case "inc", "dec":
		x := m.get(i, a[0], n)
		k := int64(1)
		if op == "dec" {
			k = -1
		}
		cf := m.f.c
		var r V
		if x.R != nil {
			r = V{R: x.R, O: x.O + k}
			m.f = flags{}
		} else {
			r = V{N: c.Add(x.N, c.Const(8*n, uint64(k)))}
			m.f = flags{z: c.Eq(r.N, c.Const(8*n, 0)), s: c.Extract(r.N, 8*n-1, 1)}
		}
		m.f.c = cf
		m.put(i, a[0], r, n)
		return
	case "cmp":
		m.subFlags(i, m.get(i, a[0], n), m.get(i, a[1], n))
		return
	case "test":
		x, y := m.get(i, a[0], n), m.get(i, a[1], n)
		if x.R != nil && x == y {
			m.f = flags{z: c.False(), c: c.False(), o: c.False()}
			return
		}
		m.logicFlags(c.And(x.N, y.N))
		return
	case "and":
		x, y := m.get(i, a[0], n), m.get(i, a[1], n)
		if y.R != nil {
			x, y = y, x
		}
		if x.R != nil { // rounding an address down
			if y.R != nil || !y.N.IsConst() || n != 8 {
				sym.Unsup("pointer operand (%s)", i.Text)
			}
			low := ^y.N.K
			if low&(low+1) != 0 || int64(x.R.align) < int64(low+1) {
				fault(i, "the result depends on an unknown alignment")
			}
			m.put(i, a[0], V{R: x.R, O: x.O - (x.R.res+x.O)&int64(low)}, n)
			m.f = flags{}
			return
		}
		bin(c.And)
		return
	case "or":
		bin(c.Or)
		return
	case "xor":
		if a[0] == a[1] {
			m.put(i, a[0], V{N: c.Const(8*n, 0)}, n)
			m.logicFlags(c.Const(8*n, 0))
			return
		}
		bin(c.Xor)
		return
	case "not":
		x := m.get(i, a[0], n)
		m.put(i, a[0], V{N: c.Not(x.N)}, n)
		return
	case "neg":
		x := m.get(i, a[0], n)
		m.f = flags{}
		m.put(i, a[0], V{N: c.Neg(x.N)}, n)
		return
	case "shl", "sal", "shr", "sar", "rol", "ror":
		k := 1
		if len(a) > 1 {
			v := m.get(i, a[1], 1)
			if !v.N.IsConst() {
				sym.Unsup("shift by a variable amount (%s)", i.Text)
			}
			k = int(v.N.K)
		}
		w := m.width(a[:1]) * 8
		if w == 64 {
			k &= 63
		} else {
			k &= 31
		}
		x := m.get(i, a[0], w/8)
		if x.R != nil {
			sym.Unsup("pointer operand (%s)", i.Text)
		}
		var r N
		switch op {
		case "shl", "sal":
			r = c.ShlC(x.N, k)
		case "shr":
			r = c.LshrC(x.N, k)
		case "sar":
			r = c.AshrC(x.N, k)
		case "rol":
			r = c.RotlC(x.N, k%w)
		case "ror":
			r = c.RotlC(x.N, (w-k%w)%w)
		}
		m.f = flags{}
		if k != 0 && op[0] == 's' {
			m.f = flags{z: c.Eq(r, c.Const(w, 0)), s: c.Extract(r, w-1, 1)}
		}
		m.put(i, a[0], V{N: r}, w/8)
		return
	case "rorx":
		x := m.get(i, a[1], n)
		k := imm(a[2])
		m.put(i, a[0], V{N: c.RotlC(x.N, (8*n-k%(8*n))%(8*n))}, n)
		return
	case "prefetcht0", "prefetcht1", "prefetcht2", "prefetchnta":
		return
	}
	m.sse(i)
}

func (m *M) swap(v N) N {
	var ps []N
	for k := 0; k < v.W; k += 8 {
		ps = append(ps, m.C.Extract(v, k, 8))
	}
	return m.C.Concat(ps...)
}

func (m *M) sse(i Inst) {
	c := m.C
	op := i.Op
	a := i.Args
	vex := strings.HasPrefix(op, "v")
	base := op
	if vex {
		base = op[1:]
	}
	zero := c.Const(32, 0)
	setx := func(r string, v [4]N) {
		if !xmm(r) {
			sym.Unsup("%s", i.Text)
		}
		m.x[r] = v
	}
	// moves
	switch base {
	case "movdqa", "movdqu", "movaps", "movups", "movapd", "movupd", "lddqu", "movntdq", "movntdqa":
		al := strings.HasSuffix(base, "a") || base == "movaps" || base == "movapd" || base == "movntdq"
		if xmm(a[0]) {
			setx(a[0], m.xget(i, a[1], al))
			return
		}
		p, _, ok := m.mem(i, a[0])
		if !ok {
			sym.Unsup("%s", i.Text)
		}
		if al {
			m.aligned(i, p, 16)
		}
		m.storeX(i, p, m.xreg(a[1]), 16)
		return
	case "movd", "movq", "movss", "movsd":
		n := 4
		if base == "movq" || base == "movsd" {
			n = 8
		}
		if xmm(a[0]) {
			var v [4]N
			switch {
			case xmm(a[1]) && (base == "movss" || base == "movsd"):
				v = m.xreg(a[0])
				s := m.xreg(a[1])
				copy(v[:n/4], s[:n/4])
			case xmm(a[1]):
				s := m.xreg(a[1])
				v = [4]N{s[0], s[1], zero, zero}
			default:
				s := m.get(i, a[1], n)
				if s.R != nil {
					sym.Unsup("%s", i.Text)
				}
				v = [4]N{zero, zero, zero, zero}
				for k := 0; 4*k < n; k++ {
					v[k] = c.Extract(s.N, 32*k, 32)
				}
			}
			setx(a[0], v)
			return
		}
		s := m.xreg(a[1])
		v := s[0]
		if n == 8 {
			v = c.Concat(s[1], s[0])
		}
		m.put(i, a[0], V{N: v}, n)
		return
	case "pinsrd":
		k := imm(a[len(a)-1]) & 3
		src := a[len(a)-2]
		v := m.xreg(a[0])
		if vex {
			v = m.xreg(a[1])
		}
		s := m.get(i, src, 4)
		v[k] = c.Extract(s.N, 0, 32)
		setx(a[0], v)
		return
	case "pextrd":
		s := m.xreg(a[1])
		k := imm(a[2]) & 3
		m.put(i, a[0], V{N: s[k]}, 4)
		return
	case "pinsrq":
		k := imm(a[len(a)-1]) & 1
		v := m.xreg(a[0])
		if vex {
			v = m.xreg(a[1])
		}
		s := m.get(i, a[len(a)-2], 8)
		v[2*k], v[2*k+1] = c.Extract(s.N, 0, 32), c.Extract(s.N, 32, 32)
		setx(a[0], v)
		return
	case "pextrq":
		s := m.xreg(a[1])
		k := imm(a[2]) & 1
		m.put(i, a[0], V{N: c.Concat(s[2*k+1], s[2*k])}, 8)
		return
	case "pshufd":
		s := m.xget(i, a[1], !vex)
		k := imm(a[2])
		setx(a[0], [4]N{s[k&3], s[k>>2&3], s[k>>4&3], s[k>>6&3]})
		return
	}
	// dst, src or dst, src1, src2 (plus immediate)
	var k int
	if strings.HasPrefix(base, "palignr") || strings.HasPrefix(base, "pblendw") || base == "shufps" || strings.HasPrefix(base, "sha1rnds4") || base == "blendps" {
		k = imm(a[len(a)-1])
		a = a[:len(a)-1]
	}
	switch base {
	case "pslldq", "psrldq", "pslld", "psrld", "psrad", "psllq", "psrlq":
		s := m.xreg(a[0])
		ks := a[1]
		if vex {
			s = m.xget(i, a[1], false)
			ks = a[2]
		}
		if xmm(ks) || strings.Contains(ks, "[") {
			sym.Unsup("%s", i.Text)
		}
		k := imm(ks)
		var v [4]N
		switch base {
		case "pslld", "psrld", "psrad":
			for j := range v {
				switch {
				case base == "psrad":
					v[j] = c.AshrC(s[j], min(k, 31))
				case k > 31:
					v[j] = zero
				case base == "pslld":
					v[j] = c.ShlC(s[j], k)
				default:
					v[j] = c.LshrC(s[j], k)
				}
			}
		case "psllq", "psrlq":
			for j := 0; j < 4; j += 2 {
				q := c.Concat(s[j+1], s[j])
				switch {
				case k > 63:
					q = c.Const(64, 0)
				case base == "psllq":
					q = c.ShlC(q, k)
				default:
					q = c.LshrC(q, k)
				}
				v[j], v[j+1] = c.Extract(q, 0, 32), c.Extract(q, 32, 32)
			}
		default:
			b := m.bytesOf(s)
			var r [16]N
			for j := range r {
				q := j + k
				if base == "pslldq" {
					q = j - k
				}
				if q < 0 || q > 15 {
					r[j] = c.Const(8, 0)
				} else {
					r[j] = b[q]
				}
			}
			v = m.fromBytes(r)
		}
		setx(a[0], v)
		return
	}
	if len(a) < 2 {
		sym.Unsup("instruction %s", i.Text)
	}
	x := m.xreg(a[0])
	src := a[len(a)-1]
	if vex && len(a) == 3 {
		x = m.xreg(a[1])
	}
	lanes := func(f func(x, y N) N) {
		y := m.xget(i, src, !vex)
		var v [4]N
		for j := range v {
			v[j] = f(x[j], y[j])
		}
		setx(a[0], v)
	}
	switch base {
	case "paddd":
		lanes(c.Add)
	case "psubd":
		lanes(c.Sub)
	case "pand", "andps", "andpd":
		lanes(c.And)
	case "por", "orps", "orpd":
		lanes(c.Or)
	case "pxor", "xorps", "xorpd":
		if src == a[0] && !vex || vex && a[1] == a[2] {
			setx(a[0], [4]N{zero, zero, zero, zero})
			return
		}
		lanes(c.Xor)
	case "pandn", "andnps", "andnpd":
		lanes(func(p, q N) N { return c.And(c.Not(p), q) })
	case "pshufb":
		y := m.bytesOf(m.xget(i, src, !vex))
		b := m.bytesOf(x)
		var r [16]N
		for j := range r {
			if !y[j].IsConst() {
				sym.Unsup("pshufb with a variable mask")
			}
			if y[j].K&0x80 != 0 {
				r[j] = c.Const(8, 0)
			} else {
				r[j] = b[y[j].K&15]
			}
		}
		setx(a[0], m.fromBytes(r))
	case "palignr":
		y := m.bytesOf(m.xget(i, src, !vex))
		b := m.bytesOf(x)
		var r [16]N
		for j := range r {
			q := j + k
			switch {
			case q < 16:
				r[j] = y[q]
			case q < 32:
				r[j] = b[q-16]
			default:
				r[j] = c.Const(8, 0)
			}
		}
		setx(a[0], m.fromBytes(r))
	case "pblendw":
		y := m.bytesOf(m.xget(i, src, !vex))
		b := m.bytesOf(x)
		for j := range b {
			if k>>(j/2)&1 == 1 {
				b[j] = y[j]
			}
		}
		setx(a[0], m.fromBytes(b))
	case "blendps":
		y := m.xget(i, src, !vex)
		for j := range x {
			if k>>j&1 == 1 {
				x[j] = y[j]
			}
		}
		setx(a[0], x)
	case "shufps":
		y := m.xget(i, src, !vex)
		setx(a[0], [4]N{x[k&3], x[k>>2&3], y[k>>4&3], y[k>>6&3]})
	case "punpckldq", "unpcklps":
		y := m.xget(i, src, !vex)
		setx(a[0], [4]N{x[0], y[0], x[1], y[1]})
	case "punpckhdq", "unpckhps":
		y := m.xget(i, src, !vex)
		setx(a[0], [4]N{x[2], y[2], x[3], y[3]})
	case "punpcklqdq":
		y := m.xget(i, src, !vex)
		setx(a[0], [4]N{x[0], x[1], y[0], y[1]})
	case "punpckhqdq":
		y := m.xget(i, src, !vex)
		setx(a[0], [4]N{x[2], x[3], y[2], y[3]})
	case "sha1rnds4":
		setx(a[0], m.rnds4(x, m.xget(i, src, true), k&3))
	case "sha1nexte":
		y := m.xget(i, src, true)
		setx(a[0], [4]N{y[0], y[1], y[2], c.Add(y[3], c.RotlC(x[3], 30))})
	case "sha1msg1":
		y := m.xget(i, src, true)
		// W0 is lane 3
		setx(a[0], [4]N{c.Xor(y[2], x[0]), c.Xor(y[3], x[1]), c.Xor(x[0], x[2]), c.Xor(x[1], x[3])})
	case "sha1msg2":
		y := m.xget(i, src, true)
		w16 := c.RotlC(c.Xor(x[3], y[2]), 1)
		w17 := c.RotlC(c.Xor(x[2], y[1]), 1)
		w18 := c.RotlC(c.Xor(x[1], y[0]), 1)
		w19 := c.RotlC(c.Xor(x[0], w16), 1)
		setx(a[0], [4]N{w19, w18, w17, w16})
	default:
		sym.Unsup("instruction %s", i.Text)
	}
}

// rnds4: four SHA-1 rounds; A is lane 3, the words (with E folded into the
// first) are lanes 3 to 0.
func (m *M) rnds4(s, w [4]N, f int) [4]N {
	a, b, cc, d := s[3], s[2], s[1], s[0]
	var e N
	for r := 0; r < 4; r++ {
		t := m.C.Add(m.C.Add(m.fn(f, b, cc, d), m.C.RotlC(a, 5)), m.C.Add(w[3-r], m.C.Const(32, ks[f])))
		if e != nil {
			t = m.C.Add(t, e)
		}
		e, d, cc, b, a = d, cc, m.C.RotlC(b, 30), a, t
	}
	return [4]N{d, cc, b, a}
}

var ks = [4]uint64{0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6}

func (m *M) fn(f int, b, c, d N) N {
	t := m.C
	switch f {
	case 0:
		return t.Xor(t.And(b, c), t.And(t.Not(b), d))
	case 2:
		return t.Xor(t.Xor(t.And(b, c), t.And(b, d)), t.And(c, d))
	}
	return t.Xor(t.Xor(b, c), d)
}
