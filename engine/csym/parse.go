// Package csym is the C frontend: it compiles the C files of the cgo package
// to LLVM IR (clang -O0, then mem2reg) and executes functions symbolically on
// byte-granular memory.
package csym

import (
	"fmt"
	"strconv"
	"strings"
)

// Type is an LLVM type.
type Type struct {
	Kind   byte // i, p, v, a, s
	W      int  // integer width
	N      int  // array length
	Elem   *Type
	Fields []*Type
	Packed bool
	name   string
}

func (t *Type) align() int {
	switch t.Kind {
	case 'i':
		switch {
		case t.W <= 8:
			return 1
		case t.W <= 16:
			return 2
		case t.W <= 32:
			return 4
		}
		return 8
	case 'p':
		return 8
	case 'a':
		return t.Elem.align()
	case 's':
		a := 1
		if t.Packed {
			return 1
		}
		for _, f := range t.Fields {
			if k := f.align(); k > a {
				a = k
			}
		}
		return a
	}
	return 1
}

func (t *Type) Size() int {
	switch t.Kind {
	case 'i':
		n := (t.W + 7) / 8
		a := t.align()
		return (n + a - 1) / a * a
	case 'p':
		return 8
	case 'a':
		return t.N * t.Elem.Size()
	case 's':
		n := 0
		for i := range t.Fields {
			n = t.Off(i) + t.Fields[i].Size()
		}
		a := t.align()
		return (n + a - 1) / a * a
	}
	return 0
}

func (t *Type) Off(i int) int {
	n := 0
	for k, f := range t.Fields {
		a := f.align()
		if t.Packed {
			a = 1
		}
		n = (n + a - 1) / a * a
		if k == i {
			return n
		}
		n += f.Size()
	}
	panic("field")
}

// Layout maps the offset of every scalar in t to its size.
func (t *Type) Layout(off int, m map[int]int) {
	switch t.Kind {
	case 'i', 'p':
		m[off] = t.Size()
	case 'a':
		for i := 0; i < t.N; i++ {
			t.Elem.Layout(off+i*t.Elem.Size(), m)
		}
	case 's':
		for i, f := range t.Fields {
			f.Layout(off+t.Off(i), m)
		}
	}
}

// Op is an operand.
type Op struct {
	T    *Type
	Kind byte // r register, k integer, n null, g global, u undef, z zeroinitializer, e getelementptr, c cells
	Name string
	K    uint64
	Args []*Op // e: base and indices
	Src  *Type // e: source element type
}

type Inst struct {
	Op    string
	Dst   string
	T     *Type // result or accessed type
	Args  []*Op
	Pred  string // icmp predicate
	Flags map[string]bool
	To    []string // branch targets, phi blocks
	Cases []uint64
	Fn    *Op
	Pos   string
	dbg   int
}

type Block struct {
	Name   string
	Phis   []*Inst
	Body   []*Inst
	Succs  []int
	number int
}

type Func struct {
	Mod    *Module
	Name   string
	Ret    *Type
	Params []string
	PTypes []*Type
	Blocks []*Block
	byName map[string]int
	Local  bool
}

type Global struct {
	Mod   *Module
	Name  string
	T     *Type
	Init  *Op // nil: external
	Const bool
	Local bool
}

type Module struct {
	File    string
	Types   map[string]*Type
	Globals map[string]*Global
	Funcs   map[string]*Func
	Decl    map[string]bool
	lines   map[int]string // metadata number -> position
}

type parser struct {
	m    *Module
	toks []string
	p    int
}

type perr string

func (p *parser) fail(f string, a ...interface{}) {
	panic(perr(fmt.Sprintf(f, a...) + " near: " + strings.Join(p.toks[max(0, p.p-6):min(len(p.toks), p.p+6)], " ")))
}

func isWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '-'
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"' || (c == '%' || c == '@' || c == 'c') && i+1 < len(s) && s[i+1] == '"':
			j := i + 1
			if c != '"' {
				j++
			}
			for j < len(s) && s[j] != '"' {
				j++
			}
			t := s[i:min(j+1, len(s))]
			if c == '%' || c == '@' {
				t = string(c) + strings.Trim(t[1:], "\"")
			}
			out = append(out, t)
			i = j + 1
		case isWord(c) || c == '%' || c == '@' || c == '!' || c == '#':
			j := i + 1
			for j < len(s) && isWord(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			out = append(out, s[i:i+1])
			i++
		}
	}
	return out
}

func (p *parser) peek() string {
	if p.p < len(p.toks) {
		return p.toks[p.p]
	}
	return ""
}
func (p *parser) next() string {
	t := p.peek()
	p.p++
	return t
}
func (p *parser) want(s string) {
	if p.next() != s {
		p.p--
		p.fail("%q expected", s)
	}
}
func (p *parser) accept(s string) bool {
	if p.peek() == s {
		p.p++
		return true
	}
	return false
}

func (p *parser) typ() *Type {
	t := p.next()
	switch {
	case t == "ptr":
		return &Type{Kind: 'p', W: 64}
	case t == "void":
		return &Type{Kind: 'v'}
	case t == "label" || t == "metadata":
		return &Type{Kind: 'v'}
	case t == "[":
		n, err := strconv.Atoi(p.next())
		if err != nil {
			p.fail("array length")
		}
		p.want("x")
		e := p.typ()
		p.want("]")
		return &Type{Kind: 'a', N: n, Elem: e}
	case t == "{":
		return p.fields("}", false)
	case t == "<":
		if p.accept("{") {
			s := p.fields("}", true)
			p.want(">")
			return s
		}
		p.fail("vector type")
	case t[0] == '%':
		if s := p.m.Types[t]; s != nil {
			return s
		}
		s := &Type{Kind: 's', name: t}
		p.m.Types[t] = s
		return s
	case t[0] == 'i':
		w, err := strconv.Atoi(t[1:])
		if err == nil {
			return &Type{Kind: 'i', W: w}
		}
	}
	p.p--
	p.fail("type expected")
	return nil
}

func (p *parser) fields(end string, packed bool) *Type {
	s := &Type{Kind: 's', Packed: packed}
	for !p.accept(end) {
		if len(s.Fields) > 0 {
			p.want(",")
		}
		s.Fields = append(s.Fields, p.typ())
	}
	return s
}

// attrs skips parameter and return attributes.
func (p *parser) attrs() {
	for {
		switch t := p.peek(); t {
		case "noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "immarg", "dso_local", "returned", "nofree", "inreg", "noreturn", "nounwind", "fastcc", "ccc", "internal", "private", "unnamed_addr", "local_unnamed_addr", "hidden", "allocptr", "linkonce_odr", "weak", "common", "external", "available_externally":
			p.p++
		case "align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "range", "captures", "memory":
			p.p++
			if p.accept("(") {
				d := 1
				for d > 0 {
					switch p.next() {
					case "(":
						d++
					case ")":
						d--
					case "":
						p.fail("attribute")
					}
				}
			} else if t == "align" {
				p.p++
			}
		default:
			return
		}
	}
}

func (p *parser) val(t *Type) *Op {
	s := p.next()
	if s == "" {
		p.fail("value expected")
	}
	if strings.HasPrefix(s, "!") {
		return &Op{T: t, Kind: 'm'}
	}
	switch {
	case s[0] == '%':
		return &Op{T: t, Kind: 'r', Name: s}
	case s[0] == '@':
		return &Op{T: t, Kind: 'g', Name: s[1:]}
	case s == "true":
		return &Op{T: t, Kind: 'k', K: 1}
	case s == "false":
		return &Op{T: t, Kind: 'k', K: 0}
	case s == "null":
		return &Op{T: t, Kind: 'n'}
	case s == "undef" || s == "poison":
		return &Op{T: t, Kind: 'u'}
	case s == "zeroinitializer":
		return &Op{T: t, Kind: 'z'}
	case s == "getelementptr":
		p.accept("inbounds")
		p.want("(")
		o := &Op{T: t, Kind: 'e', Src: p.typ()}
		for p.accept(",") {
			at := p.typ()
			p.attrs()
			o.Args = append(o.Args, p.val(at))
		}
		p.want(")")
		return o
	case s == "[" || s == "{" || s == "<":
		end := map[string]string{"[": "]", "{": "}", "<": "}"}[s]
		if s == "<" {
			p.want("{")
		}
		o := &Op{T: t, Kind: 'c'}
		for !p.accept(end) {
			if len(o.Args) > 0 {
				p.want(",")
			}
			at := p.typ()
			o.Args = append(o.Args, p.val(at))
		}
		if s == "<" {
			p.want(">")
		}
		return o
	case strings.HasPrefix(s, "c\""):
		o := &Op{T: t, Kind: 'c'}
		b := s[2 : len(s)-1]
		for i := 0; i < len(b); {
			k := uint64(b[i])
			if b[i] == '\\' {
				k, _ = strconv.ParseUint(b[i+1:i+3], 16, 8)
				i += 2
			}
			i++
			o.Args = append(o.Args, &Op{T: t.Elem, Kind: 'k', K: k})
		}
		return o
	}
	if k, err := strconv.ParseInt(s, 10, 64); err == nil {
		return &Op{T: t, Kind: 'k', K: uint64(k)}
	}
	if k, err := strconv.ParseUint(s, 10, 64); err == nil {
		return &Op{T: t, Kind: 'k', K: k}
	}
	p.p--
	p.fail("value expected")
	return nil
}

func (p *parser) tv() *Op {
	t := p.typ()
	p.attrs()
	return p.val(t)
}

// Parse reads a module in textual form.
func Parse(file, text string) (m *Module, err error) {
	m = &Module{File: file, Types: map[string]*Type{}, Globals: map[string]*Global{}, Funcs: map[string]*Func{}, Decl: map[string]bool{}, lines: map[int]string{}}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(perr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s: %s", file, string(e))
		}
	}()
	lines := strings.Split(text, "\n")
	var cur *Func
	var blk *Block
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if cur == nil {
			switch {
			case strings.HasPrefix(l, "%"):
				p := &parser{m: m, toks: tokenize(l)}
				name := p.next()
				p.want("=")
				p.want("type")
				if p.accept("opaque") {
					continue
				}
				s := p.typ()
				if q := m.Types[name]; q != nil {
					q.Fields, q.Packed = s.Fields, s.Packed
				} else {
					m.Types[name] = s
				}
			case strings.HasPrefix(l, "@"):
				p := &parser{m: m, toks: tokenize(l)}
				g := &Global{Mod: m, Name: p.next()[1:]}
				p.want("=")
				ext := false
				for done := false; !done; {
					switch t := p.next(); t {
					case "global", "constant":
						g.Const = t == "constant"
						done = true
					case "external":
						ext = true
					case "internal", "private":
						g.Local = true
					case "dso_local", "unnamed_addr", "local_unnamed_addr", "hidden", "common", "weak", "linkonce_odr":
					default:
						p.p--
						p.fail("global")
					}
				}
				g.T = p.typ()
				if !ext {
					g.Init = p.val(g.T)
				}
				m.Globals[g.Name] = g
			case strings.HasPrefix(l, "define"):
				p := &parser{m: m, toks: tokenize(l)}
				p.next()
				f := &Func{Mod: m, byName: map[string]int{}}
				f.Local = strings.Contains(strings.SplitN(l, "@", 2)[0], " internal ")
				p.attrs()
				f.Ret = p.typ()
				p.attrs()
				f.Name = p.next()[1:]
				p.want("(")
				for n := 0; !p.accept(")"); n++ {
					if n > 0 {
						p.want(",")
					}
					if p.peek() == "." {
						p.fail("variadic function")
					}
					f.PTypes = append(f.PTypes, p.typ())
					p.attrs()
					f.Params = append(f.Params, p.next())
				}
				m.Funcs[f.Name] = f
				cur, blk = f, nil
			case strings.HasPrefix(l, "declare"):
				p := &parser{m: m, toks: tokenize(l)}
				for _, t := range p.toks {
					if t[0] == '@' {
						m.Decl[t[1:]] = true
						break
					}
				}
			case strings.HasPrefix(l, "!"):
				var n, line int
				if k := strings.Index(l, "!DILocation(line: "); k > 0 {
					fmt.Sscanf(l, "!%d", &n)
					fmt.Sscanf(l[k:], "!DILocation(line: %d", &line)
					m.lines[n] = fmt.Sprintf("%s:%d", file, line)
				}
			}
			continue
		}
		t := strings.TrimSpace(l)
		switch {
		case t == "}":
			cur = nil
			continue
		case t == "" || t[0] == ';' || strings.HasPrefix(t, "#dbg"):
			continue
		}
		if !strings.HasPrefix(l, " ") { // label
			name := strings.TrimSpace(strings.SplitN(l, ":", 2)[0])
			blk = &Block{Name: "%" + strings.Trim(name, "\"")}
			cur.byName[blk.Name] = len(cur.Blocks)
			cur.Blocks = append(cur.Blocks, blk)
			continue
		}
		if blk == nil {
			// the entry block has an implicit name: the next unnamed value
			blk = &Block{Name: "%" + strconv.Itoa(len(cur.Params))}
			cur.byName[blk.Name] = 0
			cur.Blocks = append(cur.Blocks, blk)
		}
		for strings.HasPrefix(t, "switch") && !strings.Contains(t, "]") {
			i++
			t += " " + strings.TrimSpace(lines[i])
		}
		in := parseInst(m, t)
		if in == nil {
			continue
		}
		if in.Op == "phi" {
			blk.Phis = append(blk.Phis, in)
		} else {
			blk.Body = append(blk.Body, in)
		}
	}
	for _, f := range m.Funcs {
		for _, b := range f.Blocks {
			if len(b.Body) == 0 {
				return nil, fmt.Errorf("%s: empty block in %s", file, f.Name)
			}
			last := b.Body[len(b.Body)-1]
			if last.Op == "br" || last.Op == "switch" {
				seen := map[int]bool{}
				for _, t := range last.To {
					k, ok := f.byName[t]
					if !ok {
						return nil, fmt.Errorf("%s: no block %s in %s", file, t, f.Name)
					}
					if !seen[k] {
						seen[k] = true
						b.Succs = append(b.Succs, k)
					}
				}
			}
			for _, in := range append(b.Phis, b.Body...) {
				if in.dbg > 0 {
					in.Pos = m.lines[in.dbg]
				}
			}
		}
	}
	return m, nil
}

var binops = map[string]bool{"add": true, "sub": true, "mul": true, "and": true, "or": true, "xor": true, "shl": true, "lshr": true, "ashr": true, "udiv": true, "sdiv": true, "urem": true, "srem": true}

func parseInst(m *Module, t string) *Inst {
	p := &parser{m: m, toks: tokenize(t)}
	in := &Inst{Flags: map[string]bool{}}
	if len(p.toks) > 1 && p.toks[0][0] == '%' && p.toks[1] == "=" {
		in.Dst = p.next()
		p.next()
	}
	for i := 0; i+1 < len(p.toks); i++ {
		if p.toks[i] == "!dbg" {
			fmt.Sscanf(p.toks[i+1], "!%d", &in.dbg)
		}
	}
	op := p.next()
	for op == "tail" || op == "musttail" || op == "notail" {
		op = p.next()
	}
	in.Op = op
	flags := func() {
		for {
			switch p.peek() {
			case "nuw", "nsw", "exact", "disjoint", "nneg", "volatile", "inbounds", "samesign":
				in.Flags[p.next()] = true
			default:
				return
			}
		}
	}
	switch {
	case binops[op]:
		flags()
		a := p.tv()
		p.want(",")
		in.T = a.T
		in.Args = []*Op{a, p.val(a.T)}
	case op == "icmp":
		flags()
		in.Pred = p.next()
		a := p.tv()
		p.want(",")
		in.T = &Type{Kind: 'i', W: 1}
		in.Args = []*Op{a, p.val(a.T)}
	case op == "zext" || op == "sext" || op == "trunc" || op == "ptrtoint" || op == "inttoptr" || op == "bitcast":
		flags()
		in.Args = []*Op{p.tv()}
		p.want("to")
		in.T = p.typ()
	case op == "freeze":
		in.Args = []*Op{p.tv()}
		in.T = in.Args[0].T
	case op == "select":
		c := p.tv()
		p.want(",")
		a := p.tv()
		p.want(",")
		in.Args = []*Op{c, a, p.tv()}
		in.T = a.T
	case op == "alloca":
		in.T = p.typ()
		if p.accept(",") && p.peek() != "align" {
			in.Args = []*Op{p.tv()}
		}
	case op == "load":
		flags()
		in.T = p.typ()
		p.want(",")
		in.Args = []*Op{p.tv()}
	case op == "store":
		flags()
		v := p.tv()
		p.want(",")
		in.T = v.T
		in.Args = []*Op{v, p.tv()}
	case op == "getelementptr":
		flags()
		in.T = p.typ()
		for p.accept(",") {
			if strings.HasPrefix(p.peek(), "!") {
				break
			}
			in.Args = append(in.Args, p.tv())
		}
	case op == "phi":
		in.T = p.typ()
		for n := 0; n == 0 || p.accept(","); n++ {
			if strings.HasPrefix(p.peek(), "!") {
				break
			}
			p.want("[")
			in.Args = append(in.Args, p.val(in.T))
			p.want(",")
			in.To = append(in.To, p.next())
			p.want("]")
		}
	case op == "br":
		if p.accept("label") {
			in.To = []string{p.next()}
		} else {
			in.Args = []*Op{p.tv()}
			p.want(",")
			p.want("label")
			a := p.next()
			p.want(",")
			p.want("label")
			in.To = []string{a, p.next()}
		}
	case op == "switch":
		in.Args = []*Op{p.tv()}
		p.want(",")
		p.want("label")
		in.To = []string{p.next()}
		p.want("[")
		for !p.accept("]") {
			k := p.tv()
			in.Cases = append(in.Cases, k.K)
			p.want(",")
			p.want("label")
			in.To = append(in.To, p.next())
		}
	case op == "ret":
		if p.peek() != "void" {
			in.Args = []*Op{p.tv()}
		}
	case op == "unreachable":
	case op == "call":
		p.attrs()
		in.T = p.typ()
		if p.peek() == "(" { // function type of a call through a pointer
			for p.next() != ")" {
			}
		}
		p.attrs()
		if strings.HasPrefix(p.peek(), "@llvm.dbg.") {
			return nil
		}
		in.Fn = p.val(&Type{Kind: 'p', W: 64})
		p.want("(")
		for n := 0; !p.accept(")"); n++ {
			if n > 0 {
				p.want(",")
			}
			in.Args = append(in.Args, p.tv())
		}
	default:
		in.Op = "unsupported " + op
	}
	return in
}
