// Package asm executes the machine code of assembly functions symbolically:
// the linked bytes, as the disassembler reads them, on registers and memory
// made of terms. Control flow has to be concrete.
package asm

import (
	"debug/elf"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/engine/sym"
	"verif/engine/term"
)

type N = *term.Node

// Image is a linked program that contains the functions.
type Image struct {
	Arch string
	syms []elf.Symbol
	secs []section
	code map[uint64]Inst
	fns  map[string][]uint64 // instructions per function, in order
}

type section struct {
	addr  uint64
	data  []byte
	write bool
	name  string
}

// Inst is one decoded instruction.
type Inst struct {
	Addr uint64
	Op   string
	Args []string
	Text string
	Next uint64
}

const mainSrc = `package main

import (
	"os"

	"github.com/pjbgf/sha1cd"
)

func main() {
	h := sha1cd.New()
	h.Write([]byte(os.Args[0]))
	os.Stdout.Write(h.Sum(nil))
}
`

// Build links a program that uses the package and decodes the given functions
// and what they call.
func Build(repo, arch string, env []string, roots []string) (*Image, error) {
	dir, err := os.MkdirTemp("", "sha1vc-asm")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "main.go")
	if err := os.WriteFile(src, []byte(mainSrc), 0o644); err != nil {
		return nil, err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(repo, "internal", "verifmain", "main.go"): src}})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "prog")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./internal/verifmain")
	cmd.Dir, cmd.Env = repo, env
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("build: %v: %s", err, o)
	}
	f, err := elf.Open(bin)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	im := &Image{Arch: arch, syms: syms, code: map[uint64]Inst{}, fns: map[string][]uint64{}}
	for _, s := range f.Sections {
		if s.Flags&elf.SHF_ALLOC != 0 && s.Type != elf.SHT_NOBITS {
			b, err := s.Data()
			if err != nil {
				return nil, err
			}
			im.secs = append(im.secs, section{s.Addr, b, s.Flags&elf.SHF_WRITE != 0, s.Name})
		}
	}
	todo := roots
	for round := 0; len(todo) > 0 && round < 8; round++ {
		var next []string
		for _, r := range todo {
			s := im.sym(r)
			if s == nil {
				return nil, fmt.Errorf("no symbol %s in the program", r)
			}
			if im.fns[s.Name] != nil {
				continue
			}
			if err := im.decode(bin, *s); err != nil {
				return nil, err
			}
			for _, a := range im.fns[s.Name] {
				t, ok := im.target(im.code[a])
				if !ok {
					continue
				}
				if _, ok := im.code[t]; !ok {
					if q := im.at(t); q != nil {
						next = append(next, q.Name)
					}
				}
			}
		}
		todo = next
	}
	return im, nil
}

// Names are the symbols a function may have.
func Names(pkg, fn string) []string {
	return []string{pkg + "." + fn + ".abi0", pkg + "." + fn}
}

func (im *Image) sym(name string) *elf.Symbol {
	for _, n := range []string{name, name + ".abi0"} {
		for i := range im.syms {
			if im.syms[i].Name == n && elf.ST_TYPE(im.syms[i].Info) == elf.STT_FUNC {
				return &im.syms[i]
			}
		}
	}
	return nil
}

func (im *Image) at(a uint64) *elf.Symbol {
	for i := range im.syms {
		s := &im.syms[i]
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC && s.Value <= a && a < s.Value+s.Size {
			return s
		}
	}
	return nil
}

var line = regexp.MustCompile(`^\s*([0-9a-f]+):\s+(\S+)(?:\s+(.*))?$`)

func (im *Image) decode(bin string, s elf.Symbol) error {
	args := []string{"-d", "--no-show-raw-insn", "--start-address=" + strconv.FormatUint(s.Value, 10), "--stop-address=" + strconv.FormatUint(s.Value+s.Size, 10)}
	if im.Arch == "amd64" {
		args = append(args, "--x86-asm-syntax=intel")
	} else {
		args = append(args, "--mattr=+all")
	}
	o, err := exec.Command("llvm-objdump-18", append(args, bin)...).Output()
	if err != nil {
		return fmt.Errorf("llvm-objdump: %v", err)
	}
	var is []Inst
	for _, l := range strings.Split(string(o), "\n") {
		m := line.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		a, err := strconv.ParseUint(m[1], 16, 64)
		if err != nil || a < s.Value || a >= s.Value+s.Size {
			continue
		}
		rest := m[3]
		cm := "# "
		if im.Arch != "amd64" {
			cm = "// "
		}
		if i := strings.Index(rest, cm); i >= 0 {
			rest = rest[:i]
		}
		if i := strings.Index(rest, "<"); i >= 0 {
			rest = rest[:i]
		}
		rest = strings.TrimSpace(rest)
		is = append(is, Inst{Addr: a, Op: m[2], Args: splitArgs(rest), Text: m[2] + " " + rest})
	}
	if len(is) == 0 {
		return fmt.Errorf("nothing decoded for %s", s.Name)
	}
	for i := range is {
		is[i].Next = s.Value + s.Size
		if i+1 < len(is) {
			is[i].Next = is[i+1].Addr
		}
		im.code[is[i].Addr] = is[i]
		im.fns[s.Name] = append(im.fns[s.Name], is[i].Addr)
	}
	return nil
}

func splitArgs(s string) []string {
	var out []string
	depth, from := 0, 0
	for i, r := range s {
		switch r {
		case '[', '{':
			depth++
		case ']', '}':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[from:i]))
				from = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[from:]); t != "" {
		out = append(out, t)
	}
	return out
}

func (im *Image) target(i Inst) (uint64, bool) {
	if len(i.Args) == 0 {
		return 0, false
	}
	switch {
	case im.Arch == "amd64" && (strings.HasPrefix(i.Op, "j") || i.Op == "call"):
	case im.Arch == "arm64" && (i.Op == "b" || i.Op == "bl" || strings.HasPrefix(i.Op, "b.") || i.Op == "cbz" || i.Op == "cbnz" || i.Op == "tbz" || i.Op == "tbnz"):
	default:
		return 0, false
	}
	t, err := strconv.ParseUint(i.Args[len(i.Args)-1], 0, 64)
	return t, err == nil
}

// Insts lists the instructions of a function and of those it calls.
func (im *Image) Insts(name string) []Inst {
	s := im.sym(name)
	if s == nil {
		return nil
	}
	seen := map[string]bool{}
	var out []Inst
	var visit func(n string)
	visit = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, a := range im.fns[n] {
			i := im.code[a]
			out = append(out, i)
			if t, ok := im.target(i); ok {
				if q := im.at(t); q != nil {
					visit(q.Name)
				}
			}
		}
	}
	visit(s.Name)
	return out
}

// ------------------------------------------------------------ values

// V is a register or memory value: a term or a pointer.
type V struct {
	N N
	R *Region
	O int64
}

// Region is a block of memory.
type Region struct {
	Name  string
	lo    int64 // accessible offsets [lo, hi)
	hi    int64
	align int // known alignment of offset 0; res is the residue modulo it
	res   int64
	ro    bool
	mem   map[int64]cell
	fresh bool // unwritten bytes are arbitrary
	wrote map[int64]bool
}

type cell struct {
	n N
	p *V // pointer, k-th byte of it
	k int
}

// Access counts memory accesses per region.
type Access struct{ Reads, Writes int }

type flags struct{ z, c, s, o N }

// M is the machine.
type M struct {
	Im    *Image
	C     *term.Ctx
	g     map[string]V    // general registers
	x     map[string][4]N // vector registers, lane 0 lowest
	f     flags
	Stack *Region
	sp0   int64
	data  map[string]*Region
	Acc   map[string]*Access
	Steps int
	Low   int64 // lowest stack pointer
	nf    int
	tag   string
	ymm   bool
}

// Fault is a violation: an access outside the permitted memory, a misaligned
// access, a clobbered register.
type Fault struct{ Msg string }

func (f Fault) Error() string { return f.Msg }

func fault(i Inst, f string, a ...any) {
	panic(Fault{fmt.Sprintf("%x: %s: ", i.Addr, i.Text) + fmt.Sprintf(f, a...)})
}

func (m *M) undef(w int, what string) N {
	m.nf++
	return m.C.Var(w, fmt.Sprintf("undef%s.%s.%d", m.tag, what, m.nf))
}

// NewRegion adds n bytes of memory with the given contents.
func (m *M) NewRegion(name string, bytes []N, ro bool, align int) *Region {
	r := &Region{Name: name, hi: int64(len(bytes)), ro: ro, align: align, mem: map[int64]cell{}, wrote: map[int64]bool{}}
	for i, b := range bytes {
		r.mem[int64(i)] = cell{n: b}
	}
	m.data[name] = r
	return r
}

// Bytes reads a region back.
func (m *M) Bytes(r *Region) []N {
	out := make([]N, r.hi)
	for i := range out {
		c := r.mem[int64(i)]
		if c.n == nil {
			sym.Unsup("machine code stores a pointer in %s", r.Name)
		}
		out[i] = c.n
	}
	return out
}

func (m *M) check(i Inst, a V, n int, write bool) {
	if a.R == nil {
		if write || a.N == nil || !a.N.IsConst() {
			fault(i, "memory access at an address that is not derived from an argument or the stack pointer")
		}
		return
	}
	acc := m.Acc[a.R.Name]
	if acc == nil {
		acc = &Access{}
		m.Acc[a.R.Name] = acc
	}
	if write {
		acc.Writes++
	} else {
		acc.Reads++
	}
	lo := a.R.lo
	if a.O < lo || a.O+int64(n) > a.R.hi {
		fault(i, "access of %d bytes at %s%+d is outside [%d, %d)", n, a.R.Name, a.O, lo, a.R.hi)
	}
	if write && a.R.ro {
		fault(i, "writes %s", a.R.Name)
	}
}

func (m *M) aligned(i Inst, a V, n int64) {
	if a.R == nil {
		if a.N != nil && a.N.IsConst() && a.N.K%uint64(n) == 0 {
			return
		}
	} else if int64(a.R.align)%n == 0 && (a.R.res+a.O)%n == 0 {
		return
	}
	fault(i, "the address need not be aligned to %d bytes", n)
}

// loadBytes reads n cells.
func (m *M) cells(i Inst, a V, n int) []cell {
	m.check(i, a, n, false)
	out := make([]cell, n)
	if a.R == nil { // the program's own constants
		for k := range out {
			out[k] = cell{n: m.C.Const(8, uint64(m.rodata(i, a.N.K+uint64(k))))}
		}
		return out
	}
	for k := range out {
		c, ok := a.R.mem[a.O+int64(k)]
		if !ok {
			c = cell{n: m.undef(8, a.R.Name)}
			a.R.mem[a.O+int64(k)] = c
		}
		out[k] = c
	}
	return out
}

func (m *M) rodata(i Inst, a uint64) byte {
	for _, s := range m.Im.secs {
		if s.addr <= a && a < s.addr+uint64(len(s.data)) {
			if s.write {
				fault(i, "reads the variable at %x", a)
			}
			return s.data[a-s.addr]
		}
	}
	fault(i, "reads %x, which is no constant of the program", a)
	return 0
}

func (m *M) load(i Inst, a V, n int) V {
	cs := m.cells(i, a, n)
	if n == 8 && cs[0].p != nil {
		whole := true
		for k := range cs {
			if cs[k].p == nil || *cs[k].p != *cs[0].p || cs[k].k != k {
				whole = false
			}
		}
		if whole {
			return *cs[0].p
		}
	}
	parts := make([]N, n)
	for k := range cs {
		if cs[k].n == nil {
			sym.Unsup("machine code reads part of a pointer")
		}
		parts[n-1-k] = cs[k].n
	}
	return V{N: m.C.Concat(parts...)}
}

func (m *M) store(i Inst, a V, v V, n int) {
	m.check(i, a, n, true)
	for k := 0; k < n; k++ {
		c := cell{}
		if v.R != nil {
			if n != 8 {
				sym.Unsup("machine code stores part of a pointer")
			}
			p := v
			c = cell{p: &p, k: k}
		} else {
			c = cell{n: m.C.Extract(v.N, 8*k, 8)}
		}
		a.R.mem[a.O+int64(k)] = c
		a.R.wrote[a.O+int64(k)] = true
	}
}

func (m *M) loadX(i Inst, a V, n int) [4]N {
	v := [4]N{}
	for k := 0; k < 4; k++ {
		if 4*k < n {
			v[k] = m.load(i, add(a, int64(4*k), m.C), 4).N
		} else {
			v[k] = m.C.Const(32, 0)
		}
	}
	return v
}

func (m *M) storeX(i Inst, a V, x [4]N, n int) {
	for k := 0; 4*k < n; k++ {
		m.store(i, add(a, int64(4*k), m.C), V{N: x[k]}, 4)
	}
}

func add(a V, k int64, c *term.Ctx) V {
	if a.R != nil {
		return V{R: a.R, O: a.O + k}
	}
	return V{N: c.Add(a.N, c.Const(64, uint64(k)))}
}

// bytesOf splits a vector into 16 bytes, lowest first.
func (m *M) bytesOf(x [4]N) (b [16]N) {
	for k := range b {
		b[k] = m.C.Extract(x[k/4], 8*(k%4), 8)
	}
	return
}

func (m *M) fromBytes(b [16]N) (x [4]N) {
	for k := range x {
		x[k] = m.C.Concat(b[4*k+3], b[4*k+2], b[4*k+1], b[4*k])
	}
	return
}

func (m *M) cond(i Inst, n N) bool {
	if n == nil {
		sym.Unsup("machine code branches on a flag that is not modelled (%s)", i.Text)
	}
	if !n.IsConst() {
		sym.Unsup("machine code branches on data (%s)", i.Text)
	}
	return n.K == 1
}

// Args is the argument frame of the block functions: four slices.
type Args struct {
	H, P, M1, CS *Region
	Len          map[string]int64
}

const spAt = 1 << 12 // offset of the entry stack pointer in the stack region

// New prepares a machine at the entry of a function: the stack pointer is
// 8 bytes above a multiple of 16 or on one (spRes), everything not defined by
// the calling convention is arbitrary.
func New(im *Image, c *term.Ctx, tag string, spRes int64) *M {
	m := &M{Im: im, C: c, g: map[string]V{}, x: map[string][4]N{}, data: map[string]*Region{}, Acc: map[string]*Access{}, tag: tag}
	m.Stack = &Region{Name: "stack", align: 16, res: (spRes - spAt%16 + 16) % 16, mem: map[int64]cell{}, wrote: map[int64]bool{}}
	m.sp0 = spAt
	m.Low = spAt
	return m
}

// ret addresses
var retAddr = uint64(0xdead0000)

// Run executes a function; args are the 8-byte words of its argument frame.
func (m *M) Run(name string, args []V) {
	s := m.Im.sym(name)
	if s == nil {
		sym.Unsup("no symbol %s", name)
	}
	m.Stack.hi = m.sp0 + 8 + int64(8*len(args))
	// the return address (amd64) or the slot for the link register (arm64)
	for k, a := range args {
		for b := 0; b < 8; b++ {
			c := cell{}
			if a.R != nil {
				p := a
				c = cell{p: &p, k: b}
			} else {
				c = cell{n: m.C.Extract(a.N, 8*b, 8)}
			}
			m.Stack.mem[m.sp0+8+int64(8*k+b)] = c
		}
	}
	ra := V{N: m.C.Var(64, "return"+m.tag)}
	ent := Inst{Text: "entry"}
	if m.Im.Arch == "amd64" {
		m.store(ent, V{R: m.Stack, O: m.sp0}, ra, 8)
		m.runX86(s.Value, ra)
	} else {
		m.runARM(s.Value, ra)
	}
	if m.Steps > 20000 {
		sym.Unsup("too many instructions")
	}
}

// Frame is the depth of the frame the function used.
func (m *M) Frame() int64 { return m.sp0 - m.Low }

// AccessText summarises the accesses.
func (m *M) AccessText() string {
	var ks []string
	for k := range m.Acc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s %dr/%dw", k, m.Acc[k].Reads, m.Acc[k].Writes))
	}
	return strings.Join(out, ", ")
}
