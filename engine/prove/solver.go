// Package prove discharges validity goals over terms.
package prove

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"verif/engine/term"
)

type Status int

const (
	Unknown Status = iota
	Unsat
	Sat
)

// Solver is an SMT-LIB process kept open over a pipe.
type Solver struct {
	Path    string
	Args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Queries int
	Time    time.Duration
}

func (s *Solver) start() error {
	if s.cmd != nil {
		return nil
	}
	s.cmd = exec.Command(s.Path, s.Args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		s.cmd = nil
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	io.WriteString(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// readExpr reads one balanced s-expression or atom.
func readExpr(r *bufio.Reader) (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return b.String(), err
		}
		if inBar {
			b.WriteByte(c)
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
			b.WriteByte(c)
		case '(':
			depth++
			b.WriteByte(c)
		case ')':
			depth--
			b.WriteByte(c)
			if depth == 0 {
				return b.String(), nil
			}
		case ' ', '\n', '\r', '\t':
			if depth == 0 {
				if b.Len() > 0 {
					return b.String(), nil
				}
				continue
			}
			b.WriteByte(' ')
		default:
			b.WriteByte(c)
		}
	}
}

// Script is a self-contained query body.
type Script struct {
	b     strings.Builder
	names map[*term.Node]string
	decl  map[string]bool
	Vars  []*term.Node // declared constants (variables, cuts)
	Apps  []*term.Node
}

func newScript() *Script {
	return &Script{names: map[*term.Node]string{}, decl: map[string]bool{}}
}

// define writes definitions for the nodes below n, stopping at cut nodes.
func (s *Script) define(n *term.Node, cut func(*term.Node) bool) string {
	if nm, ok := s.names[n]; ok {
		return nm
	}
	type fr struct {
		n *term.Node
		i int
	}
	st := []fr{{n, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		x := f.n
		if _, ok := s.names[x]; ok {
			st = st[:len(st)-1]
			continue
		}
		if x.Op == term.Const {
			s.names[x] = fmt.Sprintf("(_ bv%d %d)", x.K, x.W)
			st = st[:len(st)-1]
			continue
		}
		if x.Op == term.Var || cut != nil && cut(x) {
			nm := fmt.Sprintf("v%d", x.ID)
			fmt.Fprintf(&s.b, "(declare-const %s (_ BitVec %d))\n", nm, x.W)
			s.names[x] = nm
			s.Vars = append(s.Vars, x)
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(x.A) {
			a := x.A[f.i]
			f.i++
			if _, ok := s.names[a]; !ok {
				st = append(st, fr{a, 0})
			}
			continue
		}
		if x.Op == term.App {
			if !s.decl[x.Name] {
				s.decl[x.Name] = true
				fmt.Fprintf(&s.b, "(declare-fun %s (", term.Sym(x.Name))
				for _, a := range x.A {
					fmt.Fprintf(&s.b, "(_ BitVec %d) ", a.W)
				}
				fmt.Fprintf(&s.b, ") (_ BitVec %d))\n", x.W)
			}
			s.Apps = append(s.Apps, x)
		}
		nm := fmt.Sprintf("n%d", x.ID)
		fmt.Fprintf(&s.b, "(define-fun %s () (_ BitVec %d) %s)\n", nm, x.W, x.Smt(func(a *term.Node) string { return s.names[a] }))
		s.names[x] = nm
		st = st[:len(st)-1]
	}
	return s.names[n]
}

func (s *Script) assert(n *term.Node, val bool, cut func(*term.Node) bool) {
	nm := s.define(n, cut)
	v := "#b0"
	if val {
		v = "#b1"
	}
	fmt.Fprintf(&s.b, "(assert (= %s %s))\n", nm, v)
}

// Run checks the script; on sat it returns values for Vars and Apps.
func (s *Solver) Run(sc *Script, timeout time.Duration, model bool) (Status, map[*term.Node]uint64, error) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.Queries++ }()
	if err := s.start(); err != nil {
		return Unknown, nil, err
	}
	isZ3 := strings.Contains(s.Path, "z3")
	var q strings.Builder
	if isZ3 {
		fmt.Fprintf(&q, "(set-option :timeout %d)\n", timeout.Milliseconds())
	} else {
		fmt.Fprintf(&q, "(set-option :tlimit-per %d)\n(set-logic QF_UFBV)\n", timeout.Milliseconds())
	}
	q.WriteString("(push 1)\n")
	q.WriteString(sc.b.String())
	q.WriteString("(check-sat)\n")
	kill := time.AfterFunc(timeout+3*time.Second, func() {
		if s.cmd != nil && s.cmd.Process != nil {
			s.cmd.Process.Kill()
		}
	})
	defer kill.Stop()
	if _, err := io.WriteString(s.in, q.String()); err != nil {
		s.Close()
		return Unknown, nil, nil
	}
	ans, err := readExpr(s.out)
	if err != nil {
		s.Close()
		return Unknown, nil, nil
	}
	var st Status
	switch ans {
	case "sat":
		st = Sat
	case "unsat":
		st = Unsat
	default:
		st = Unknown
		if strings.HasPrefix(ans, "(error") {
			s.Close()
			return Unknown, nil, fmt.Errorf("solver: %s", ans)
		}
	}
	var m map[*term.Node]uint64
	if st == Sat && model {
		m = map[*term.Node]uint64{}
		get := append(append([]*term.Node{}, sc.Vars...), sc.Apps...)
		for _, v := range get {
			fmt.Fprintf(s.in, "(get-value (%s))\n", sc.names[v])
			a, err := readExpr(s.out)
			if err != nil {
				s.Close()
				return st, m, nil
			}
			m[v] = parseVal(a)
		}
	}
	if isZ3 {
		io.WriteString(s.in, "(pop 1)\n")
	} else {
		s.Close()
	}
	return st, m, nil
}

func parseVal(a string) uint64 {
	if i := strings.LastIndex(a, "#x"); i >= 0 {
		j := i + 2
		for j < len(a) && strings.IndexByte("0123456789abcdefABCDEF", a[j]) >= 0 {
			j++
		}
		v, _ := strconv.ParseUint(a[i+2:j], 16, 64)
		return v
	}
	if i := strings.LastIndex(a, "#b"); i >= 0 {
		j := i + 2
		for j < len(a) && (a[j] == '0' || a[j] == '1') {
			j++
		}
		v, _ := strconv.ParseUint(a[i+2:j], 2, 64)
		return v
	}
	if i := strings.LastIndex(a, "(_ bv"); i >= 0 {
		j := i + 5
		for j < len(a) && a[j] >= '0' && a[j] <= '9' {
			j++
		}
		v, _ := strconv.ParseUint(a[i+5:j], 10, 64)
		return v
	}
	return 0
}
