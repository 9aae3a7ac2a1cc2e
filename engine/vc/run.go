package vc

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/gosym"
	"verif/engine/sym"
)

// Given is what the base task of a configuration establishes for the others:
// how each contract on an internal function is used.
type Given struct {
	Force map[string]int
	Folds map[string]bool
	CStep map[string]CStepGiven `json:",omitempty"`
}

// CStepGiven is a verified contract of a C function that processes one block.
type CStepGiven struct {
	OK       bool
	ID       int
	Assigned []int
}

// Report is the outcome of one task.
type Report struct {
	Task        string
	Config      string
	Res         []Res
	Failed      []Res    `json:",omitempty"`
	Notes       []string `json:",omitempty"`
	Given       *Given   `json:",omitempty"`
	Fingerprint string   `json:",omitempty"`
	Contracted  []string
	Executed    []string
	Assumed     []string
	Foreign     []string
	Loops       []string
	Queries     int
	SolverMs    int64
	Second      [3]int // unsat answers confirmed, not decided, contradicted by cvc5
	WallMs      int64
	Err         string `json:",omitempty"`
}

// Preset uses contracts that another task has verified.
func (v *VC) Preset(g *Given) {
	if g == nil {
		return
	}
	for k, m := range g.Force {
		v.force[k] = m
	}
	for k, m := range g.Folds {
		v.foldGiven[k] = m
	}
	for k, q := range g.CStep {
		v.cstep[k] = &stepC{ok: q.OK, id: q.ID, assigned: q.Assigned, given: true}
	}
}

// Base verifies the contracts on internal functions.
func (v *VC) Base() *Given {
	if !v.onC() {
		for _, c := range contracts {
			v.inForce(c)
		}
	}
	v.guard(nil, "contracts", func() {
		d, err := v.digest()
		if err != nil {
			sym.Unsup("%v", err)
		}
		st := v.M.NewState()
		o := v.mkDigest(st, d, "d", 0)
		p, _, _ := v.slice(st, "p", sym.Input)
		v.X.Nested(func() { v.M.Call(st, d.Write, nil, []Val{sym.Ptr{O: o, Off: v.X.Int(0)}, p}) })
	})
	g := &Given{Force: map[string]int{}, Folds: map[string]bool{}}
	for k, m := range v.force {
		g.Force[k] = m
	}
	if len(v.cstep) > 0 {
		g.CStep = map[string]CStepGiven{}
		for k, q := range v.cstep {
			g.CStep[k] = CStepGiven{q.ok, q.id, q.assigned}
		}
	}
	for f, fc := range v.fold {
		if fc != nil && len(fc.pre) == 0 { // preconditions are not passed on
			g.Folds[f.Name()] = fc.ok
		}
	}
	return g
}

// Fingerprint is the text of everything the public methods execute outside the
// functions whose contracts are in force: two configurations with the same
// word size and the same text give rise to the same obligations.
func (v *VC) Fingerprint(g *Given) string {
	d, err := v.digest()
	if err != nil || v.target != "" {
		return ""
	}
	roots := []*ssa.Function{d.Write, d.Sum, d.CRSum, d.Reset, d.Marshal, d.Unmarshal, d.Size, d.BlockSize, v.M.Func(gosym.Module, "New"), v.M.Func(gosym.Module, "Sum")}
	done := map[*ssa.Function]bool{}
	var text []string
	globals := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || done[f] {
			return
		}
		done[f] = true
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), gosym.Module) {
			text = append(text, "foreign "+f.String())
			return
		}
		if g.Folds[f.Name()] {
			text = append(text, "contract "+f.String())
			return
		}
		for _, c := range contracts {
			if c.fn == f.Name() && g.Force[c.name] != inline {
				text = append(text, "contract "+f.String())
				return
			}
		}
		var b strings.Builder
		f.WriteTo(&b)
		// file positions are not part of the text
		var ls []string
		for _, l := range strings.Split(b.String(), "\n") {
			if strings.HasPrefix(l, "# Location:") {
				continue
			}
			ls = append(ls, l)
		}
		text = append(text, strings.Join(ls, "\n"))
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					switch q := (*op).(type) {
					case *ssa.Function:
						visit(q)
					case *ssa.Global:
						globals[q.String()] = true
						st := v.M.NewState()
						if o := v.M.GlobalObj(st, q.Pkg.Pkg.Path(), q.Name()); o != nil {
							if m := v.M.GlobalSt[o]; m != nil {
								for _, cl := range m.Cells {
									if n, ok := cl.(N); ok {
										text = append(text, q.String()+"="+n.String())
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	sort.Strings(text)
	return fmt.Sprintf("int%d %s %s\n", v.X.IW, d.T, d.T.Underlying()) + strings.Join(text, "\n")
}

// Run performs one task.
func (v *VC) Run(task string) *Given {
	task, c := strings.CutPrefix(task, "c/")
	if c {
		v.Target(cgoPath)
	} else {
		v.Target("")
	}
	name, arg, _ := strings.Cut(task, ":")
	n, _ := strconv.Atoi(arg)
	switch name {
	case "base":
		return v.Base()
	case "step":
		g := v.Base()
		v.CheckStep()
		return g
	case "basics":
		v.CheckBasics()
	case "mask":
		if c {
			v.CheckCgoMask()
		} else {
			v.CheckMask()
		}
	case "dvs":
		if c {
			v.CheckCgoDVs()
		} else {
			v.CheckDVs()
		}
	case "variants":
		v.CheckVariants()
	case "asm":
		v.CheckAsm()
	case "write":
		v.CheckWrite(n, false)
	case "writenil":
		v.CheckWrite(n, true)
	case "sum":
		v.CheckSum(n, false, false)
	case "sumnil":
		v.CheckSum(n, true, false)
	case "crsum":
		v.CheckSum(n, false, true)
	case "crsumnil":
		v.CheckSum(n, true, true)
	case "oneshot":
		v.CheckOneShot(n)
	case "marshal":
		v.CheckMarshal(n)
	case "unmarshal":
		v.CheckUnmarshal()
	default:
		v.Notes = append(v.Notes, "unknown task "+task)
	}
	return nil
}

// Take returns what happened since the last call.
func (v *VC) Take(task string) Report {
	// a reachable write to a shared variable breaks the frame of every caller
	if v.Only == "C16" {
		for _, r := range v.Failed {
			if r.Shared && r.Status == "refuted" {
				v.Res = append(v.Res, r)
			}
		}
	}
	r := Report{Task: task, Config: v.M.Cfg.Name, Res: v.Res, Failed: v.Failed, Notes: v.Notes,
		Contracted: sortedKeys(v.Contracted), Assumed: sortedKeys(v.Assumed), Foreign: sortedKeys(v.M.Foreign)}
	for f := range v.X.Funcs {
		r.Executed = append(r.Executed, f)
	}
	sort.Strings(r.Executed)
	for _, l := range v.X.Loops {
		r.Loops = append(r.Loops, fmt.Sprintf("%s: %s %s", l.Func, l.Kind, l.Note))
	}
	r.Queries = v.X.P.Stats.Queries
	r.SolverMs = v.X.P.Stats.Solver.Milliseconds()
	v.Res, v.Failed, v.Notes, v.X.Loops = nil, nil, nil, nil
	r.Second = [3]int{v.X.P.Stats.Confirmed, v.X.P.Stats.Open, v.X.P.Stats.Disagree}
	v.X.P.Stats.Queries, v.X.P.Stats.Solver = 0, 0
	v.X.P.Stats.Confirmed, v.X.P.Stats.Open, v.X.P.Stats.Disagree = 0, 0, 0
	return r
}
