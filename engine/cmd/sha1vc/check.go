package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/engine/vc"
)

// plan says which tasks decide a property.
type plan struct {
	step  bool     // the step functions of the block loops
	sweep []string // task families over the number of pending bytes
	one   []string // single tasks
	base  []string // configurations; nil: all
	alone bool     // the tasks rest on no internal contract
	alias []string // obligations of these properties count as well
	pre   string   // "c/": the C-backed package
	more  []plan   // further parts
}

var allCfg = []string{"amd64", "noasm", "arm64", "generic"}

var plans = map[string]plan{
	"C01": {step: true, one: []string{"basics"}, sweep: []string{"write", "writenil", "sum", "crsum", "oneshot"}},
	"C02": {step: true, sweep: []string{"write", "writenil", "sum", "crsum", "oneshot"}},
	"C03": {step: true},
	"C04": {step: true, one: []string{"basics"}, sweep: []string{"write", "writenil", "sum", "crsum", "crsumnil", "oneshot", "marshal"}},
	"C05": {sweep: []string{"write", "writenil", "sum", "marshal"}},
	"C06": {one: []string{"basics"}, sweep: []string{"sum", "sumnil", "crsum", "crsumnil"}},
	"C07": {one: []string{"basics"}, sweep: []string{"marshal"}},
	"C08": {sweep: []string{"marshal"}},
	"C09": {one: []string{"unmarshal"}, sweep: []string{"marshal"}},
	"C10": {alone: true, one: []string{"mask"}, more: []plan{cOnly("mask")}},
	"C11": {alone: true, one: []string{"dvs"}, more: []plan{cOnly("dvs")}},
	"C12": {alone: true, base: []string{"amd64"}, one: []string{"asm", "variants"}},
	"C13": {alone: true, base: []string{"arm64"}, one: []string{"asm", "variants"}},
	"C14": {base: []string{"amd64", "arm64"}, one: []string{"variants", "basics", "write:0", "write:5", "sum:0", "sum:60", "crsum:0", "oneshot:0"}},
	"C15": {pre: "c/", base: []string{"cgo", "amd64"}, step: true, one: []string{"basics", "mask"}, sweep: []string{"write", "writenil", "sum", "sumnil", "crsum", "crsumnil", "oneshot"}},
	"C16": {one: []string{"basics", "unmarshal", "mask", "dvs"}, sweep: []string{"write", "writenil", "sum", "sumnil", "crsum", "crsumnil", "oneshot", "marshal"},
		more: cParts([]string{"basics", "mask"}, "write", "writenil", "sum", "sumnil", "crsum", "crsumnil", "oneshot")},
	"C17": {one: []string{"basics", "unmarshal", "mask", "dvs"}, sweep: []string{"write", "writenil", "sum", "sumnil", "crsum", "crsumnil", "oneshot", "marshal"},
		more: cParts([]string{"basics", "mask"}, "write", "writenil", "sum", "sumnil", "crsum", "crsumnil", "oneshot")},
	"C18": {one: []string{"basics"}, sweep: []string{"write", "sum", "crsum", "oneshot", "marshal"},
		more: cParts(nil, "write", "sum", "crsum", "oneshot")},
}

// cOnly: single tasks on the C-backed package, with and without C.
func cOnly(one ...string) plan {
	return plan{pre: "c/", alone: true, base: []string{"cgo", "amd64"}, one: one}
}

// cParts: the C code in full; without C, what the package adds to the Go one.
func cParts(one []string, sweep ...string) []plan {
	return []plan{
		{pre: "c/", base: []string{"cgo"}, one: one, sweep: sweep},
		{pre: "c/", base: []string{"amd64"}, one: one, sweep: []string{"oneshot"}},
	}
}

type result struct {
	prop    string
	reports []vc.Report
	skipped int
	shared  []string // configurations whose obligations are the same text
	notes   []string
	bad     []vc.Res
	bounded []string
	extras  []string
}

func failing(r vc.Report) bool {
	if r.Err != "" {
		return true
	}
	for _, q := range r.Res {
		if q.Status != "proved" {
			return true
		}
	}
	return false
}

func (e *env) check(prop string) int {
	pl, ok := plans[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		return 2
	}
	res := &result{prop: prop}
	e.goPart(prop, pl, res)
	for _, q := range pl.more {
		bad := false
		for _, r := range res.reports {
			bad = bad || failing(r)
		}
		if bad {
			res.notes = append(res.notes, "further parts skipped after a failure")
			break
		}
		e.goPart(prop, q, res)
	}
	if e.tier == "thorough" {
		e.extras(res)
	}
	return e.finish(res)
}

func (e *env) goPart(prop string, pl plan, res *result) {
	if !pl.step && pl.sweep == nil && pl.one == nil {
		return
	}
	cfgs := pl.base
	if cfgs == nil {
		cfgs = allCfg
	}
	task := pl.pre + "base"
	if pl.step {
		task = pl.pre + "step"
	}
	var items []item
	for _, c := range cfgs {
		items = append(items, item{c, request{Task: task, Only: prop, Alias: pl.alias}})
	}
	var base []vc.Report
	if !pl.alone {
		base, _ = e.pool(8, items, e.limit(150*time.Second), nil)
	}
	// a weak contract may be all there is to a failure: try without
	var again []item
	for _, r := range base {
		if failing(r) && r.Given != nil {
			for _, m := range r.Given.Force {
				if m == 2 {
					again = append(again, item{r.Config, request{Task: task, Only: prop, Alias: pl.alias, NoWeak: true}})
					break
				}
			}
		}
	}
	if len(again) > 0 {
		re, _ := e.pool(8, again, e.limit(120*time.Second), nil)
		for _, r := range re {
			if r.Err == "" && !failing(r) {
				for i := range base {
					if base[i].Config == r.Config {
						base[i] = r
					}
				}
			}
		}
	}
	res.reports = append(res.reports, base...)
	given := map[string]*vc.Given{}
	fp := map[string]string{}
	for _, r := range base {
		given[r.Config] = r.Given
		fp[r.Config] = r.Fingerprint
		if failing(r) {
			return
		}
	}
	seen := map[string]string{}
	items = nil
	for _, c := range cfgs {
		if f := fp[c]; f != "" && e.tier != "thorough" {
			if d, ok := seen[f]; ok {
				res.shared = append(res.shared, fmt.Sprintf("%s: the public methods are the same code as on %s, so are their obligations", c, d))
				continue
			}
			seen[f] = c
		}
		for _, t := range pl.one {
			items = append(items, item{c, request{Task: pl.pre + t, Only: prop, Alias: pl.alias, Given: given[c]}})
		}
		for _, t := range pl.sweep {
			for n := 0; n < 64; n++ {
				items = append(items, item{c, request{Task: fmt.Sprintf("%s%s:%d", pl.pre, t, n), Only: prop, Alias: pl.alias, Given: given[c]}})
			}
		}
	}
	fails := 0
	reps, skipped := e.pool(8, items, e.limit(120*time.Second), func(r vc.Report) bool {
		if failing(r) {
			fails++
		}
		return fails >= 3
	})
	res.reports = append(res.reports, reps...)
	res.skipped = skipped
}

// finish writes the evidence and the verdict.
func (e *env) finish(res *result) int {
	prop := res.prop
	obl, dis := 0, 0
	by := map[string]int{}
	perFn := map[string][2]int{}
	funcs, executed, assumed, foreign, loops := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var queries int
	var solver int64
	perCfg := map[string]int{}
	var second [3]int
	famTime := map[string]float64{}
	for _, r := range res.reports {
		if r.Err != "" {
			res.bad = append(res.bad, vc.Res{Name: "task " + r.Task + " completes", Config: r.Config, Status: "undecided", Detail: r.Err})
			obl++
		}
		if len(r.Res) == 0 && r.Err == "" && !strings.HasPrefix(strings.TrimPrefix(r.Task, "c/"), "base") {
			res.notes = append(res.notes, "task "+r.Task+" on "+r.Config+" gave no obligation of this property")
		}
		for _, q := range r.Res {
			obl++
			perCfg[r.Config]++
			c := perFn[q.Fn]
			c[0]++
			if q.Status == "proved" {
				dis++
				c[1]++
				by[q.By]++
			} else {
				res.bad = append(res.bad, q)
			}
			perFn[q.Fn] = c
		}
		res.notes = append(res.notes, r.Notes...)
		for _, s := range r.Contracted {
			funcs[s] = true
		}
		for _, s := range r.Executed {
			executed[s] = true
		}
		for _, s := range r.Assumed {
			assumed[s] = true
		}
		for _, s := range r.Foreign {
			foreign[s] = true
		}
		for _, s := range r.Loops {
			loops[s] = true
		}
		queries += r.Queries
		for i := range second {
			second[i] += r.Second[i]
		}
		fam, _, _ := strings.Cut(r.Task, ":")
		famTime[r.Config+" "+fam] += float64(r.WallMs) / 1000
		solver += r.SolverMs
	}
	if obl == 0 {
		res.bad = append(res.bad, vc.Res{Name: "obligations are generated", Status: "undecided", Detail: "none"})
	}
	known, badNew := e.known(prop, res.bad)
	for _, k := range known {
		fmt.Println("KNOWN-FINDING: property=" + prop + " " + k)
	}
	fnTable := map[string]string{}
	for f, c := range perFn {
		fnTable[f] = fmt.Sprintf("%d/%d", c[1], c[0])
	}
	cov := map[string]any{
		"obligations":                            obl,
		"discharged":                             dis,
		"checker_cmd":                            "bash tools/run.sh " + prop,
		"trusted_base":                           trusted(prop, keys(assumed)),
		"discharged_by":                          by,
		"obligations_per_function":               fnTable,
		"obligations_per_config":                 perCfg,
		"functions_under_contract":               keys(funcs),
		"functions_executed":                     keys(executed),
		"library_functions_executed_from_source": keys(foreign),
		"loop_invariants":                        keys(loops),
		"same_obligations":                       res.shared,
		"smt_queries":                            queries,
		"solver_seconds":                         float64(solver) / 1000,
		"task_seconds":                           famTime,
		"skipped_after_failure":                  res.skipped,
		"notes":                                  uniq(res.notes),
	}
	if e.tier == "thorough" {
		cov["second_solver_cvc5"] = map[string]int{"unsat_confirmed": second[0], "not_decided_in_20_s": second[1], "contradicted": second[2]}
		cov["thorough_extras"] = res.extras
		if second[2] > 0 {
			res.notes = append(res.notes, "solvers disagree")
		}
	}
	if len(res.bounded) > 0 {
		cov["bounded_not_counted_as_proved"] = res.bounded
	}
	ev := map[string]any{
		"property": prop, "tier": e.tier, "seed": e.seed, "level": "proof",
		"coverage":    cov,
		"assumptions": assumptions(prop),
		"wall_s":      time.Since(e.start0).Seconds(),
		"violations":  len(badNew),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(e.out, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(e.out, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged (%v), %d SMT queries, %.1f s solver, %.1f s wall\n", prop, obl, dis, by, queries, float64(solver)/1000, time.Since(e.start0).Seconds())
	if len(badNew) == 0 {
		return 0
	}
	path, found := e.replay(prop, badNew, res)
	for i, q := range badNew {
		if i == 8 {
			fmt.Printf("  ... %d more\n", len(badNew)-i)
			break
		}
		fmt.Printf("  failed obligation [%s] %s: %s: %s %s\n", q.Config, q.Fn, q.Name, q.Status, clip(q.Detail, 300))
	}
	tail := ""
	if !found {
		tail = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, tail)
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func uniq(ss []string) []string {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return keys(m)
}

// known splits failures into listed findings and new ones. A listed finding
// names the obligation by a text that must occur in it:
//
//	finding: property=C99 obligation="text" what fails
func (e *env) known(prop string, bad []vc.Res) (found []string, rest []vc.Res) {
	b, _ := os.ReadFile(filepath.Join(e.verif, "known_findings.txt"))
	type kf struct{ match, what string }
	var list []kf
	for _, l := range strings.Split(string(b), "\n") {
		l, ok := strings.CutPrefix(strings.TrimSpace(l), "finding: property="+prop+" obligation=\"")
		if !ok {
			continue
		}
		m, what, ok := strings.Cut(l, "\" ")
		if ok && m != "" {
			list = append(list, kf{m, what})
		}
	}
	hit := map[string]bool{}
next:
	for _, q := range bad {
		for _, k := range list {
			if strings.Contains(q.Config+"|"+q.Fn+": "+q.Name, k.match) {
				hit[k.what] = true
				continue next
			}
		}
		rest = append(rest, q)
	}
	return keys(hit), rest
}

func (e *env) limit(d time.Duration) time.Duration {
	if e.tier == "thorough" {
		return 10 * d
	}
	return d
}

// extras of the thorough tier: the laws the theory rests on and the executable
// specification are checked themselves, and the real code is run next to the
// specification on the inputs of the replay harness. A failing input found
// there without a failed obligation means that the verifier is wrong, and is
// reported.
func (e *env) extras(res *result) {
	note := func(name string, out []byte, err error) {
		s := name + ": accepted"
		if err != nil {
			s = name + ": " + err.Error() + " " + clip(string(out), 400)
			res.bad = append(res.bad, vc.Res{Name: name, Status: "undecided", Detail: s})
		}
		res.extras = append(res.extras, s)
	}
	c := exec.Command("lean", filepath.Join(e.verif, "lean", "Absorb.lean"))
	out, err := c.CombinedOutput()
	note("the fold laws and the history lemma (Lean)", out, err)
	c = exec.Command("/opt/veriftools/go1.26.10/bin/go", "test", "-count=1", ".")
	c.Dir = filepath.Join(e.verif, "spec")
	c.Env = configs["amd64"].Env(e.goCache())
	out, err = c.CombinedOutput()
	note("tests of the executable specification", out, err)
	for _, r := range res.reports {
		if failing(r) {
			return
		}
	}
	outs, found := e.runReplays(res.prop)
	for _, o := range outs {
		res.extras = append(res.extras, "real code next to the specification, "+o.Name+": "+o.Verdict)
		if found && o.Verdict == "failing input" {
			res.bad = append(res.bad, vc.Res{Name: "the real code agrees with the specification on the inputs of the replay harness (" + o.Name + ")", Status: "refuted", Detail: clip(o.Output, 600)})
		}
	}
}
