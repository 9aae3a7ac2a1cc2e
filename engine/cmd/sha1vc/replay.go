package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/engine/vc"
)

// A replay runs the real code, after an obligation has failed, on directed and
// random inputs next to the executable specification.
type replayRun struct {
	name  string
	cfg   string   // build configuration
	pkg   string   // package directory
	files []string // files of /verif/replay laid into it
	run   string   // test pattern
	exec  []string // emulator
	race  bool
	asan  bool
	noBig bool
	ctrl  string // a configuration that must pass on the same emulator
	only  func(bad []vc.Res) bool
}

const qemuArm64 = "/usr/bin/qemu-aarch64"

func replayRuns(prop string) []replayRun {
	pub := []string{"sha1cd_test.go"}
	t := "^TestVerif" + prop + "$"
	std := func() []replayRun {
		return []replayRun{
			{name: "amd64", cfg: "amd64", pkg: ".", files: pub, run: t},
			{name: "noasm", cfg: "noasm", pkg: ".", files: pub, run: t},
			{name: "arm64 (qemu)", cfg: "arm64", pkg: ".", files: pub, run: t, exec: []string{qemuArm64, "-cpu", "max"}},
			{name: "arm (qemu)", cfg: "generic", pkg: ".", files: pub, run: t, exec: []string{"/usr/bin/qemu-arm"}},
		}
	}
	intC03 := []replayRun{
		{name: "checkCollision amd64", cfg: "amd64", pkg: ".", files: []string{"sha1cd_int_test.go"}, run: "^TestVerifIntC03$"},
	}
	asmAMD := []replayRun{
		{name: "blockAMD64", cfg: "amd64", pkg: ".", files: []string{"asm_int_test.go", "asm_amd64_test.go", "asm_amd64_decl.go", "poison_amd64.s"}, run: "^TestVerifIntAsm$"},
		{name: "blockAMD64 (qemu)", cfg: "amd64", pkg: ".", files: []string{"asm_int_test.go", "asm_amd64_test.go", "asm_amd64_decl.go", "poison_amd64.s"}, run: "^TestVerifIntAsm$", exec: []string{"/usr/bin/qemu-x86_64", "-cpu", "max"}},
	}
	asmARM := []replayRun{
		{name: "blockARM64 (qemu)", cfg: "arm64", pkg: ".", files: []string{"asm_int_test.go", "asm_arm64_test.go", "asm_arm64_decl.go", "poison_arm64.s"}, run: "^TestVerifIntAsm$", exec: []string{qemuArm64, "-cpu", "max"}},
	}
	ubc := func() []replayRun {
		return []replayRun{{name: "ubc", cfg: "amd64", pkg: "ubc", files: []string{"ubc_test.go"}, run: t}}
	}
	cgo := func() []replayRun {
		return []replayRun{
			{name: "cgo", cfg: "cgo", pkg: "cgo", files: []string{"cgo_test.go"}, run: t},
			{name: "cgo disabled", cfg: "amd64", pkg: "cgo", files: []string{"cgo_test.go"}, run: t},
		}
	}
	cgoInt := replayRun{name: "cgo contexts", cfg: "cgo", pkg: "cgo", files: []string{"cgo_int_test.go"}, run: "^TestVerifIntCgo$"}
	switch prop {
	case "C03":
		return append(std(), intC03...)
	case "C10":
		return append(ubc(), cgo()...)
	case "C11":
		return append(ubc(), replayRun{name: "C table", cfg: "cgo", pkg: "cgo", files: []string{"cgo_tab.go", "cgo_tab_test.go"}, run: "^TestVerifTab$"})
	case "C12":
		rs := append(asmAMD, std()[0])
		rs[len(rs)-1].run = "^TestVerifC0[12]$"
		return rs
	case "C13":
		rs := append(asmARM, std()[2])
		rs[len(rs)-1].run = "^TestVerifC0[12]$"
		return rs
	case "C14":
		var rs []replayRun
		for _, cpu := range []string{"qemu64", "Nehalem", "Haswell", "Denverton-v1", "max,sha-ni=off", "max,avx=off,avx2=off"} {
			rs = append(rs, replayRun{name: "amd64 on " + cpu, cfg: "amd64", pkg: ".", files: pub, run: "^TestVerifC14$", exec: []string{"/usr/bin/qemu-x86_64", "-cpu", cpu}, ctrl: "noasm"})
		}
		for _, cpu := range []string{"cortex-a53", "cortex-a57", "cortex-a72", "max"} {
			rs = append(rs, replayRun{name: "arm64 on " + cpu, cfg: "arm64", pkg: ".", files: pub, run: "^TestVerifC14$", exec: []string{qemuArm64, "-cpu", cpu}, ctrl: "arm64noasm"})
		}
		return rs
	case "C15":
		return append(cgo(), cgoInt)
	case "C16":
		rs := append(std(), replayRun{name: "amd64 -race", cfg: "cgo", pkg: ".", files: pub, run: t, race: true})
		return append(rs, append(cgo(), replayRun{name: "cgo -race", cfg: "cgo", pkg: "cgo", files: []string{"cgo_test.go"}, run: t, race: true})...)
	case "C18":
		rs := append(std(), cgo()...)
		for i := range rs {
			rs[i].noBig = i > 0
		}
		return append(rs, cgoInt)
	case "C17":
		asan := append(cgo(), cgoInt)
		asan[0].asan, asan[2].asan = true, true
		return append(std(), asan...)
	}
	return std()
}

type replayOut struct {
	Name    string
	Command string
	Verdict string // failing input, no failing input, did not run
	Output  string
}

func (e *env) runReplay(r replayRun, dir string, n int) replayOut {
	out := e.runReplay1(r, dir, n)
	if out.Verdict == "failing input" && r.ctrl != "" {
		q := r
		q.cfg = r.ctrl
		if c := e.runReplay1(q, dir, n+1000); c.Verdict != "no failing input" {
			out.Verdict = "did not run"
			out.Output = "the same test fails there built as " + r.ctrl + ": " + c.Output
		}
	}
	return out
}

func (e *env) runReplay1(r replayRun, dir string, n int) replayOut {
	out := replayOut{Name: r.name, Verdict: "did not run"}
	ov := map[string]string{}
	specs, _ := filepath.Glob(filepath.Join(e.verif, "spec", "*.go"))
	for _, s := range specs {
		if !strings.HasSuffix(s, "_test.go") {
			ov[filepath.Join(e.repo, "internal", "verifspec", filepath.Base(s))] = s
		}
	}
	for _, f := range r.files {
		ov[filepath.Join(e.repo, r.pkg, "zz_verif_"+f)] = filepath.Join(e.verif, "replay", f)
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, fmt.Sprintf("overlay%d.json", n))
	os.WriteFile(ovf, b, 0o644)
	bin := filepath.Join(dir, fmt.Sprintf("t%d.bin", n))
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	cfg := configs[r.cfg]
	if cfg.Tags != "" {
		args = append(args, "-tags", cfg.Tags)
	}
	if r.race {
		args = append(args, "-race")
	}
	if r.asan {
		args = append(args, "-asan")
	}
	args = append(args, "./"+r.pkg)
	do := func(limit time.Duration, d string, env []string, name string, args ...string) (string, error) {
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		defer cancel()
		c := exec.CommandContext(ctx, name, args...)
		c.Dir = d
		c.Env = env
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
		o, err := c.CombinedOutput()
		return string(o), err
	}
	env := cfg.Env(e.goCache())
	if o, err := do(300*time.Second, e.repo, env, "/opt/veriftools/go1.26.10/bin/go", args...); err != nil {
		out.Output = clip(o, 2000)
		return out
	}
	cmd := append(append([]string{}, r.exec...), bin, "-test.run", r.run, "-test.timeout", "150s")
	out.Command = "go " + strings.Join(args, " ") + "; " + strings.Join(cmd, " ")
	env = append(env, "VERIF_REPLAY_DATA="+filepath.Join(e.verif, "replay", "data"))
	if r.noBig {
		env = append(env, "VERIF_NO_BIG=1")
	}
	if len(r.exec) > 0 {
		env = append(env, "GODEBUG=asyncpreemptoff=1", "VERIF_NO_BIG=1", "QEMU_LD_PREFIX=/usr/aarch64-linux-gnu")
	}
	o, err := do(170*time.Second, filepath.Join(e.repo, r.pkg), env, cmd[0], cmd[1:]...)
	out.Verdict = "no failing input"
	if strings.Contains(o, "NOT-NATIVE") {
		out.Verdict = "did not run"
	}
	bad := strings.Contains(o, "FAILING-INPUT:") || strings.Contains(o, "DATA RACE") || strings.Contains(o, "AddressSanitizer") || strings.Contains(o, "SIGILL") || strings.Contains(o, "Illegal instruction") ||
		strings.Contains(o, "SIGSEGV") || strings.Contains(o, "runtime error:") || err != nil && strings.Contains(err.Error(), "illegal instruction")
	if err != nil && bad {
		out.Verdict = "failing input"
	}
	if strings.Contains(o, "test timed out") {
		out.Verdict = "failing input"
		if !bad {
			out.Verdict = "no failing input"
		}
	}
	if i := strings.Index(o, "FAILING-INPUT:"); i >= 0 {
		o = o[i:]
	}
	if err != nil && !bad {
		o = err.Error() + "\n" + o
	}
	out.Output = clip(o, 4000)
	return out
}

// replay writes the failed obligations and tries to find a concrete failing
// input on the real code.
func (e *env) replay(prop string, bad []vc.Res, res *result) (string, bool) {
	dir := filepath.Join(e.out, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, prop+".json")
	var failed []vc.Res
	for _, r := range res.reports {
		failed = append(failed, r.Failed...)
	}
	outs, found := e.runReplays(prop)
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "failed_obligations": bad, "failed_internal_contracts": failed, "notes": uniq(res.notes), "replays": outs}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path, found
}

func (e *env) runReplays(prop string) (outs []replayOut, found bool) {
	tmp, err := os.MkdirTemp("", "sha1vc")
	if err == nil && os.Getenv("VERIF_NO_REPLAY") == "" {
		defer os.RemoveAll(tmp)
		runs := replayRuns(prop)
		outs = make([]replayOut, len(runs))
		var wg sync.WaitGroup
		sem := make(chan bool, 6)
		for i, r := range runs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				outs[i] = e.runReplay(r, tmp, i)
			}()
		}
		wg.Wait()
		for _, o := range outs {
			if o.Verdict == "failing input" {
				if !found {
					fmt.Printf("  replayed on the real code (%s): %s\n", o.Name, clip(o.Output, 600))
				}
				found = true
			}
		}
	}
	return outs, found
}
