package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/engine/gosym"
	"verif/engine/vc"
)

// A worker process holds one build configuration and performs tasks.

type request struct {
	Task   string
	Only   string
	Alias  []string
	NoWeak bool
	Given  *vc.Given
}

var configs = map[string]gosym.Config{
	"amd64":      {Name: "amd64", GOARCH: "amd64"},
	"noasm":      {Name: "noasm", GOARCH: "amd64", Tags: "noasm"},
	"arm64":      {Name: "arm64", GOARCH: "arm64"},
	"generic":    {Name: "generic", GOARCH: "arm"},
	"arm64noasm": {Name: "arm64noasm", GOARCH: "arm64", Tags: "noasm"},
	"cgo":        {Name: "cgo", GOARCH: "amd64", Cgo: true},
}

func (e *env) worker(cfg string) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	reply := func(r vc.Report) {
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	var v *vc.VC
	p, err := gosym.Load(e.repo, e.verif+"/spec", e.goCache(), configs[cfg])
	if err == nil {
		if v, err = vc.New(p, e.seed); err == nil {
			v.Cache = e.goCache()
			v.X.P.Second = e.tier == "thorough"
		}
	}
	preset := false
	for {
		line, rerr := in.ReadBytes('\n')
		if rerr != nil {
			return
		}
		var q request
		if e := json.Unmarshal(line, &q); e != nil {
			reply(vc.Report{Err: e.Error()})
			continue
		}
		if err != nil {
			reply(vc.Report{Task: q.Task, Config: cfg, Err: err.Error()})
			continue
		}
		if !preset {
			v.Preset(q.Given)
			preset = true
		}
		v.Only, v.NoWeak = q.Only, q.NoWeak
		v.SetAlias(q.Alias)
		t0 := time.Now()
		var g *vc.Given
		perr := func() (s string) {
			defer func() {
				if x := recover(); x != nil {
					s = fmt.Sprint("internal error: ", x)
				}
			}()
			g = v.Run(q.Task)
			return
		}()
		r := v.Take(q.Task)
		r.Given, r.Err = g, perr
		if g != nil && perr == "" {
			r.Fingerprint = v.Fingerprint(g)
		}
		r.WallMs = time.Since(t0).Milliseconds()
		reply(r)
	}
}

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	mu   sync.Mutex
	dead bool
}

func (e *env) start(cfg string) (*proc, error) {
	cmd := exec.Command(e.self, "worker", cfg)
	cmd.Env = append(os.Environ(), "GOGC=200", "GOMEMLIMIT=2600MiB")
	cmd.Stderr = nil
	if os.Getenv("DBG") != "" {
		cmd.Stderr = os.Stderr
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(o, 1<<20)}, nil
}

func (p *proc) stop() {
	if p == nil || p.dead {
		return
	}
	p.dead = true
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	p.cmd.Wait()
}

func (p *proc) do(q request, limit time.Duration) vc.Report {
	b, _ := json.Marshal(q)
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		p.stop()
		return vc.Report{Task: q.Task, Err: "worker: " + err.Error()}
	}
	type ans struct {
		l   []byte
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		l, err := p.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			p.stop()
			return vc.Report{Task: q.Task, Err: "worker ended: " + a.err.Error()}
		}
		var r vc.Report
		if err := json.Unmarshal(a.l, &r); err != nil {
			return vc.Report{Task: q.Task, Err: "worker: " + err.Error()}
		}
		return r
	case <-time.After(limit):
		p.stop()
		return vc.Report{Task: q.Task, Err: fmt.Sprintf("not decided within %v", limit)}
	}
}

// rss is the memory the worker holds.
func (p *proc) rss() int64 {
	if p.dead {
		return 0
	}
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", p.cmd.Process.Pid))
	var size, res int64
	if err != nil {
		return 0
	}
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

type item struct {
	cfg string
	req request
}

// pool performs tasks on n workers at a time. stop is asked after every
// report; the rest is skipped when it says so.
func (e *env) pool(n int, items []item, limit time.Duration, stop func(vc.Report) bool) (reports []vc.Report, skipped int) {
	var mu sync.Mutex
	next := 0
	halt := false
	var wg sync.WaitGroup
	if n > len(items) {
		n = len(items)
	}
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			procs := map[string]*proc{}
			defer func() {
				for _, p := range procs {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				if halt || next >= len(items) {
					mu.Unlock()
					return
				}
				it := items[next]
				next++
				mu.Unlock()
				left := time.Until(e.deadline)
				var r vc.Report
				if left <= 0 {
					r = vc.Report{Task: it.req.Task, Err: "time budget used up"}
				} else {
					p := procs[it.cfg]
					if p == nil || p.dead {
						for k, q := range procs { // one configuration at a time
							q.stop()
							delete(procs, k)
						}
						var err error
						if p, err = e.start(it.cfg); err != nil {
							r = vc.Report{Task: it.req.Task, Err: err.Error()}
						} else {
							procs[it.cfg] = p
						}
					}
					if r.Err == "" {
						r = p.do(it.req, min(limit, left))
						if p.rss() > 1800<<20 { // terms are never given back
							p.stop()
						}
					}
				}
				r.Config = it.cfg
				mu.Lock()
				reports = append(reports, r)
				if stop != nil && stop(r) {
					halt = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return reports, len(items) - len(reports)
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func join(ss []string) string { return strings.Join(ss, ", ") }
