// sha1vc generates and discharges the proof obligations of sha1cd.
//
//	sha1vc check <property>     decide one property
//	sha1vc worker <config>      (internal) a worker process
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

type env struct {
	self, verif, repo, out string
	tier                   string
	seed                   uint64
	deadline               time.Time
	start0                 time.Time
}

func (e *env) goCache() string { return filepath.Join(e.verif, ".cache", "go-repo") }

func main() {
	e := &env{verif: "/verif", repo: "/repo", tier: "quick", seed: 1, start0: time.Now()}
	e.self, _ = os.Executable()
	if s := os.Getenv("VERIF_DIR"); s != "" {
		e.verif = s
	}
	e.out = e.verif
	if s := os.Getenv("VERIF_OUT"); s != "" {
		e.out = s
	}
	if s := os.Getenv("VERIF_REPO"); s != "" {
		e.repo = s
	}
	if s := os.Getenv("VERIF_TIER"); s == "thorough" {
		e.tier = s
	}
	if n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 32); err == nil {
		e.seed = n
	}
	e.deadline = e.start0.Add(480 * time.Second)
	if e.tier == "thorough" {
		e.deadline = e.start0.Add(3600 * time.Second)
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: sha1vc check <property>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		e.worker(os.Args[2])
	case "replay": // development: the replay harness must be quiet on good code
		path, found := e.replay(os.Args[2], nil, &result{prop: os.Args[2]})
		b, _ := os.ReadFile(path)
		var d struct{ Replays []replayOut }
		json.Unmarshal(b, &d)
		for _, r := range d.Replays {
			fmt.Printf("%s %s: %s %s\n", os.Args[2], r.Name, r.Verdict, clip(r.Output, 300))
		}
		if found {
			os.Exit(1)
		}
	case "check":
		os.Exit(e.check(os.Args[2]))
	default:
		os.Exit(2)
	}
}
