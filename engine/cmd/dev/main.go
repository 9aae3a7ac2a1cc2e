package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"time"

	"verif/engine/gosym"
	"verif/engine/vc"
)

func main() {
	t0 := time.Now()
	cfg := gosym.Config{Name: "amd64", GOARCH: "amd64", Cgo: false}
	if len(os.Args) > 1 {
		cfg.GOARCH = os.Args[1]
		if cfg.GOARCH == "cgo" {
			cfg.GOARCH, cfg.Cgo, cfg.Name = "amd64", true, "cgo"
		}
	}
	p, err := gosym.Load(repo(), "/verif/spec", "/verif/.cache/go-repo", cfg)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("load", time.Since(t0))
	v, err := vc.New(p, 1)
	if err != nil {
		panic(err)
	}
	v.Cache = "/verif/.cache/go-repo"
	if cfg.Cgo || os.Getenv("NOCGO") != "" {
		v.Target("github.com/pjbgf/sha1cd/cgo")
	}
	v.X.P.Debug = os.Getenv("DBG") != ""
	v.X.Debug = os.Getenv("DBG") != ""
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if os.Getenv("QSTAT") != "" {
		v.X.P.ByCaller = map[string][2]int64{}
	}
	v.Dev()
	for k, c := range v.X.P.ByCaller {
		if c[1] > 300000 {
			fmt.Println("Q", c[0], c[1]/1000, "ms", k)
		}
	}
	n := map[string]int{}
	for _, r := range v.Res {
		n[r.Status]++
		if r.Status == "proved" && r.Ms < 1000 && os.Getenv("ALL") == "" {
			continue
		}
		if len(r.Detail) > 300 {
			r.Detail = r.Detail[:300]
		}
		fmt.Println(r.Status, r.By, r.Ms, r.Fn, r.Name, r.Tags, r.Detail)
	}
	fmt.Println(n, v.Notes)
	fmt.Printf("%+v %v\n", v.X.P.Stats, time.Since(t0))
}

func repo() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
