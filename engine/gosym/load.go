// Package gosym is the Go frontend: it loads the module under test with
// go/packages, builds SSA, and executes functions symbolically.
package gosym

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Config selects one build of the module.
type Config struct {
	Name   string
	GOOS   string
	GOARCH string
	Tags   string
	Cgo    bool
}

const Module = "github.com/pjbgf/sha1cd"
const SpecPath = Module + "/internal/verifspec"

const goPath = "/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"

// Env is the environment for go commands on the module under test.
func (c Config) Env(cache string) []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		if strings.HasPrefix(k, "GO") || strings.HasPrefix(k, "CGO") || k == "CC" || k == "CXX" || k == "PATH" {
			continue
		}
		env = append(env, e)
	}
	cgo := "0"
	if c.Cgo {
		cgo = "1"
	}
	cc := "gcc"
	switch c.GOARCH {
	case "arm64":
		cc = "aarch64-linux-gnu-gcc"
	case "arm":
		cc = "arm-linux-gnueabihf-gcc"
	}
	return append(env,
		"PATH="+goPath,
		"GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "GOENV=off", "GOTELEMETRY=off",
		"GOPATH=/opt/vp/go", "GOMODCACHE=/opt/vp/go/pkg/mod", "GOCACHE="+cache,
		"GOOS=linux", "GOARCH="+c.GOARCH, "CGO_ENABLED="+cgo, "CC="+cc)
}

type Prog struct {
	Cfg   Config
	Repo  string
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package
	Types map[string]*packages.Package
	Sizes types.Sizes
	fns   map[*ssa.Function]*goFn
	// Files that make up the functions of the module, for reports.
	lay map[types.Type]*layout
}

// Load type-checks the module at repo and builds SSA for it.
func Load(repo, specDir, cache string, cfg Config) (*Prog, error) {
	os.Setenv("PATH", goPath) // packages.Load looks the go command up in its own environment
	ov := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(specDir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, "internal", "verifspec", filepath.Base(f))] = b
	}
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Env: cfg.Env(cache), Overlay: ov,
	}
	if cfg.Tags != "" {
		pc.BuildFlags = []string{"-tags=" + cfg.Tags}
	}
	pkgs, err := packages.Load(pc, ".", "./ubc", "./cgo", "./internal", "./internal/verifspec")
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, Module) {
				msgs = append(msgs, e.Error())
			}
		}
	})
	if len(msgs) > 0 {
		sort.Strings(msgs)
		return nil, fmt.Errorf("the module does not type-check (%s): %s", cfg.Name, strings.Join(msgs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Cfg: cfg, Repo: repo, SSA: prog, Pkgs: map[string]*ssa.Package{}, Types: map[string]*packages.Package{}, fns: map[*ssa.Function]*goFn{}, lay: map[types.Type]*layout{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		p.Types[q.PkgPath] = q
		if p.Sizes == nil && q.TypesSizes != nil {
			p.Sizes = q.TypesSizes
		}
		if s := prog.Package(q.Types); s != nil {
			p.Pkgs[q.PkgPath] = s
		}
	})
	for _, need := range []string{Module, Module + "/ubc", Module + "/internal", SpecPath} {
		if p.Pkgs[need] == nil {
			return nil, fmt.Errorf("package %s was not loaded (%s)", need, cfg.Name)
		}
	}
	for path, s := range p.Pkgs {
		if strings.HasPrefix(path, Module) {
			s.Build()
		}
	}
	return p, nil
}

// Func finds a function or method: "Name", "(*T).Name" or "T.Name".
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	if strings.Contains(name, ".") {
		parts := strings.SplitN(name, ".", 2)
		tn := strings.Trim(parts[0], "(*)")
		m := sp.Type(tn)
		if m == nil {
			return nil
		}
		var t types.Type = m.Type()
		if strings.HasPrefix(parts[0], "(*") {
			t = types.NewPointer(t)
		}
		return p.SSA.LookupMethod(t, sp.Pkg, parts[1])
	}
	return sp.Func(name)
}

// ------------------------------------------------------------ type layout

type layout struct {
	n      int
	fields []int // struct: leaf offset per field
	elem   int   // array: leaves per element
}

func (p *Prog) layout(t types.Type) *layout {
	if l, ok := p.lay[t]; ok {
		return l
	}
	var l layout
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l.fields = append(l.fields, l.n)
			l.n += p.layout(u.Field(i).Type()).n
		}
	case *types.Array:
		l.elem = p.layout(u.Elem()).n
		l.n = l.elem * int(u.Len())
	case *types.Tuple:
		l.n = 1
	default:
		l.n = 1
	}
	p.lay[t] = &l
	return &l
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// intInfo returns the width and signedness of a scalar type.
func (p *Prog) intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	inf := b.Info()
	switch {
	case inf&types.IsBoolean != 0:
		return 1, false, true
	case inf&types.IsInteger != 0:
		if b.Kind() == types.UntypedInt || b.Kind() == types.UntypedRune {
			return 64, true, true
		}
		return int(p.Sizes.Sizeof(t)) * 8, inf&types.IsUnsigned == 0, true
	}
	if b.Kind() == types.Uintptr {
		return int(p.Sizes.Sizeof(t)) * 8, false, true
	}
	return 0, false, false
}

// Leaves is the number of cells of a type.
func (p *Prog) Leaves(t types.Type) int { return p.layout(t).n }

// FieldOff is the cell offset of field i of a struct type.
func (p *Prog) FieldOff(t types.Type, i int) int { return p.layout(t).fields[i] }

// IntWidth is the width of an integer type (0: not an integer).
func (p *Prog) IntWidth(t types.Type) int {
	w, _, ok := p.intInfo(t)
	if !ok {
		return 0
	}
	return w
}
