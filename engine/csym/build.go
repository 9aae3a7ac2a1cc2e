package csym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// gcc 11 and later know an attribute with arguments that clang does not; it
// occurs in the C library's headers only and says nothing about behaviour.
var mallocAttr = regexp.MustCompile(`__attribute__\s*\(\(\s*__malloc__\s*\([^()]*\)\s*\)\)`)

// Build compiles the C part of the package at dir: its C files and the
// preambles of its cgo files. The text is preprocessed by gcc, as cgo does,
// compiled by clang without optimisation, and its locals are promoted to
// registers by opt's mem2reg. The C library's run-time overflow checks
// (_FORTIFY_SOURCE) are left out: they only abort, where the bounds obligations
// on memcpy and memset fail already.
func Build(dir string, env []string) ([]*Module, error) {
	cmd := exec.Command("go", "list", "-json", ".")
	cmd.Dir, cmd.Env = dir, env
	var pk struct {
		CFiles, CgoFiles, CXXFiles, SFiles, CgoCFLAGS, CgoCPPFLAGS []string
	}
	out, err := cmd.Output()
	if err == nil {
		err = json.Unmarshal(out, &pk)
	}
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	if len(pk.CXXFiles)+len(pk.SFiles) > 0 {
		return nil, fmt.Errorf("C++ or assembly files in the cgo package")
	}
	tmp, err := os.MkdirTemp("", "csym")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	type src struct{ name, path string }
	var srcs []src
	for _, f := range pk.CFiles {
		srcs = append(srcs, src{f, filepath.Join(dir, f)})
	}
	for _, f := range pk.CgoFiles {
		fs := token.NewFileSet()
		a, err := goparser.ParseFile(fs, filepath.Join(dir, f), nil, goparser.ParseComments)
		if err != nil {
			return nil, err
		}
		text := ""
		for _, d := range a.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				if q, ok := s.(*ast.ImportSpec); ok && q.Path.Value == `"C"` {
					doc := q.Doc
					if doc == nil && len(g.Specs) == 1 {
						doc = g.Doc
					}
					if doc != nil {
						text += commentText(doc)
					}
				}
			}
		}
		var keep []string
		for _, l := range strings.Split(text, "\n") {
			if strings.HasPrefix(strings.TrimSpace(l), "#cgo") {
				l = ""
			}
			keep = append(keep, l)
		}
		p := filepath.Join(tmp, f+".c")
		if err := os.WriteFile(p, []byte("#include <stddef.h>\n"+strings.Join(keep, "\n")), 0o644); err != nil {
			return nil, err
		}
		srcs = append(srcs, src{f, p})
	}
	flags := append(append([]string{}, pk.CgoCPPFLAGS...), pk.CgoCFLAGS...)
	var mods []*Module
	for _, s := range srcs {
		args := append([]string{"-E", "-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-I", dir}, flags...)
		args = append(args, s.path)
		run := func(in []byte, name string, args ...string) ([]byte, error) {
			c := exec.Command(name, args...)
			var e bytes.Buffer
			c.Stderr = &e
			if in != nil {
				c.Stdin = bytes.NewReader(in)
			}
			o, err := c.Output()
			if err != nil {
				return nil, fmt.Errorf("%s: %v: %.400s", filepath.Base(name), err, e.String())
			}
			return o, nil
		}
		pre, err := run(nil, "/usr/bin/gcc", args...)
		if err != nil {
			return nil, err
		}
		pre = mallocAttr.ReplaceAll(pre, nil)
		ll, err := run(pre, "/usr/bin/clang-18", "-x", "cpp-output", "-target", "x86_64-pc-linux-gnu", "-std=gnu17", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-w", "-o", "-", "-")
		if err != nil {
			return nil, err
		}
		ll, err = run(ll, "/usr/bin/opt-18", "-S", "-passes=mem2reg", "-o", "-", "-")
		if err != nil {
			return nil, err
		}
		m, err := Parse("cgo/"+s.name, string(ll))
		if err != nil {
			return nil, err
		}
		mods = append(mods, m)
	}
	return mods, nil
}

func commentText(g *ast.CommentGroup) string {
	var b strings.Builder
	for _, c := range g.List {
		t := c.Text
		if strings.HasPrefix(t, "//") {
			b.WriteString(t[2:])
		} else {
			b.WriteString(strings.TrimSuffix(strings.TrimPrefix(t, "/*"), "*/"))
		}
		b.WriteByte('\n')
	}
	return b.String()
}
