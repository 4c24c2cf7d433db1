// Command gen rewrites the packages of /repo (and their non-standard dependencies) so that all
// concurrency, time, randomness and networking goes through the controlled runtime verif/rt.
//
// The output is a mirror of the source tree under gen/: the statements and expressions are the
// original source text, except for the constructs listed in rewrite.go.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

// wrapped standard packages: every import of the key is redirected to the value.
var wrapped = map[string]string{
	"sync":         "verif/v/sync",
	"sync/atomic":  "verif/v/atomic",
	"time":         "verif/v/time",
	"context":      "verif/v/context",
	"net":          "verif/v/net",
	"crypto/tls":   "verif/v/tls",
	"math/rand":    "verif/v/rand",
	"math/rand/v2": "verif/v/randv2",
	"runtime":      "verif/v/runtime",
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gen: "+f+"\n", a...)
	os.Exit(3)
}

func target(path string) string {
	const main = "github.com/mindstand/go-bolt"
	if path == main {
		return "verif/gen/bolt"
	}
	if strings.HasPrefix(path, main+"/") {
		return "verif/gen/bolt" + path[len(main):]
	}
	return "verif/gen/dep/" + path
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	mc := flag.String("mc", "/verif/mc", "verif module")
	flag.Parse()

	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,Imports,ImportMap,Error,DepsErrors", "./..."}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(&out)
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	// the wrappers need export data of what they wrap
	var missing []string
	for std := range wrapped {
		if exports[std] == "" {
			missing = append(missing, std)
		}
	}
	for _, x := range []string{"internal/reflectlite", "reflect"} {
		if exports[x] == "" {
			missing = append(missing, x)
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,Standard,GoFiles"}, missing...)...)
		cmd.Dir = *repo
		out.Reset()
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Run(); err != nil {
			fatal("go list: %v\n%s", err, errb.String())
		}
		dec := json.NewDecoder(&out)
		for {
			p := new(pkgInfo)
			if err := dec.Decode(p); err == io.EOF {
				break
			} else if err != nil {
				fatal("go list output: %v", err)
			}
			if exports[p.ImportPath] == "" {
				exports[p.ImportPath] = p.Export
			}
		}
	}
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal("go env: %v", err)
	}

	fset := token.NewFileSet()
	done := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	imp := impFunc(func(path string) (*types.Package, error) {
		if p, ok := done[path]; ok {
			return p, nil
		}
		return gc.Import(path)
	})

	w := &writer{root: *mc, keep: map[string]bool{}}
	var covered []string
	for _, p := range pkgs {
		if p.Standard {
			continue
		}
		covered = append(covered, p.ImportPath)
	}
	isLocal := map[string]bool{}
	for _, c := range covered {
		isLocal[c] = true
	}
	redirect := func(path string) string {
		if isLocal[path] {
			return target(path)
		}
		return wrapped[path]
	}
	process := func(importPath, name, dir string, files []string, outDir string, redirect func(string) string, post func([]byte) []byte) *types.Package {
		var asts []*ast.File
		var srcs [][]byte
		for _, f := range files {
			path := filepath.Join(dir, f)
			src, err := os.ReadFile(path)
			if err != nil {
				fatal("%v", err)
			}
			if post != nil {
				src = post(src)
			}
			a, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			asts = append(asts, a)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tp, err := conf.Check(importPath, fset, asts, info)
		if err != nil {
			fatal("type checking %s: %v", importPath, err)
		}
		for i, a := range asts {
			rw := &rewriter{fset: fset, file: a, src: srcs[i], info: info, redirect: redirect, base: fset.File(a.Pos()).Base()}
			res := rw.run()
			w.write(filepath.Join(outDir, filepath.Base(files[i])), res)
		}
		return tp
	}
	for _, p := range pkgs {
		if p.Standard {
			continue
		}
		out := filepath.Join(*mc, strings.TrimPrefix(target(p.ImportPath), "verif/"))
		done[p.ImportPath] = process(p.ImportPath, p.Name, p.Dir, p.GoFiles, out, redirect, nil)
	}
	// the context package, on top of the controlled runtime
	ctxDir := filepath.Join(strings.TrimSpace(string(goroot)), "src", "context")
	process("context", "context", ctxDir, []string{"context.go"}, filepath.Join(*mc, "v", "context"), func(path string) string {
		if path == "internal/reflectlite" {
			return "reflect"
		}
		return wrapped[path]
	}, func(src []byte) []byte {
		// same surface as reflectlite for what context uses; language version of the std library
		return append([]byte("//go:build go1.24\n\n"), src...)
	})
	// aliases for what the wrappers do not define themselves
	for std, wp := range wrapped {
		if std == "context" {
			continue
		}
		dir := filepath.Join(*mc, strings.TrimPrefix(wp, "verif/"))
		sp, err := gc.Import(std)
		if err != nil {
			fatal("%v", err)
		}
		w.write(filepath.Join(dir, "zz_alias.go"), aliases(dir, std, sp))
	}
	w.prune(filepath.Join(*mc, "gen"))
	fmt.Printf("gen: %d packages, %d files, %d rewritten constructs\n", len(covered), len(w.keep), total)
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

type writer struct {
	root string
	keep map[string]bool
}

func (w *writer) write(path string, data []byte) {
	w.keep[path] = true
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, data) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		fatal("%v", err)
	}
}

// prune removes stale generated files.
func (w *writer) prune(dir string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !w.keep[p] {
			os.Remove(p)
		}
		return nil
	})
}

func aliases(dir, std string, sp *types.Package) []byte {
	have := map[string]bool{}
	fs := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatal("%v", err)
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "zz_alias.go" {
			continue
		}
		f, err := parser.ParseFile(fs, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			fatal("%v", err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by gen. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", sp.Name(), std)
	n := 0
	for _, name := range sp.Scope().Names() {
		o := sp.Scope().Lookup(name)
		if !o.Exported() || have[name] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", name, name)
		case *types.TypeName:
			if tn, ok := o.Type().(*types.Named); ok && tn.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		}
		n++
	}
	if n == 0 {
		return []byte(fmt.Sprintf("// Code generated by gen. DO NOT EDIT.\n\npackage %s\n", sp.Name()))
	}
	return b.Bytes()
}
