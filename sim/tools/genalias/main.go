// genalias writes zz_alias.go into every override package: aliases for all the
// exported names of the original package that the override does not define.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	ov := os.Args[1]
	var dirs []string
	filepath.Walk(ov, func(p string, i os.FileInfo, err error) error {
		if i.IsDir() {
			if m, _ := filepath.Glob(p + "/*.go"); len(m) > 0 {
				r, _ := filepath.Rel(ov, p)
				dirs = append(dirs, r)
			}
		}
		return nil
	})
	args := append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}, dirs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = "/repo"
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		panic(err)
	}
	exp := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 2 {
			exp[f[0]] = f[1]
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) { return os.Open(exp[p]) })
	for _, d := range dirs {
		pkg, err := imp.Import(d)
		if err != nil {
			panic(err)
		}
		have := map[string]bool{}
		files, _ := filepath.Glob(filepath.Join(ov, d, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "zz_alias.go") {
				continue
			}
			a, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, dc := range a.Decls {
				switch dc := dc.(type) {
				case *ast.FuncDecl:
					if dc.Recv == nil {
						have[dc.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range dc.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "//go:build go1.21\n\n// Code generated by genalias. DO NOT EDIT.\npackage %s\n\nimport realpkg %q\n\n", pkg.Name(), d)
		names := pkg.Scope().Names()
		sort.Strings(names)
		n := 0
		for _, name := range names {
			o := pkg.Scope().Lookup(name)
			if !o.Exported() || have[name] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = realpkg.%s\n", name, name)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = realpkg.%s\n", name, name)
			case *types.Var:
				if d == "os" && (name == "Args" || strings.HasPrefix(name, "Std")) {
					continue
				}
				fmt.Fprintf(&b, "var %s = realpkg.%s\n", name, name)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				if d == "os" || d == "os/signal" || d == "runtime" && strings.HasPrefix(name, "Set") {
					continue // nothing here may reach the real system
				}
				fmt.Fprintf(&b, "var %s = realpkg.%s\n", name, name)
			default:
				continue
			}
			n++
		}
		if n == 0 {
			b.Reset()
			fmt.Fprintf(&b, "//go:build go1.21\n\n// Code generated by genalias. DO NOT EDIT.\npackage %s\n", pkg.Name())
		}
		os.WriteFile(filepath.Join(ov, d, "zz_alias.go"), []byte(b.String()), 0644)
	}
}
