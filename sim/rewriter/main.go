// Command rewriter copies the repository's packages into a simulation module,
// once per simulated process ("slot"), replacing goroutines, channels, selects,
// map iteration and the imports of everything nondeterministic by the
// deterministic runtime, and inserting preemption points between statements.
//
// It works on the type-checked syntax tree, so it does not depend on how the
// code is laid out or named.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
	ImportMap  map[string]string
}

type pkg struct {
	*listPkg
	files  []*ast.File
	names  []string
	types  *types.Package
	info   *types.Info
	shared bool
	rel    string
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	out     = flag.String("out", "", "module directory to write into")
	ovDir   = flag.String("ov", "", "override packages")
	slotArg = flag.String("slots", "srv=music-sync-server,p1=music-sync-player,p2=music-sync-player,p3=music-sync-player,i1=music-sync-infoer,i2=music-sync-infoer", "slots")
)

var fset = token.NewFileSet()
var modPath string
var repoPkgs = map[string]*pkg{}
var order []*pkg
var overrides = map[string]bool{}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewriter: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	findOverrides()
	load()
	for _, s := range strings.Split(*slotArg, ",") {
		kv := strings.SplitN(s, "=", 2)
		emitSlot(kv[0], kv[1])
	}
	emitShared()
	emitRegistry()
}

func findOverrides() {
	filepath.Walk(*ovDir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*ovDir, filepath.Dir(p))
			overrides[filepath.ToSlash(rel)] = true
		}
		return nil
	})
}

var genRE = regexp.MustCompile(`(?m)^// (Code generated .*|Generated from .*)$`)

func load() {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,Imports,Standard,Module,ImportMap", "./cmd/...")
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	mcmd := exec.Command("go", "list", "-m")
	mcmd.Dir = *repo
	mo, err := mcmd.Output()
	if err != nil {
		die("go list -m: %v", err)
	}
	modPath = strings.TrimSpace(string(mo))
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(o))
	var lps []*listPkg
	for {
		lp := &listPkg{}
		if err := dec.Decode(lp); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[lp.ImportPath] = lp.Export
		lps = append(lps, lp)
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p := repoPkgs[path]; p != nil {
			return p.types, nil
		}
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		return gc.Import(path)
	})
	for _, lp := range lps {
		if lp.Module == nil || lp.Module.Path != modPath {
			continue
		}
		p := &pkg{listPkg: lp}
		p.rel = strings.TrimPrefix(strings.TrimPrefix(lp.ImportPath, modPath), "/")
		allGen := true
		for _, f := range lp.GoFiles {
			fn := filepath.Join(lp.Dir, f)
			src, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("parse: %v", err)
			}
			if !genRE.Match(src) {
				allGen = false
			}
			p.files = append(p.files, af)
			p.names = append(p.names, f)
		}
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", build.Default.GOARCH)}
		tp, err := conf.Check(lp.ImportPath, fset, p.files, p.info)
		if err != nil {
			die("type check %s: %v", lp.ImportPath, err)
		}
		p.types = tp
		p.shared = allGen && len(p.files) > 0 && !importsRepo(p)
		repoPkgs[lp.ImportPath] = p
		order = append(order, p)
	}
	if len(order) == 0 {
		die("no packages of %s found", modPath)
	}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func importsRepo(p *pkg) bool {
	for _, i := range p.Imports {
		if i == modPath || strings.HasPrefix(i, modPath+"/") {
			return true
		}
	}
	return false
}

func reach(main *pkg) []*pkg {
	seen := map[string]bool{}
	var res []*pkg
	var walk func(p *pkg)
	walk = func(p *pkg) {
		if seen[p.ImportPath] {
			return
		}
		seen[p.ImportPath] = true
		for _, i := range p.Imports {
			if q := repoPkgs[i]; q != nil {
				walk(q)
			}
		}
		res = append(res, p)
	}
	walk(main)
	return res
}

type slotInfo struct{ name, mainPath string }

var slots []slotInfo

// isPB reports a generated protobuf file: registered types must exist once.
func isPB(p *pkg, i int) bool {
	return strings.HasSuffix(p.names[i], ".pb.go")
}

func slotPath(slot string, p *pkg) string {
	if p.shared {
		return "msim/shared/" + p.rel
	}
	return "msim/slots/" + slot + "/" + p.rel
}

func emitSlot(slot, mainName string) {
	var mp *pkg
	for _, p := range order {
		if p.Name == "main" && filepath.Base(p.ImportPath) == mainName {
			mp = p
		}
	}
	if mp == nil {
		die("no main package %s", mainName)
	}
	pkgs := reach(mp)
	for _, p := range pkgs {
		if !p.shared {
			emitPkg(slot, p)
		}
	}
	// reset for the whole slot
	var b strings.Builder
	b.WriteString("//go:build go1.21\n\npackage slotreset\n\nimport (\n")
	var calls []string
	n := 0
	for _, p := range pkgs {
		if p.shared {
			continue
		}
		n++
		fmt.Fprintf(&b, "\tp%d %q\n", n, slotPath(slot, p))
		calls = append(calls, fmt.Sprintf("\tp%d.SimReset()\n", n))
	}
	sched, interval := "", ""
	for i, p := range pkgs {
		if p.rel == "schedule" {
			if v, ok := p.types.Scope().Lookup("TimeSyncCycles").(*types.Var); ok && types.Identical(v.Type(), types.Typ[types.Int]) {
				k := 0
				for j := 0; j <= i; j++ {
					if !pkgs[j].shared {
						k++
					}
				}
				sched = fmt.Sprintf("p%d.TimeSyncCycles = n", k)
			}
			if v, ok := p.types.Scope().Lookup("TimeSyncInterval").(*types.Var); ok && v.Type().String() == "time.Duration" {
				k := 0
				for j := 0; j <= i; j++ {
					if !pkgs[j].shared {
						k++
					}
				}
				interval = fmt.Sprintf("p%d.TimeSyncInterval = time.Duration(n)", k)
			}
		}
	}
	if interval != "" {
		b.WriteString("\t\"time\"\n")
	}
	b.WriteString(")\n\nfunc Reset() {\n" + strings.Join(calls, "") + "}\n\n")
	b.WriteString("func Main() { p" + fmt.Sprint(n) + ".SimMain() }\n\nfunc SetSyncCycles(n int) bool {\n")
	if sched != "" {
		b.WriteString("\t" + sched + "\n\treturn true\n}\n")
	} else {
		b.WriteString("\treturn false\n}\n")
	}
	b.WriteString("\nfunc SetSyncInterval(n int64) bool {\n")
	if interval != "" {
		b.WriteString("\t" + interval + "\n\treturn true\n}\n")
	} else {
		b.WriteString("\treturn false\n}\n")
	}
	write(filepath.Join(*out, "slots", slot, "slotreset", "reset.go"), b.String())
	slots = append(slots, slotInfo{slot, mainName})
}

func write(fn, s string) {
	os.MkdirAll(filepath.Dir(fn), 0o755)
	if err := os.WriteFile(fn, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
}

func mapImport(slot, path string) string {
	if p := repoPkgs[path]; p != nil {
		return slotPath(slot, p)
	}
	if overrides[path] {
		return "msim/ov/" + path
	}
	return path
}

// reparse gives a fresh tree for every slot (rewriting mutates it).
func recheck(p *pkg) *pkg {
	q := &pkg{listPkg: p.listPkg, names: p.names, rel: p.rel, shared: p.shared}
	for _, f := range p.names {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("parse: %v", err)
		}
		q.files = append(q.files, af)
	}
	q.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importerFunc(func(path string) (*types.Package, error) {
		for _, d := range p.types.Imports() {
			if d.Path() == path {
				return d, nil
			}
		}
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		return nil, fmt.Errorf("import %s not found", path)
	}), Sizes: types.SizesFor("gc", build.Default.GOARCH)}
	tp, err := conf.Check(p.ImportPath, fset, q.files, q.info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	q.types = tp
	return q
}

func emitPkg(slot string, orig *pkg) {
	p := recheck(orig)
	dir := filepath.Join(*out, "slots", slot, p.rel)
	r := &rw{p: p, info: p.info}
	name := p.Name
	if name == "main" {
		name = "simmain"
	}
	var resets []string
	initN := 0
	// initialisers, by the file that declares them
	type ini struct {
		lhs []*types.Var
		rhs ast.Expr
		fn  string
	}
	byFile := map[*ast.File][]ini{}
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range p.files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
		return nil
	}
	pbFile := map[*ast.File]bool{}
	for i, f := range p.files {
		if isPB(p, i) {
			pbFile[f] = true
		}
	}
	inited := map[*types.Var]bool{}
	var pre, mid []string
	for _, in := range p.info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		if f == nil || pbFile[f] {
			for _, v := range in.Lhs {
				inited[v] = true
			}
			continue
		}
		allBlank := true
		for _, v := range in.Lhs {
			inited[v] = true
			if v.Name() != "_" {
				allBlank = false
			}
		}
		if allBlank {
			if tv := p.info.Types[in.Rhs]; tv.IsNil() || tv.Value != nil || len(in.Lhs) > 1 {
				continue
			}
		}
		initN++
		fn := fmt.Sprintf("rtReset%d", initN)
		byFile[f] = append(byFile[f], ini{in.Lhs, in.Rhs, fn})
		mid = append(mid, "\t"+fn+"()\n")
	}
	scope := p.types.Scope()
	names := scope.Names()
	sort.Strings(names)
	for _, n := range names {
		v, ok := scope.Lookup(n).(*types.Var)
		if !ok || inited[v] {
			continue
		}
		if f := fileOf(v.Pos()); f != nil && pbFile[f] {
			continue
		}
		pre = append(pre, fmt.Sprintf("\trt.Zero(&%s)\n", n))
	}
	var initCalls []string
	for i, f := range p.files {
		if pbFile[f] {
			emitPB(p, f, dir, name)
			continue
		}
		r.file = f
		r.usedRT = false
		// functions
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					initN++
					nn := fmt.Sprintf("rtInit%d", initN)
					d.Name = ast.NewIdent(nn)
					initCalls = append(initCalls, "\t"+nn+"()\n")
				}
				if d.Recv == nil && d.Name.Name == "main" && p.Name == "main" {
					d.Name = ast.NewIdent("SimMain")
				}
				if d.Body != nil {
					r.fn = []ast.Node{d}
					r.block(d.Body)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, sp := range d.Specs {
						vs := sp.(*ast.ValueSpec)
						r.fn = nil
						for j := range vs.Values {
							old := vs.Values[j]
							vs.Values[j] = r.expr(old)
							r.remap(old, vs.Values[j])
						}
					}
				}
			}
		}
		var extra bytes.Buffer
		for _, in := range byFile[f] {
			var l []string
			for _, v := range in.lhs {
				l = append(l, v.Name())
			}
			rhs := in.rhs
			if n, ok := r.newOf[rhs]; ok {
				rhs = n
			}
			fmt.Fprintf(&extra, "\nfunc %s() {\n\t%s = ", in.fn, strings.Join(l, ", "))
			printer.Fprint(&extra, fset, rhs)
			extra.WriteString("\n}\n")
		}
		fixImports(slot, f, r.usedRT)
		f.Name = ast.NewIdent(name)
		f.Comments = nil
		f.Doc = nil
		var b bytes.Buffer
		b.WriteString("//go:build go1.21\n\n")
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, f); err != nil {
			die("print %s: %v", p.names[i], err)
		}
		b.Write(extra.Bytes())
		write(filepath.Join(dir, p.names[i]), b.String())
	}
	resets = append(resets, pre...)
	resets = append(resets, mid...)
	resets = append(resets, initCalls...)
	imp := ""
	if len(pre) > 0 {
		imp = "import \"msim/rt\"\n\n"
	}
	write(filepath.Join(dir, "zz_simreset.go"), "//go:build go1.21\n\npackage "+name+"\n\n"+imp+"func SimReset() {\n"+strings.Join(resets, "")+"}\n")
}

func fixImports(slot string, f *ast.File, usedRT bool) {
	for _, is := range f.Imports {
		path := strings.Trim(is.Path.Value, "\"`")
		is.Path.Value = fmt.Sprintf("%q", mapImport(slot, path))
		is.EndPos = 0
		is.Doc, is.Comment = nil, nil
	}
	if !usedRT {
		return
	}
	spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: "\"msim/rt\""}}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{gd}, f.Decls...)
	f.Imports = append(f.Imports, spec)
}

var pbPkgs = map[string]*pkg{}

// emitPB writes the aliases through which one slot sees the shared messages.
func emitPB(p *pkg, f *ast.File, dir, name string) {
	pbPkgs[p.ImportPath] = p
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nimport pb \"msim/pb/%s\"\n\n", name, p.rel)
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					if sp.Name.IsExported() {
						fmt.Fprintf(&b, "type %s = pb.%s\n", sp.Name.Name, sp.Name.Name)
					}
				case *ast.ValueSpec:
					kw := "var"
					if d.Tok == token.CONST {
						kw = "const"
					}
					for _, n := range sp.Names {
						if n.IsExported() {
							fmt.Fprintf(&b, "%s %s = pb.%s\n", kw, n.Name, n.Name)
						}
					}
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.IsExported() {
				fmt.Fprintf(&b, "var %s = pb.%s\n", d.Name.Name, d.Name.Name)
			}
		}
	}
	write(filepath.Join(dir, "zz_pb.go"), b.String())
}

func emitShared() {
	for _, p := range order {
		if p.shared {
			for _, n := range p.names {
				src, _ := os.ReadFile(filepath.Join(p.Dir, n))
				write(filepath.Join(*out, "shared", p.rel, n), string(src))
			}
		}
	}
	for _, p := range pbPkgs {
		for i, n := range p.names {
			if isPB(p, i) {
				src, _ := os.ReadFile(filepath.Join(p.Dir, n))
				write(filepath.Join(*out, "pb", p.rel, n), string(src))
			}
		}
	}
}

func emitRegistry() {
	var b strings.Builder
	b.WriteString("//go:build go1.21\n\n// Package slots lists the simulated processes.\npackage slots\n\nimport (\n")
	for _, s := range slots {
		fmt.Fprintf(&b, "\t%s \"msim/slots/%s/slotreset\"\n", s.name, s.name)
	}
	b.WriteString(")\n\ntype Slot struct {\n\tReset, Main func()\n\tSetSyncCycles func(int) bool\n\tSetSyncInterval func(int64) bool\n}\n\nvar All = map[string]Slot{\n")
	for _, s := range slots {
		fmt.Fprintf(&b, "\t%q: {%s.Reset, %s.Main, %s.SetSyncCycles, %s.SetSyncInterval},\n", s.name, s.name, s.name, s.name, s.name)
	}
	b.WriteString("}\n")
	write(filepath.Join(*out, "slots", "slots.go"), b.String())
}
