// mutate lists small changes of the Go files given as arguments, one JSON object per line.
// It is used to look for blind spots of the checks (see drive.py); no check depends on it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type Mut struct {
	File     string
	Line     int
	Off, End int
	New      string
	What     string
	Off2     int `json:",omitempty"`
	End2     int `json:",omitempty"`
}

var swap = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, repl, what string) {
			enc.Encode(Mut{File: fn, Line: fs.Position(a).Line, Off: off(a), End: off(b), New: repl, What: what})
		}
		logging := func(n ast.Node) bool {
			t := text(n)
			return strings.HasPrefix(t, "logger.") || strings.HasPrefix(t, "fmt.Fprint(os.Stderr")
		}
		del := func(s ast.Stmt) {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt:
				if !logging(s) {
					emit(s.Pos(), s.End(), "", "delete "+text(s))
					if _, ok := x.(*ast.ExprStmt); ok {
						if _, ok := x.(*ast.ExprStmt).X.(*ast.CallExpr); ok && !strings.Contains(text(s), "ock()") {
							emit(s.Pos(), s.Pos(), "go ", "go "+text(s))
						}
					}
				}
			case *ast.DeferStmt:
				emit(s.Pos(), s.End(), "", "delete "+text(s))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					var l []string
					for _, r := range x.Rhs {
						l = append(l, "_ = "+text(r))
					}
					if len(x.Lhs) == len(x.Rhs) {
						emit(s.Pos(), s.End(), strings.Join(l, "; "), "delete "+text(s))
					}
				}
			case *ast.GoStmt:
				emit(x.Pos(), x.Call.Pos(), "", "no go "+text(s))
			case *ast.IfStmt:
				if x.Else == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never if "+text(x.Cond))
				}
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate if "+text(x.Cond))
			case *ast.BranchStmt:
				if x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "continue", "break to continue")
				} else if x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "", "delete continue")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(s)
				}
				// remove pairs of locking
				for i, s := range x.List {
					t := text(s)
					if !strings.HasSuffix(t, "Lock()") || strings.HasSuffix(t, "Unlock()") {
						continue
					}
					base := strings.TrimSuffix(strings.TrimSuffix(t, "Lock()"), "R")
					for _, u := range x.List[i+1:] {
						ut := strings.TrimPrefix(text(u), "defer ")
						if ut == base+"Unlock()" || ut == base+"RUnlock()" {
							enc.Encode(Mut{File: fn, Line: fs.Position(s.Pos()).Line, Off: off(s.Pos()), End: off(s.End()), Off2: off(u.Pos()), End2: off(u.End()), What: "no lock " + t})
							break
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s)
				}
			case *ast.CommClause:
				for _, s := range x.Body {
					del(s)
				}
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					if x.Op == token.ADD && (strings.Contains(text(x), "\"")) {
						continue
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, fmt.Sprintf("%s -> %s in %s", x.Op, o, text(x)))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "literal+1 "+x.Value)
					if x.Value != "0" && x.Value != "1" {
						emit(x.Pos(), x.End(), "("+x.Value+"/2)", "literal/2 "+x.Value)
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					emit(x.Pos(), x.End(), "", "delete return")
				}
			}
			return true
		})
	}
}
