package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

type rw struct {
	p      *pkg
	info   *types.Info
	file   *ast.File
	usedRT bool
	fn     []ast.Node // enclosing function nodes
	n      int
	newOf  map[ast.Expr]ast.Expr
}

func (r *rw) remap(old, nw ast.Expr) {
	if r.newOf == nil {
		r.newOf = map[ast.Expr]ast.Expr{}
	}
	if old != nw {
		r.newOf[old] = nw
	}
}

func (r *rw) id(prefix string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s%d", prefix, r.n))
}

func (r *rw) rt(name string, args ...ast.Expr) *ast.CallExpr {
	r.usedRT = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("rt"), Sel: ast.NewIdent(name)}, Args: args}
}

var updates int

// between puts a preemption point between the value and what is stored; each has its number.
func (r *rw) between(v ast.Expr) ast.Expr {
	updates++
	return r.rt("Y1", v, &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(updates)})
}

func (r *rw) yield() ast.Stmt { return &ast.ExprStmt{X: r.rt("Y")} }

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }
func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }

func untyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (r *rw) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// ---- expressions ----

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return e
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				if pn.Imported().Path() == "os" && overrides["os"] {
					switch x.Sel.Name {
					case "Args", "Stdin", "Stdout", "Stderr":
						x.Sel = ast.NewIdent(x.Sel.Name + "_")
						return &ast.CallExpr{Fun: x}
					}
				}
				return e
			}
		}
		x.X = r.expr(x.X)
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "close":
			return r.rt("Close", r.expr(x.Args[0]))
		case "delete":
			x.Args[0] = r.rt("MapW", r.expr(x.Args[0]))
			x.Args[1] = r.expr(x.Args[1])
			return x
		case "new", "make":
			if len(x.Args) > 1 {
				r.exprs(x.Args[1:])
			}
			return x
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.rt("Recv", r.expr(x.X))
		}
		if x.Op == token.AND {
			if _, ok := unparen(x.X).(*ast.IndexExpr); ok {
				// &s[i]: keep addressable
				r.lhs(unparen(x.X))
				return x
			}
		}
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		m := isMap(r.typeOf(x.X))
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		if m {
			x.X = r.rt("MapR", x.X)
		}
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.BinaryExpr:
		plain := false
		if x.Op == token.LAND || x.Op == token.LOR {
			if tv, ok := r.info.Types[x.Y]; ok && tv.Value == nil {
				if b, ok := tv.Type.(*types.Basic); ok && (b.Kind() == types.Bool || b.Kind() == types.UntypedBool) {
					if tv2 := r.info.Types[e]; tv2.Type != nil {
						if b, ok := tv2.Type.(*types.Basic); ok && (b.Kind() == types.Bool || b.Kind() == types.UntypedBool) {
							plain = true
						}
					}
				}
			}
		}
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		if plain {
			x.Y = &ast.ParenExpr{X: &ast.BinaryExpr{X: r.rt("T"), Op: token.LAND, Y: &ast.ParenExpr{X: x.Y}}}
		}
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
	case *ast.CompositeLit:
		st := false
		if t := r.typeOf(x); t != nil {
			u := under(t)
			if p, ok := u.(*types.Pointer); ok {
				u = under(p.Elem())
			}
			_, st = u.(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !st {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
				continue
			}
			x.Elts[i] = r.expr(el)
		}
	case *ast.FuncLit:
		r.fn = append(r.fn, x)
		r.block(x.Body)
		r.fn = r.fn[:len(r.fn)-1]
	}
	return e
}

// lhs rewrites an assignment target.
func (r *rw) lhs(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lhs(x.X)
	case *ast.IndexExpr:
		m := isMap(r.typeOf(x.X))
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		if m {
			x.X = r.rt("MapW", x.X)
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				return e
			}
		}
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	}
	return e
}

// shared reports whether another task could see the variable e denotes.
func (r *rw) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		o := r.info.Uses[x]
		if o == nil {
			return false
		}
		v, ok := o.(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == r.p.types.Scope() {
			return true
		}
		if len(r.fn) == 0 {
			return false
		}
		f := r.fn[len(r.fn)-1]
		return !(f.Pos() <= v.Pos() && v.Pos() <= f.End())
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

// pure reports an operand that can be evaluated twice.
func (r *rw) pure(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return r.pure(x.X)
	case *ast.StarExpr:
		return r.pure(x.X)
	case *ast.IndexExpr:
		return r.pure(x.X) && r.pure(x.Index)
	case *ast.BinaryExpr:
		return r.pure(x.X) && r.pure(x.Y)
	case *ast.CallExpr:
		b := r.builtin(x.Fun)
		return (b == "len" || b == "cap") && r.pure(x.Args[0])
	}
	return false
}

// clone copies a pure expression.
func clone(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(x.Name)
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: x.Kind, Value: x.Value}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: clone(x.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(x.X), Sel: ast.NewIdent(x.Sel.Name)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: clone(x.X)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: clone(x.X), Index: clone(x.Index)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: clone(x.X), Op: x.Op, Y: clone(x.Y)}
	case *ast.CallExpr:
		c := &ast.CallExpr{Fun: clone(x.Fun)}
		for _, a := range x.Args {
			c.Args = append(c.Args, clone(a))
		}
		return c
	}
	return e
}

// ---- statements ----

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(l))
	for _, s := range l {
		switch d := s.(type) {
		case *ast.EmptyStmt:
			out = append(out, s)
			continue
		case *ast.DeclStmt:
			if gd, ok := d.Decl.(*ast.GenDecl); ok && gd.Tok != token.VAR {
				out = append(out, s)
				continue
			}
		case *ast.LabeledStmt, *ast.BranchStmt:
			// (a yield before a label is fine)
		}
		out = append(out, r.yield(), r.stmt(s))
	}
	return out
}

func (r *rw) loopBody(b *ast.BlockStmt) {
	r.block(b)
	b.List = append([]ast.Stmt{r.yield()}, b.List...)
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rw) assign(s *ast.AssignStmt) ast.Stmt {
	if op, ok := opOf[s.Tok]; ok {
		l := s.Lhs[0]
		if r.shared(l) && r.pure(l) {
			rd := clone(l)
			if ix, ok := unparen(l).(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) {
				c := clone(ix).(*ast.IndexExpr)
				c.X = r.rt("MapR", c.X)
				rd = c
			}
			l2 := r.lhs(l)
			return &ast.AssignStmt{Lhs: []ast.Expr{l2}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				&ast.BinaryExpr{X: r.between(rd), Op: op, Y: &ast.ParenExpr{X: r.expr(s.Rhs[0])}}}}
		}
		s.Lhs[0] = r.lhs(l)
		s.Rhs[0] = r.expr(s.Rhs[0])
		return s
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u := arrow(s.Rhs[0]); u != nil {
			if s.Tok == token.ASSIGN {
				s.Lhs[0], s.Lhs[1] = r.lhs(s.Lhs[0]), r.lhs(s.Lhs[1])
			}
			s.Rhs[0] = r.rt("Recv2", r.expr(u.X))
			return s
		}
	}
	y1 := s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.shared(s.Lhs[0])
	if y1 {
		tv := r.info.Types[s.Rhs[0]]
		if tv.Type == nil || tv.Value != nil || tv.IsNil() || untyped(tv.Type) || tv.IsVoid() {
			y1 = false
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			y1 = false
		}
	}
	if s.Tok == token.ASSIGN {
		for i := range s.Lhs {
			s.Lhs[i] = r.lhs(s.Lhs[i])
		}
	}
	r.exprs(s.Rhs)
	if y1 {
		s.Rhs[0] = r.between(s.Rhs[0])
	}
	return s
}

// simple rewrites an init or post statement in place.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt(s)
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func addr(e ast.Expr) ast.Expr {
	if blank(e) {
		return ast.NewIdent("nil")
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(s.X)
	if isChan(t) {
		x := r.expr(s.X)
		it := r.id("rtit")
		f := &ast.ForStmt{Body: s.Body}
		switch {
		case blank(s.Key):
			f.Init = define([]ast.Expr{it}, r.rt("RangeChan0", x))
			f.Cond = call(it, "Next0")
		case s.Tok == token.DEFINE:
			f.Init = define([]ast.Expr{it, s.Key}, r.rt("RangeChan", x))
			f.Cond = call(it, "Next", addr(s.Key))
		default:
			f.Init = define([]ast.Expr{it}, r.rt("RangeChan0", x))
			f.Cond = call(it, "Next", addr(r.lhs(s.Key)))
		}
		r.loopBody(s.Body)
		return f
	}
	if isMap(t) {
		x := r.expr(s.X)
		it := r.id("rtit")
		f := &ast.ForStmt{Body: s.Body}
		switch {
		case blank(s.Key) && blank(s.Value):
			f.Init = define([]ast.Expr{it}, r.rt("RangeMap0", x))
			f.Cond = call(it, "Next0")
		case s.Tok == token.DEFINE:
			k, v := ast.Expr(ast.NewIdent("_")), ast.Expr(ast.NewIdent("_"))
			if !blank(s.Key) {
				k = s.Key
			}
			if !blank(s.Value) {
				v = s.Value
			}
			f.Init = define([]ast.Expr{it, k, v}, r.rt("RangeMap", x))
			f.Cond = call(it, "Next", addr(k), addr(v))
		default:
			f.Init = define([]ast.Expr{it}, r.rt("RangeMap0", x))
			k, v := s.Key, s.Value
			if !blank(k) {
				k = r.lhs(k)
			}
			if v != nil && !blank(v) {
				v = r.lhs(v)
			}
			f.Cond = call(it, "Next", addr(k), addr(v))
		}
		r.loopBody(s.Body)
		return f
	}
	s.X = r.expr(s.X)
	if s.Tok == token.ASSIGN {
		s.Key = r.lhs(s.Key)
		if s.Value != nil {
			s.Value = r.lhs(s.Value)
		}
	}
	r.loopBody(s.Body)
	return s
}

func define(l []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: rhs}
}

func call(x ast.Expr, m string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(m)}, Args: args}
}

func (r *rw) selectStmt(s *ast.SelectStmt) ast.Stmt {
	r.usedRT = true
	if len(s.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.rt("Select", ast.NewIdent("false"))}}}}
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var lhs, rhs []ast.Expr
	hasDef := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := []ast.Stmt{}
		cl := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDef = true
		} else {
			cv := r.id("rtc")
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}}
			idx++
			lhs = append(lhs, cv)
			switch cm := cc.Comm.(type) {
			case *ast.SendStmt:
				rhs = append(rhs, &ast.CallExpr{Fun: r.rt("SendCase", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}})
			case *ast.ExprStmt:
				rhs = append(rhs, r.rt("RecvCase", r.expr(arrow(cm.X).X)))
			case *ast.AssignStmt:
				rhs = append(rhs, r.rt("RecvCase", r.expr(arrow(cm.Rhs[0]).X)))
				m := "Val"
				if len(cm.Lhs) == 2 {
					m = "Val2"
				}
				if cm.Tok == token.ASSIGN {
					for i := range cm.Lhs {
						cm.Lhs[i] = r.lhs(cm.Lhs[i])
					}
				}
				body = append(body, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{call(cv, m)}})
			}
		}
		cl.Body = append(body, r.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, cl)
	}
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"),
			Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: "\"unreachable\""}}}}}})
	}
	args := []ast.Expr{ast.NewIdent(fmt.Sprint(hasDef))}
	if len(lhs) > 0 {
		sw.Init = define(lhs, rhs...)
		args = append(args, lhs...)
	}
	sw.Tag = r.rt("Select", args...)
	return sw
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var lhs, rhs []ast.Expr
	b := r.builtin(c.Fun)
	fun := unparen(c.Fun)
	bindArgs := func() {
		if len(c.Args) == 1 {
			if tup, ok := r.typeOf(c.Args[0]).(*types.Tuple); ok {
				var ids []ast.Expr
				for i := 0; i < tup.Len(); i++ {
					ids = append(ids, r.id("rta"))
				}
				lhs = nil
				call := r.expr(c.Args[0])
				rhs = append(rhs, call)
				lhs = append(lhs, ids...)
				c.Args = ids
				return
			}
		}
		for i, a := range c.Args {
			tv := r.info.Types[a]
			if tv.Value != nil || tv.IsNil() || tv.IsType() || (tv.Type != nil && untyped(tv.Type)) {
				c.Args[i] = r.expr(a)
				continue
			}
			id := r.id("rta")
			lhs = append(lhs, id)
			rhs = append(rhs, r.expr(a))
			c.Args[i] = id
		}
	}
	var pre []ast.Stmt
	if b == "" {
		inline := false
		switch f := fun.(type) {
		case *ast.FuncLit:
			inline = true
		case *ast.Ident:
			_, inline = r.info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			if id, ok := f.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.PkgName); ok {
					_, inline = r.info.Uses[f.Sel].(*types.Func)
				}
			}
		}
		c.Fun = r.expr(c.Fun)
		if !inline {
			id := r.id("rtf")
			pre = append(pre, define([]ast.Expr{id}, c.Fun))
			c.Fun = id
		}
		bindArgs()
	} else {
		bindArgs()
		call := r.expr(c)
		if cc, ok := call.(*ast.CallExpr); ok {
			c = cc
		}
	}
	if len(lhs) > 0 {
		pre = append(pre, define(lhs, rhs...))
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		body = fl.Body
	}
	g := &ast.ExprStmt{X: r.rt("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if r.shared(x.X) && r.pure(x.X) {
			rd := clone(x.X)
			if ix, ok := unparen(x.X).(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) {
				c := clone(ix).(*ast.IndexExpr)
				c.X = r.rt("MapR", c.X)
				rd = c
			}
			return &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(x.X)}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				&ast.BinaryExpr{X: r.between(rd), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
		}
		x.X = r.lhs(x.X)
	case *ast.SendStmt:
		ct, _ := under(r.typeOf(x.Chan)).(*types.Chan)
		tv := r.info.Types[x.Value]
		ch, v := r.expr(x.Chan), r.expr(x.Value)
		if ct != nil && tv.Type != nil && !tv.IsNil() && (types.Identical(ct.Elem(), tv.Type) || tv.Value != nil && !types.IsInterface(ct.Elem())) {
			return &ast.ExprStmt{X: r.rt("SendV", ch, v)}
		}
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.rt("Send", ch), Args: []ast.Expr{v}}}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if c, ok := r.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)
		}
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		r.loopBody(x.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.clause(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			a.Rhs[0] = r.expr(a.Rhs[0])
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.clause(cc.Body)
		}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u := arrow(vs.Values[0]); u != nil {
						vs.Values[0] = r.rt("Recv2", r.expr(u.X))
						continue
					}
				}
				r.exprs(vs.Values)
			}
		}
	}
	return s
}

// clause keeps a trailing fallthrough last.
func (r *rw) clause(l []ast.Stmt) []ast.Stmt { return r.list(l) }
