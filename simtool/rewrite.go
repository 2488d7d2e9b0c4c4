package main

// rewrite.go: the source to source transformation of one file.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

const zs = "zsim__" // import name of the runtime in rewritten files

type rewriter struct {
	g      *gen
	info   *types.Info
	pkg    *types.Package
	yields bool
	used   bool
	n      int // fresh names
	funcs  []ast.Node
}

func (r *rewriter) fresh(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("z%s%d__", p, r.n))
}

func (r *rewriter) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(zs), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) file(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Body != nil {
				r.funcs = append(r.funcs, d)
				d.Body.List = r.block(d.Body.List)
				r.funcs = r.funcs[:len(r.funcs)-1]
			}
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				continue
			}
			r.genDecl(d)
		}
	}
	isShim := map[string]bool{}
	for _, p := range shimmed {
		isShim[p] = true
	}
	for _, imp := range f.Imports {
		imp.Doc, imp.Comment = nil, nil
		path, _ := strconv.Unquote(imp.Path.Value)
		if isShim[path] {
			if imp.Name == nil {
				imp.Name = ast.NewIdent(pkgBase(path))
			}
			imp.Path.Value = strconv.Quote(shimPath(path))
			r.g.stats["imports"]++
		}
		for m := range extraInstrument {
			if path == m || strings.HasPrefix(path, m+"/") {
				if imp.Name == nil {
					imp.Name = ast.NewIdent(r.pkgName(path))
				}
				imp.Path.Value = strconv.Quote(zsimPath + "/ext/" + path)
			}
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent(zs), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zsimPath)}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
}

func (r *rewriter) pkgName(path string) string {
	if p := r.g.pkgs[path]; p != nil {
		return p.Name
	}
	return pkgBase(path)
}

func pkgBase(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[i+1:]
	}
	return p
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u := r.asRecv(s.Values[0]); u != nil {
					s.Values[0] = r.call("Recv2", r.expr(u.X))
					continue
				}
			}
			for i := range s.Values {
				s.Values[i] = r.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			stripFieldDocs(s.Type)
		}
	}
}

func stripFieldDocs(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if f, ok := n.(*ast.Field); ok {
			f.Doc, f.Comment = nil, nil
		}
		return true
	})
}

func (r *rewriter) yield(name string) ast.Stmt {
	return &ast.ExprStmt{X: r.call(name)}
}

// block rewrites a statement list, putting an interleaving point before each.
func (r *rewriter) block(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		if _, empty := s.(*ast.EmptyStmt); empty {
			continue
		}
		if r.yields {
			r.g.stats["yields"]++
			if r.mentionsAtomic(s) {
				out = append(out, r.yield("YS"))
			} else {
				out = append(out, r.yield("Y"))
			}
		}
		out = append(out, r.stmt(s)...)
	}
	return out
}

// mentionsAtomic reports whether the statement itself (not nested function
// literals or blocks) calls into sync/atomic.
func (r *rewriter) mentionsAtomic(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			if o := r.info.Uses[n.Sel]; o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic" {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rewriter) body(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.block(b.List)
	}
}

func (r *rewriter) loopBody(b *ast.BlockStmt) {
	empty := len(b.List) == 0
	r.body(b)
	if empty && r.yields {
		b.List = append(b.List, r.yield("Y"))
	}
}

// simple rewrites a simple statement in an init/post position.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	switch s := s.(type) {
	case *ast.SendStmt:
		return r.send(s)
	case *ast.AssignStmt:
		r.assign(s)
		return s
	}
	r.exprsIn(s)
	return s
}

func (r *rewriter) send(s *ast.SendStmt) ast.Stmt {
	r.g.stats["chan_ops"]++
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: r.call("SendTo", r.expr(s.Chan)), Sel: ast.NewIdent("Do")},
		Args: []ast.Expr{r.expr(s.Value)},
	}}
}

func (r *rewriter) assign(s *ast.AssignStmt) {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u := r.asRecv(s.Rhs[0]); u != nil {
			for i := range s.Lhs {
				s.Lhs[i] = r.expr(s.Lhs[i])
			}
			s.Rhs[0] = r.call("Recv2", r.expr(u.X))
			r.g.stats["chan_ops"]++
			return
		}
	}
	r.exprsIn(s)
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.body(s)
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		r.body(s.Body)
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			r.body(e)
		case *ast.IfStmt:
			r.stmt(e)
		}
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.simple(s.Post)
		r.loopBody(s.Body)
	case *ast.RangeStmt:
		return one(r.rangeStmt(s))
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.block(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		r.exprsIn(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.block(cc.Body)
		}
	case *ast.SelectStmt:
		return one(r.selectStmt(s))
	case *ast.LabeledStmt:
		out := r.stmt(s.Stmt)
		if len(out) != 1 {
			s.Stmt = &ast.BlockStmt{List: out}
		} else {
			s.Stmt = out[0]
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.SendStmt:
		return one(r.send(s))
	case *ast.IncDecStmt:
		tok := token.ADD
		if s.Tok == token.DEC {
			tok = token.SUB
		}
		if out := r.splitRMW(s.X, tok, nil); out != nil {
			return one(out)
		}
		r.exprsIn(s)
	case *ast.AssignStmt:
		if op, ok := assignOps[s.Tok]; ok && len(s.Lhs) == 1 {
			if out := r.splitRMW(s.Lhs[0], op, s.Rhs[0]); out != nil {
				return one(out)
			}
		}
		if s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
			if out := r.splitStore(s); out != nil {
				return one(out)
			}
		}
		r.assign(s)
	case *ast.DeclStmt:
		if d, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(d)
		}
	default:
		r.exprsIn(s)
	}
	return one(s)
}

var assignOps = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND,
	token.XOR_ASSIGN: token.XOR,
}

// nonLocal reports whether the expression denotes memory other goroutines may
// also reach, and can safely be evaluated through its address.
func (r *rewriter) nonLocal(e ast.Expr) bool {
	pure := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			pure = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				pure = false
			}
		}
		return pure
	})
	if !pure {
		return false
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.nonLocal(e.X)
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := r.info.Types[e.X].Type
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Array, *types.Pointer:
			return true
		}
		return false
	case *ast.Ident:
		o, ok := r.info.Uses[e].(*types.Var)
		if !ok || len(r.funcs) == 0 {
			return false
		}
		in := r.funcs[len(r.funcs)-1]
		return o.Pos() < in.Pos() || o.Pos() > in.End()
	}
	return false
}

func (r *rewriter) isConst(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

// splitRMW turns "x.f op= v" into a load, an interleaving point and a store.
func (r *rewriter) splitRMW(l ast.Expr, op token.Token, v ast.Expr) ast.Stmt {
	if !r.yields || !r.nonLocal(l) {
		return nil
	}
	r.g.stats["rmw"]++
	p, t := r.fresh("p"), r.fresh("v")
	list := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: r.expr(l)}}},
	}
	var rhs ast.Expr
	switch {
	case v == nil:
		rhs = &ast.BasicLit{Kind: token.INT, Value: "1"}
	case r.isConst(v):
		rhs = &ast.ParenExpr{X: v}
	default:
		hasShift := false
		ast.Inspect(v, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.SHL || b.Op == token.SHR) {
				hasShift = true
			}
			return true
		})
		if hasShift {
			rhs = &ast.ParenExpr{X: r.expr(v)}
		} else {
			rv := r.fresh("r")
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{rv}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(v)}})
			rhs = rv
		}
	}
	list = append(list,
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.StarExpr{X: p}}},
		r.yield("YV"),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: p}}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: rhs}}},
	)
	return &ast.BlockStmt{List: list}
}

// splitStore turns "x.f = expr" into evaluation, an interleaving point and
// the store, when that cannot change the types involved.
func (r *rewriter) splitStore(s *ast.AssignStmt) ast.Stmt {
	l, v := s.Lhs[0], s.Rhs[0]
	if !r.yields || !r.nonLocal(l) || r.isConst(v) {
		return nil
	}
	if _, ok := l.(*ast.Ident); ok {
		// captured plain variables: keep simple
	}
	ok := false
	switch v := v.(type) {
	case *ast.CallExpr:
		if tv, has := r.info.Types[v.Fun]; has && !tv.IsType() {
			ok = true
		}
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		ok = true
	case *ast.BinaryExpr:
		switch v.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			ok = true
		}
		ast.Inspect(v, func(n ast.Node) bool {
			if b, is := n.(*ast.BinaryExpr); is && (b.Op == token.SHL || b.Op == token.SHR) {
				ok = false
			}
			return true
		})
	}
	if !ok {
		return nil
	}
	if t := r.info.Types[v].Type; t == nil {
		return nil
	} else if _, tuple := t.(*types.Tuple); tuple {
		return nil
	}
	r.g.stats["stores"]++
	t := r.fresh("v")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(v)}},
		r.yield("YV"),
		&ast.AssignStmt{Lhs: []ast.Expr{r.expr(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
	}}
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, is := tv.Type.Underlying().(*types.Chan)
	return is
}

func (r *rewriter) asRecv(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	tv := r.info.Types[s.X]
	if tv.Type == nil {
		r.exprsIn(s)
		r.loopBody(s.Body)
		return s
	}
	switch tv.Type.Underlying().(type) {
	case *types.Chan:
		r.g.stats["chan_ops"]++
		c, ok := r.fresh("c"), r.fresh("ok")
		x := r.expr(s.X)
		var get []ast.Stmt
		switch {
		case isBlank(s.Key):
			get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", c)}})
		case s.Tok == token.DEFINE:
			get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", c)}})
		default:
			v := r.fresh("v")
			get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", c)}})
			defer func() {}()
			key := r.expr(s.Key)
			r.loopBody(s.Body)
			get = append(get, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			return &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
				Body: &ast.BlockStmt{List: append(get, s.Body.List...)},
			}
		}
		get = append(get, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		r.loopBody(s.Body)
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
			Body: &ast.BlockStmt{List: append(get, &ast.BlockStmt{List: s.Body.List})},
		}
	case *types.Map:
		if isBlank(s.Key) && isBlank(s.Value) {
			s.X = r.expr(s.X)
			r.loopBody(s.Body)
			return s
		}
		r.g.stats["map_ranges"]++
		e, ok, v := r.fresh("e"), r.fresh("ok"), r.fresh("v")
		x := r.expr(s.X)
		r.loopBody(s.Body)
		var get []ast.Stmt
		get = append(get,
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("Get")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		)
		tok := s.Tok
		if !isBlank(s.Key) {
			get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: e, Sel: ast.NewIdent("K")}}})
		}
		if !isBlank(s.Value) {
			get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: tok, Rhs: []ast.Expr{v}})
		}
		body := &ast.BlockStmt{List: append(get, &ast.BlockStmt{List: s.Body.List})}
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE, X: r.call("MapEnts", x), Body: body}
	}
	if s.Key != nil {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = r.expr(s.Value)
	}
	s.X = r.expr(s.X)
	r.loopBody(s.Body)
	return s
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	r.g.stats["selects"]++
	if len(s.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("Block")}}}}
	}
	var names, vals []ast.Expr
	hasDefault := "false"
	body := &ast.BlockStmt{}
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			body.List = append(body.List, &ast.CaseClause{
				List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}},
				Body: r.block(cc.Body),
			})
			continue
		}
		name := r.fresh("c")
		var pre []ast.Stmt
		val := func() ast.Expr { return &ast.SelectorExpr{X: name, Sel: ast.NewIdent("Val")} }
		okv := func() ast.Expr { return &ast.SelectorExpr{X: name, Sel: ast.NewIdent("Ok")} }
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, &ast.CallExpr{
				Fun:  &ast.SelectorExpr{X: r.call("SendTo", r.expr(comm.Chan)), Sel: ast.NewIdent("Case")},
				Args: []ast.Expr{r.expr(comm.Value)},
			})
		case *ast.ExprStmt:
			u := r.asRecv(comm.X)
			vals = append(vals, r.call("RecvCase", r.expr(u.X)))
		case *ast.AssignStmt:
			u := r.asRecv(comm.Rhs[0])
			vals = append(vals, r.call("RecvCase", r.expr(u.X)))
			a := &ast.AssignStmt{Tok: comm.Tok, Lhs: comm.Lhs}
			for i := range a.Lhs {
				a.Lhs[i] = r.expr(a.Lhs[i])
			}
			a.Rhs = append(a.Rhs, val())
			if len(comm.Lhs) == 2 {
				a.Rhs = append(a.Rhs, okv())
			}
			pre = append(pre, a)
		}
		names = append(names, name)
		body.List = append(body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(pre, r.block(cc.Body)...),
		})
		idx++
	}
	body.List = append(body.List, &ast.CaseClause{
		Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}},
	})
	args := append([]ast.Expr{ast.NewIdent(hasDefault)}, names...)
	sw := &ast.SwitchStmt{Tag: r.call("Select", args...), Body: body}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	return sw
}

func (r *rewriter) goStmt(s *ast.GoStmt) []ast.Stmt {
	r.g.stats["go_stmts"]++
	call := s.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return []ast.Stmt{&ast.ExprStmt{X: r.call("Go", r.expr(lit))}}
	}
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		if r.isConst(e) {
			return e
		}
		if tv, ok := r.info.Types[e]; ok && tv.IsType() {
			return e
		}
		v := r.fresh("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return v
	}
	builtin := false
	if tv, ok := r.info.Types[call.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		builtin = true
	}
	nc := &ast.CallExpr{Ellipsis: call.Ellipsis}
	if builtin {
		nc.Fun = call.Fun
	} else {
		nc.Fun = hoist(call.Fun)
	}
	isCloseCall := builtin && isIdent(call.Fun, "close")
	for _, a := range call.Args {
		nc.Args = append(nc.Args, hoist(a))
	}
	if isCloseCall {
		nc.Fun = r.rt("Close")
	}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}},
	})})
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func isIdent(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == name
}

// expr rewrites an expression and returns its replacement.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.funcs = append(r.funcs, e)
		e.Body.List = r.block(e.Body.List)
		r.funcs = r.funcs[:len(r.funcs)-1]
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.g.stats["chan_ops"]++
			return r.call("Recv", r.expr(e.X))
		}
	case *ast.CallExpr:
		if tv, ok := r.info.Types[e.Fun]; ok && tv.IsBuiltin() && len(e.Args) == 1 && r.isChan(e.Args[0]) {
			switch {
			case isIdent(e.Fun, "close"):
				return r.call("Close", r.expr(e.Args[0]))
			case isIdent(e.Fun, "len"):
				return r.call("Len", r.expr(e.Args[0]))
			}
		}
	}
	r.exprsIn(e)
	return e
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

// exprsIn rewrites the direct sub-expressions of a node.
func (r *rewriter) exprsIn(n ast.Node) {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return
	}
	switch x := n.(type) {
	case *ast.Ident, *ast.BasicLit, *ast.FuncType, *ast.StructType, *ast.InterfaceType, *ast.ChanType, *ast.MapType, *ast.ArrayType:
		stripFieldDocs(x)
		return
	}
	v := reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == exprType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprType:
			for j := 0; j < f.Len(); j++ {
				f.Index(j).Set(reflect.ValueOf(r.expr(f.Index(j).Interface().(ast.Expr))))
			}
		case f.Kind() == reflect.Ptr && !f.IsNil():
			if c, ok := f.Interface().(*ast.CallExpr); ok {
				f.Set(reflect.ValueOf(r.expr(c)))
			}
		}
	}
}
