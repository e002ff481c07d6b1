package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// rw rewrites the declarations of one package.
type rw struct {
	g        *generator
	info     *types.Info
	pkg      *types.Package
	std      bool
	captured map[*types.Var]bool
	tmp      int
}

func (r *rw) name(p string) string {
	r.tmp++
	return fmt.Sprintf("zz%s%d", p, r.tmp)
}

// analyseCaptures finds local variables that are used inside a function
// literal nested in the function that declares them and assigned after their
// declaration.
func (r *rw) analyseCaptures(f *ast.File) {
	type use struct {
		v  *types.Var
		fn ast.Node
	}
	decl := map[*types.Var]ast.Node{}
	assigned := map[*types.Var]bool{}
	var uses []use
	var stack []ast.Node
	var visit func(n ast.Node) bool
	markLHS := func(e ast.Expr) {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		if id, ok := e.(*ast.Ident); ok {
			if v, ok := r.info.Uses[id].(*types.Var); ok {
				assigned[v] = true
			}
		}
	}
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			stack = append(stack, n)
			var body *ast.BlockStmt
			var ft *ast.FuncType
			if d, ok := x.(*ast.FuncDecl); ok {
				body, ft = d.Body, d.Type
				if d.Recv != nil {
					ast.Inspect(d.Recv, visit)
				}
			} else {
				l := x.(*ast.FuncLit)
				body, ft = l.Body, l.Type
			}
			ast.Inspect(ft, visit)
			if body != nil {
				ast.Inspect(body, visit)
			}
			stack = stack[:len(stack)-1]
			return false
		case *ast.Ident:
			if len(stack) == 0 {
				return true
			}
			if v, ok := r.info.Defs[x].(*types.Var); ok && !v.IsField() {
				decl[v] = stack[len(stack)-1]
			}
			if v, ok := r.info.Uses[x].(*types.Var); ok && !v.IsField() {
				uses = append(uses, use{v, stack[len(stack)-1]})
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				markLHS(l)
			}
		case *ast.IncDecStmt:
			markLHS(x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				markLHS(x.X)
			}
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				if x.Key != nil {
					markLHS(x.Key)
				}
				if x.Value != nil {
					markLHS(x.Value)
				}
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	for _, u := range uses {
		if d, ok := decl[u.v]; ok && d != u.fn && assigned[u.v] {
			r.captured[u.v] = true
		}
	}
}

// ---- types -----------------------------------------------------------

func (r *rw) typ(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: sel("zzmc", "Chan"), Index: r.typ(x.Value)}}
	case *ast.ArrayType:
		x.Elt = r.typ(x.Elt)
	case *ast.MapType:
		x.Key, x.Value = r.typ(x.Key), r.typ(x.Value)
	case *ast.StarExpr:
		x.X = r.typ(x.X)
	case *ast.ParenExpr:
		x.X = r.typ(x.X)
	case *ast.Ellipsis:
		x.Elt = r.typ(x.Elt)
	case *ast.FuncType:
		r.funcType(x)
	case *ast.StructType:
		r.fieldList(x.Fields)
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
	case *ast.IndexExpr:
		x.Index = r.typ(x.Index)
	}
	return e
}

func (r *rw) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.typ(f.Type)
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

// ---- classification --------------------------------------------------

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func under(t types.Type) types.Type { return t.Underlying() }

func isPtr(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }

func (r *rw) isChan(e ast.Expr) bool { _, ok := under(r.typeOf(e)).(*types.Chan); return ok }
func (r *rw) isMap(e ast.Expr) bool  { _, ok := under(r.typeOf(e)).(*types.Map); return ok }

func (r *rw) qualified(x *ast.SelectorExpr) (types.Object, bool) {
	if id, ok := x.X.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.PkgName); ok {
			return r.info.Uses[x.Sel], true
		}
	}
	return nil, false
}

func (r *rw) pkgVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil {
		return false
	}
	if v.Parent() != v.Pkg().Scope() {
		return false
	}
	return v.Pkg() == r.pkg || r.g.module[v.Pkg().Path()]
}

// addressable reports whether e denotes a variable.
func (r *rw) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.Ident:
		_, ok := r.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if o, ok := r.qualified(x); ok {
			_, v := o.(*types.Var)
			return v
		}
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		return isPtr(r.typeOf(x.X)) || s.Indirect() || r.addressable(x.X)
	case *ast.IndexExpr:
		switch t := under(r.typeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = t
			return r.addressable(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

// shared reports whether the variable e denotes may be reachable by another thread.
func (r *rw) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.shared(x.X)
	case *ast.Ident:
		o := r.info.ObjectOf(x)
		if r.pkgVar(o) {
			return true
		}
		v, ok := o.(*types.Var)
		return ok && r.captured[v]
	case *ast.SelectorExpr:
		if o, ok := r.qualified(x); ok {
			return r.pkgVar(o)
		}
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		return isPtr(r.typeOf(x.X)) || s.Indirect() || r.shared(x.X)
	case *ast.IndexExpr:
		switch under(r.typeOf(x.X)).(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.shared(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func syncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

func (r *rw) hookable(e ast.Expr) bool {
	return r.addressable(e) && r.shared(e) && !syncType(r.typeOf(e))
}

// pure: evaluating e twice has no effects.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// ---- expressions -----------------------------------------------------

func (r *rw) read(e ast.Expr) ast.Expr {
	site := r.g.site(e.Pos())
	a := r.addr(e)
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(sel("zzmc", "R"), &ast.UnaryExpr{Op: token.AND, X: a}, lit(site))}}
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// chanX renders a channel operand as a *mc.Chan[T] value.
func (r *rw) chanX(e ast.Expr) ast.Expr {
	t := r.typeOf(e)
	x := r.expr(e)
	if _, ok := t.(*types.Named); ok {
		if c, ok := under(t).(*types.Chan); ok {
			if te := r.typeExpr(c.Elem()); te != nil {
				return call(&ast.ParenExpr{X: &ast.StarExpr{X: &ast.IndexExpr{X: sel("zzmc", "Chan"), Index: te}}}, x)
			}
		}
	}
	if _, ok := x.(*ast.UnaryExpr); ok {
		return &ast.ParenExpr{X: x}
	}
	return x
}

// typeExpr spells simple types (only needed for named channel types).
func (r *rw) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		return p.Name()
	})
	if strings.Contains(s, "chan ") {
		return nil
	}
	return ast.NewIdent(s)
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok {
		if tv.IsType() {
			return r.typ(e)
		}
		if tv.Value != nil {
			return e
		}
	}
	switch x := e.(type) {
	case *ast.Ident:
		if x.Name != "_" && r.hookable(x) {
			if _, ok := r.info.Uses[x]; ok {
				return r.read(x)
			}
		}
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.BasicLit:
		return x
	case *ast.CompositeLit:
		isStruct := false
		t := under(r.typeOf(x))
		if p, ok := t.(*types.Pointer); ok {
			t = under(p.Elem())
		}
		if _, ok := t.(*types.Struct); ok {
			isStruct = true
		}
		_, isMap := t.(*types.Map)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if isMap {
					kv.Key = r.expr(kv.Key)
				}
				_ = isStruct
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
		return x
	case *ast.SelectorExpr:
		if o, ok := r.qualified(x); ok {
			if r.pkgVar(o) && !syncType(o.Type()) {
				return r.read(x)
			}
			return x
		}
		s := r.info.Selections[x]
		if s == nil {
			return x
		}
		switch s.Kind() {
		case types.FieldVal:
			if r.hookable(x) {
				return r.read(x)
			}
			x.X = r.expr(x.X)
		case types.MethodVal:
			x.X = r.recv(x, s)
		case types.MethodExpr:
			x.X = r.typ(x.X)
		}
		return x
	case *ast.IndexExpr:
		switch under(r.typeOf(x.X)).(type) {
		case *types.Map:
			site := r.g.site(x.Pos())
			x.X = call(sel("zzmc", "M"), r.expr(x.X), lit(site))
			x.Index = r.expr(x.Index)
			return x
		case *types.Slice, *types.Pointer, *types.Array:
			if r.hookable(x) {
				return r.read(x)
			}
			x.X = r.expr(x.X)
			x.Index = r.expr(x.Index)
			return x
		case *types.Basic:
			x.X = r.expr(x.X)
			x.Index = r.expr(x.Index)
			return x
		}
		return x // generic instantiation
	case *ast.SliceExpr:
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
		return x
	case *ast.CallExpr:
		return r.callExpr(x)
	case *ast.StarExpr:
		site := r.g.site(x.Pos())
		x.X = call(sel("zzmc", "R"), r.expr(x.X), lit(site))
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			in := x.X
			for {
				if p, ok := in.(*ast.ParenExpr); ok {
					in = p.X
					continue
				}
				break
			}
			if _, ok := in.(*ast.CompositeLit); ok {
				x.X = r.expr(x.X)
			} else {
				x.X = r.addr(x.X)
			}
			return x
		case token.ARROW:
			return call(&ast.SelectorExpr{X: r.chanX(x.X), Sel: ast.NewIdent("Recv")})
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	}
	return e
}

// mutable standard types whose methods are treated as accesses of the value
var mutable = map[string]bool{"bytes.Buffer": true, "strings.Builder": true, "container/list.List": true, "container/ring.Ring": true}
var pureMethods = map[string]bool{"Len": true, "Bytes": true, "String": true, "Cap": true, "Front": true, "Back": true}

// recv rewrites the receiver operand of a method selector.
func (r *rw) recv(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	f, _ := s.Obj().(*types.Func)
	ptrRecv := false
	var rt types.Type
	if f != nil {
		if rv := f.Type().(*types.Signature).Recv(); rv != nil {
			rt = rv.Type()
			if p, ok := rt.(*types.Pointer); ok {
				ptrRecv = true
				rt = p.Elem()
			}
		}
	}
	xIsPtr := isPtr(r.typeOf(x.X))
	isIface := types.IsInterface(r.typeOf(x.X))
	if n, ok := rt.(*types.Named); ok && ptrRecv && len(s.Index()) == 1 && n.Obj().Pkg() != nil && mutable[n.Obj().Pkg().Path()+"."+n.Obj().Name()] && !r.std {
		fn := "W"
		if pureMethods[f.Name()] {
			fn = "R"
		}
		site := r.g.site(x.Sel.Pos())
		if xIsPtr {
			return call(sel("zzmc", fn), r.expr(x.X), lit(site))
		}
		if r.addressable(x.X) && r.shared(x.X) {
			return call(sel("zzmc", fn), &ast.UnaryExpr{Op: token.AND, X: r.addr(x.X)}, lit(site))
		}
	}
	if xIsPtr || isIface {
		return r.expr(x.X)
	}
	if ptrRecv && r.addressable(x.X) {
		return r.addr(x.X)
	}
	if len(s.Index()) > 1 && r.addressable(x.X) {
		return r.addr(x.X) // promoted through embedded fields
	}
	return r.expr(x.X)
}

// addr rewrites e in a context where the variable itself is denoted.
func (r *rw) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if _, ok := r.qualified(x); ok {
			return x
		}
		s := r.info.Selections[x]
		if s == nil {
			return x
		}
		if s.Kind() != types.FieldVal {
			return r.expr(x)
		}
		if isPtr(r.typeOf(x.X)) || !r.addressable(x.X) {
			x.X = r.expr(x.X)
		} else {
			x.X = r.addr(x.X)
		}
		return x
	case *ast.IndexExpr:
		switch under(r.typeOf(x.X)).(type) {
		case *types.Map:
			site := r.g.site(x.Pos())
			x.X = call(sel("zzmc", "MW"), r.expr(x.X), lit(site))
			x.Index = r.expr(x.Index)
			return x
		case *types.Array:
			if r.addressable(x.X) {
				x.X = r.addr(x.X)
			} else {
				x.X = r.expr(x.X)
			}
			x.Index = r.expr(x.Index)
			return x
		}
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	}
	return r.expr(e)
}

// lv rewrites an assignment target that stays on the left of an assignment.
func (r *rw) lv(e ast.Expr) ast.Expr {
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return e
	}
	if r.hookable(e) {
		site := r.g.site(e.Pos())
		return &ast.StarExpr{X: call(sel("zzmc", "W"), &ast.UnaryExpr{Op: token.AND, X: r.addr(e)}, lit(site))}
	}
	return r.addr(e)
}

func (r *rw) callExpr(x *ast.CallExpr) ast.Expr {
	tv := r.info.Types[x.Fun]
	if tv.IsType() {
		x.Fun = r.typ(x.Fun)
		if _, ok := x.Fun.(*ast.StarExpr); ok {
			x.Fun = &ast.ParenExpr{X: x.Fun}
		}
		r.exprs(x.Args)
		return x
	}
	if tv.IsBuiltin() {
		name := ""
		switch f := ast.Unparen(x.Fun).(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			name = f.Sel.Name // unsafe.X
		}
		switch name {
		case "make":
			if c, ok := under(r.typeOf(x.Args[0])).(*types.Chan); ok {
				var te ast.Expr
				if ct, ok := x.Args[0].(*ast.ChanType); ok {
					te = r.typ(ct.Value)
				} else {
					te = r.typeExpr(c.Elem())
				}
				var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
				if len(x.Args) > 1 {
					n = call(ast.NewIdent("int"), r.expr(x.Args[1]))
				}
				return call(&ast.IndexExpr{X: sel("zzmc", "MakeChan"), Index: te}, n)
			}
			_, isMap := under(r.typeOf(x.Args[0])).(*types.Map)
			x.Args[0] = r.typ(x.Args[0])
			for i := 1; i < len(x.Args); i++ {
				x.Args[i] = r.expr(x.Args[i])
			}
			if isMap && len(x.Args) == 2 {
				// a map's size hint has no observable effect but costs time
				x.Args[1] = call(sel("zzmc", "Hint"), call(ast.NewIdent("int"), x.Args[1]))
			}
			return x
		case "new":
			x.Args[0] = r.typ(x.Args[0])
			return x
		case "close":
			return call(&ast.SelectorExpr{X: r.chanX(x.Args[0]), Sel: ast.NewIdent("Close")})
		case "len", "cap":
			if r.isChan(x.Args[0]) {
				m := "Len"
				if name == "cap" {
					m = "Cap"
				}
				return call(&ast.SelectorExpr{X: r.chanX(x.Args[0]), Sel: ast.NewIdent(m)})
			}
			if r.isMap(x.Args[0]) {
				site := r.g.site(x.Pos())
				x.Args[0] = call(sel("zzmc", "M"), r.expr(x.Args[0]), lit(site))
				return x
			}
		case "delete":
			site := r.g.site(x.Pos())
			x.Args[0] = call(sel("zzmc", "MW"), r.expr(x.Args[0]), lit(site))
			x.Args[1] = r.expr(x.Args[1])
			return x
		case "clear":
			if r.isMap(x.Args[0]) {
				site := r.g.site(x.Pos())
				x.Args[0] = call(sel("zzmc", "MW"), r.expr(x.Args[0]), lit(site))
				return x
			}
		}
		r.exprs(x.Args)
		return x
	}
	x.Fun = r.expr(x.Fun)
	r.exprs(x.Args)
	return x
}

// ---- statements ------------------------------------------------------

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		out = append(out, r.stmt(s))
	}
	return out
}

// stmt rewrites s; the result is a single statement.
func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	pre, m := r.stmt2(s)
	if len(pre) == 0 {
		return m
	}
	return &ast.BlockStmt{List: append(pre, m)}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func loopCall() ast.Stmt { return &ast.ExprStmt{X: call(sel("zzmc", "Loop"))} }

func (r *rw) stmt2(s ast.Stmt) ([]ast.Stmt, ast.Stmt) {
	switch x := s.(type) {
	case nil:
		return nil, nil
	case *ast.BlockStmt:
		r.block(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		if p, ok := x.X.(*ast.ParenExpr); ok {
			x.X = p.X
		}
	case *ast.SendStmt:
		c := r.chanX(x.Chan)
		return nil, &ast.ExprStmt{X: call(&ast.SelectorExpr{X: c, Sel: ast.NewIdent("Send")}, r.expr(x.Value))}
	case *ast.AssignStmt:
		return nil, r.assign(x)
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if r.hookable(x.X) {
			one := &ast.BasicLit{Kind: token.INT, Value: "1"}
			if pure(x.X) {
				return nil, r.rmw(x.X, op, one)
			}
			x.X = &ast.ParenExpr{X: r.lv(x.X)}
			return nil, x
		}
		x.X = r.addr(x.X)
	case *ast.GoStmt:
		return nil, r.goStmt(x)
	case *ast.DeferStmt:
		e := r.callExpr(x.Call)
		if c, ok := e.(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.elseStmt(x.Else)
		}
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		r.block(x.Body)
		x.Body.List = append([]ast.Stmt{loopCall()}, x.Body.List...)
	case *ast.RangeStmt:
		return nil, r.rangeStmt(x)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.typ(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.LabeledStmt:
		pre, m := r.stmt2(x.Stmt)
		x.Stmt = m
		return pre, x
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				switch sp := sp.(type) {
				case *ast.ValueSpec:
					if sp.Type != nil {
						sp.Type = r.typ(sp.Type)
					}
					if g.Tok == token.VAR {
						if len(sp.Names) == 2 && len(sp.Values) == 1 {
							if u, ok := isRecv(sp.Values[0]); ok {
								sp.Values[0] = call(&ast.SelectorExpr{X: r.chanX(u.X), Sel: ast.NewIdent("Recv2")})
								continue
							}
						}
						r.exprs(sp.Values)
					}
				case *ast.TypeSpec:
					sp.Type = r.typ(sp.Type)
				}
			}
		}
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
	}
	return nil, s
}

func (r *rw) elseStmt(s ast.Stmt) ast.Stmt {
	m := r.stmt(s)
	switch m.(type) {
	case *ast.IfStmt, *ast.BlockStmt:
		return m
	}
	return &ast.BlockStmt{List: []ast.Stmt{m}}
}

// simple rewrites a simple statement (init or post clause).
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	_, m := r.stmt2(s)
	return m
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

// rmw builds  L(&x).Set(*R(&x) op v)  for an effect-free x.
func (r *rw) rmw(x ast.Expr, op token.Token, v ast.Expr) ast.Stmt {
	site := r.g.site(x.Pos())
	a := r.addr(x) // shared by both uses: x has no effects
	rd := &ast.StarExpr{X: call(sel("zzmc", "R"), &ast.UnaryExpr{Op: token.AND, X: a}, lit(site))}
	val := &ast.BinaryExpr{X: &ast.ParenExpr{X: rd}, Op: op, Y: &ast.ParenExpr{X: v}}
	l := call(sel("zzmc", "L"), &ast.UnaryExpr{Op: token.AND, X: a}, lit(site))
	return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: l, Sel: ast.NewIdent("Set")}, val)}
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (r *rw) assign(x *ast.AssignStmt) ast.Stmt {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := isRecv(x.Rhs[0]); ok {
			x.Rhs[0] = call(&ast.SelectorExpr{X: r.chanX(u.X), Sel: ast.NewIdent("Recv2")})
			if x.Tok != token.DEFINE {
				for i := range x.Lhs {
					x.Lhs[i] = r.lv(x.Lhs[i])
				}
			}
			return x
		}
	}
	if x.Tok == token.DEFINE {
		r.exprs(x.Rhs)
		return x
	}
	if op, ok := opOf[x.Tok]; ok {
		if r.hookable(x.Lhs[0]) && pure(x.Lhs[0]) {
			return r.rmw(x.Lhs[0], op, r.expr(x.Rhs[0]))
		}
		x.Lhs[0] = r.lv(x.Lhs[0])
		x.Rhs[0] = r.expr(x.Rhs[0])
		return x
	}
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 && r.hookable(x.Lhs[0]) {
		site := r.g.site(x.Lhs[0].Pos())
		l := call(sel("zzmc", "L"), &ast.UnaryExpr{Op: token.AND, X: r.addr(x.Lhs[0])}, lit(site))
		return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: l, Sel: ast.NewIdent("Set")}, r.expr(x.Rhs[0]))}
	}
	for i := range x.Lhs {
		x.Lhs[i] = r.lv(x.Lhs[i])
	}
	r.exprs(x.Rhs)
	return x
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	site := r.g.site(x.Pos())
	c := x.Call
	tv := r.info.Types[c.Fun]
	spawn := func(body ast.Stmt) ast.Stmt {
		fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}}
		return &ast.ExprStmt{X: call(sel("zzmc", "Go"), lit(site), fl)}
	}
	if tv.IsBuiltin() || tv.IsType() {
		return spawn(&ast.ExprStmt{X: r.expr(c)})
	}
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(sel("zzmc", "Go"), lit(site), r.expr(fl))}
	}
	var pre []ast.Stmt
	def := func(e ast.Expr) ast.Expr {
		n := r.name("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(n)
	}
	// parameter types matter for untyped constants: those are passed as they are
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		at := r.info.Types[a]
		if at.Value != nil || at.IsNil() {
			args[i] = a
		} else {
			args[i] = nil
		}
	}
	fn := def(r.expr(c.Fun))
	for i, a := range c.Args {
		if args[i] == nil {
			args[i] = def(r.expr(a))
		}
	}
	nc := &ast.CallExpr{Fun: fn, Args: args}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	return &ast.BlockStmt{List: append(pre, spawn(&ast.ExprStmt{X: nc}))}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := under(r.typeOf(x.X))
	if _, ok := t.(*types.Chan); ok {
		c := r.chanX(x.X)
		r.block(x.Body)
		ok := r.name("ok")
		ch := r.name("ch")
		rcv := call(&ast.SelectorExpr{X: ast.NewIdent(ch), Sel: ast.NewIdent("Recv2")})
		var list []ast.Stmt
		list = append(list, loopCall())
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		if x.Key == nil || isBlank(x.Key) {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{rcv}}, brk)
		} else if x.Tok == token.DEFINE {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{x.Key, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{rcv}}, brk)
		} else {
			v := r.name("v")
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{rcv}}, brk,
				&ast.AssignStmt{Lhs: []ast.Expr{r.lv(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}})
		}
		list = append(list, &ast.BlockStmt{List: x.Body.List})
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{c}}, Body: &ast.BlockStmt{List: list}}
	}
	if _, ok := t.(*types.Map); ok {
		site := r.g.site(x.Pos())
		m := r.expr(x.X)
		r.block(x.Body)
		ok, en := r.name("ok"), r.name("e")
		get := call(&ast.SelectorExpr{X: ast.NewIdent(en), Sel: ast.NewIdent("Get")})
		cont := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
		var k, v ast.Expr = ast.NewIdent("_"), ast.NewIdent("_")
		list := []ast.Stmt{loopCall()}
		if x.Tok == token.DEFINE || (x.Key == nil && x.Value == nil) {
			if x.Key != nil {
				k = x.Key
			}
			if x.Value != nil {
				v = x.Value
			}
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{k, v, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{get}}, cont)
		} else {
			kn, vn := r.name("k"), r.name("v")
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(kn), ast.NewIdent(vn), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{get}}, cont)
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(kn), ast.NewIdent(vn)}})
			if x.Key != nil && !isBlank(x.Key) {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{r.lv(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(kn)}})
			}
			if x.Value != nil && !isBlank(x.Value) {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{r.lv(x.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vn)}})
			}
		}
		list = append(list, &ast.BlockStmt{List: x.Body.List})
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(en), Tok: token.DEFINE,
			X: call(sel("zzmc", "MapIter"), m, lit(site)), Body: &ast.BlockStmt{List: list}}
	}
	x.X = r.expr(x.X)
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			x.Key = r.lv(x.Key)
		}
		if x.Value != nil {
			x.Value = r.lv(x.Value)
		}
	}
	r.block(x.Body)
	x.Body.List = append([]ast.Stmt{loopCall()}, x.Body.List...)
	return x
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) selectStmt(x *ast.SelectStmt) ([]ast.Stmt, ast.Stmt) {
	site := r.g.site(x.Pos())
	var pre []ast.Stmt
	var cases []ast.Expr
	hasDefault := false
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	if len(x.Body.List) == 0 {
		pre = append(pre, &ast.ExprStmt{X: call(sel("zzmc", "BlockForever"))})
		return pre, &ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var body []ast.Stmt
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		n := r.name("c")
		def := func(e ast.Expr) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
			cases = append(cases, ast.NewIdent(n))
		}
		fld := func(f string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent(f)} }
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			def(call(&ast.SelectorExpr{X: r.chanX(s.Chan), Sel: ast.NewIdent("SendCase")}, r.expr(s.Value)))
		case *ast.ExprStmt:
			u, _ := isRecv(s.X)
			def(call(&ast.SelectorExpr{X: r.chanX(u.X), Sel: ast.NewIdent("RecvCase")}))
		case *ast.AssignStmt:
			u, _ := isRecv(s.Rhs[0])
			def(call(&ast.SelectorExpr{X: r.chanX(u.X), Sel: ast.NewIdent("RecvCase")}))
			rhs := []ast.Expr{fld("V")}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, fld("Ok"))
			}
			lhs := s.Lhs
			allBlank := true
			for i := range lhs {
				if s.Tok == token.ASSIGN {
					lhs[i] = r.lv(lhs[i])
				}
				if !isBlank(lhs[i]) {
					allBlank = false
				}
			}
			tok := s.Tok
			if allBlank {
				tok = token.ASSIGN
			}
			body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
		}
		body = append(body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lit(uint32(idx))}, Body: body})
		idx++
	}
	hd := "false"
	if hasDefault {
		hd = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	sw.Tag = call(sel("zzmc", "Select"), append([]ast.Expr{lit(site), ast.NewIdent(hd)}, cases...)...)
	return pre, sw
}
