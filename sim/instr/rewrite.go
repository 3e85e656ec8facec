package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/printer"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	modPath string
	yield   bool
	knob    bool
	usedRT  bool
	tmp     int
	shared  map[types.Object]bool // variables captured by function literals
}

func (r *rewriter) rt(name string) ast.Expr {
	r.usedRT = true
	return &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) rtCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) y() ast.Stmt { return &ast.ExprStmt{X: r.rtCall("Y")} }

func (r *rewriter) temp() *ast.Ident {
	r.tmp++
	return ast.NewIdent("verifT" + strconv.Itoa(r.tmp))
}

func (r *rewriter) file(f *ast.File) {
	r.shared = map[types.Object]bool{}
	// Captured variables: used inside a function literal, declared outside it.
	var lits []*ast.FuncLit
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			lits = append(lits, l)
		}
		return true
	})
	for _, l := range lits {
		ast.Inspect(l.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && (v.Pos() < l.Pos() || v.Pos() > l.End()) {
					r.shared[v] = true
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				r.genDecl(d)
			}
		}
	}
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	if d.Tok != token.VAR {
		return
	}
	for _, s := range d.Specs {
		if v, ok := s.(*ast.ValueSpec); ok {
			if len(v.Names) == 2 && len(v.Values) == 1 {
				if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					v.Values[0] = r.rtCall("Recv2", r.expr(u.X))
					continue
				}
			}
			r.exprs(v.Values)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		if _, empty := s.(*ast.EmptyStmt); r.yield && !empty {
			o = append(o, r.y())
		}
		o = append(o, r.stmt(s, true))
	}
	return o
}

// stmt rewrites one statement; list says that it may become a block.
func (r *rewriter) stmt(s ast.Stmt, list bool) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		if list && r.yield {
			if b := r.splitCall(s); b != nil {
				return b
			}
		}
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		ch, v := r.expr(s.Chan), r.expr(s.Value)
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.rtCall("Send", ch), Args: []ast.Expr{v}}}
	case *ast.IncDecStmt:
		if list && r.yield && r.splittable(s.X) {
			t := r.temp()
			x := s.X
			return &ast.BlockStmt{List: []ast.Stmt{
				define(t, x), r.y(),
				&ast.IncDecStmt{X: ast.NewIdent(t.Name), Tok: s.Tok},
				assign(x, ast.NewIdent(t.Name)),
			}}
		}
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		return r.assign(s, list)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		if c, ok := r.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init, false)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else, false)
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init, false)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for i := range s.Body.List {
			s.Body.List[i] = r.stmt(s.Body.List[i], false)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init, false)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		case *ast.AssignStmt:
			r.exprs(a.Rhs)
		}
		for i := range s.Body.List {
			cc := s.Body.List[i].(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init, false)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post, false)
		r.block(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, s.Label)
		}
		s.Stmt = r.stmt(s.Stmt, false)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
	}
	return s
}

func define(t *ast.Ident, x ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}
}

func assign(l, x ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{x}}
}

// pure: evaluating e twice is the same as once.
func (r *rewriter) pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return r.pure(e.X)
	case *ast.SelectorExpr:
		return r.pure(e.X)
	case *ast.StarExpr:
		return r.pure(e.X)
	case *ast.IndexExpr:
		if t := r.info.TypeOf(e.X); t == nil {
			return false
		}
		return r.pure(e.X) && r.pure(e.Index)
	case *ast.BinaryExpr:
		return e.Op != token.QUO && e.Op != token.REM && r.pure(e.X) && r.pure(e.Y)
	}
	return false
}

// splittable: e is a variable other tasks may share, and pure.
func (r *rewriter) splittable(e ast.Expr) bool {
	e = unparen(e)
	if id, ok := e.(*ast.Ident); ok {
		if id.Name == "_" {
			return false
		}
		v, ok := r.info.ObjectOf(id).(*types.Var)
		if !ok {
			return false
		}
		if r.pkg != nil && v.Parent() == r.pkg.Scope() {
			return true
		}
		return r.shared[v]
	}
	switch e.(type) {
	case *ast.IndexExpr, *ast.SelectorExpr, *ast.StarExpr:
		return r.pure(e)
	}
	return false
}

func (r *rewriter) typed(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil || tv.Value != nil || tv.IsNil() {
		return false
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	return true
}

func (r *rewriter) assign(s *ast.AssignStmt, list bool) ast.Stmt {
	// v, ok = <-ch
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			r.exprs(s.Lhs)
			s.Rhs[0] = r.rtCall("Recv2", r.expr(u.X))
			return s
		}
	}
	if list && r.yield && s.Tok != token.DEFINE {
		switch {
		case s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.splittable(s.Lhs[0]) && r.typed(s.Rhs[0]):
			t := r.temp()
			l := s.Lhs[0]
			return &ast.BlockStmt{List: []ast.Stmt{define(t, r.expr(s.Rhs[0])), r.y(), assign(l, ast.NewIdent(t.Name))}}
		case s.Tok == token.ASSIGN && len(s.Lhs) > 1 && len(s.Lhs) == len(s.Rhs):
			ok := true
			for i := range s.Lhs {
				_, ix := unparen(s.Lhs[i]).(*ast.IndexExpr)
				ok = ok && ix && r.splittable(s.Lhs[i]) && r.typed(s.Rhs[i])
			}
			if ok {
				var l []ast.Stmt
				var ts []string
				for i := range s.Rhs {
					t := r.temp()
					ts = append(ts, t.Name)
					l = append(l, define(t, r.expr(s.Rhs[i])), r.y())
				}
				for i := range s.Lhs {
					if i > 0 {
						l = append(l, r.y())
					}
					l = append(l, assign(s.Lhs[i], ast.NewIdent(ts[i])))
				}
				return &ast.BlockStmt{List: l}
			}
		case s.Tok != token.ASSIGN && len(s.Lhs) == 1 && r.splittable(s.Lhs[0]):
			if op, ok := opOf[s.Tok]; ok {
				t := r.temp()
				l := s.Lhs[0]
				return &ast.BlockStmt{List: []ast.Stmt{
					define(t, l), r.y(),
					assign(l, &ast.BinaryExpr{X: ast.NewIdent(t.Name), Op: op, Y: &ast.ParenExpr{X: r.expr(s.Rhs[0])}}),
				}}
			}
		}
	}
	r.exprs(s.Lhs)
	r.exprs(s.Rhs)
	return s
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (r *rewriter) text(e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, r.fset, e)
	return b.String()
}

// plainValue: a type from outside the module made of numbers only.
func (r *rewriter) plainValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() == r.modPath || strings.HasPrefix(n.Obj().Pkg().Path(), r.modPath+"/") {
		return false
	}
	if p := n.Obj().Pkg().Path(); !strings.Contains(p, ".") { // standard library
		return false
	}
	return numbers(t, 0)
}

func numbers(t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsNumeric != 0
	case *types.Array:
		return u.Len() <= 16 && numbers(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !numbers(u.Field(i).Type(), d+1) {
				return false
			}
		}
		return u.NumFields() > 0
	}
	return false
}

// splitCall turns x.M(...) on a shared curve or field value into load, compute, store.
func (r *rewriter) splitCall(s *ast.ExprStmt) ast.Stmt {
	c, ok := s.X.(*ast.CallExpr)
	if !ok || c.Ellipsis != token.NoPos {
		return nil
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	sn := r.info.Selections[sel]
	if sn == nil || sn.Kind() != types.MethodVal {
		return nil
	}
	sig, ok := sn.Obj().Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return nil
	}
	if _, ptr := sig.Recv().Type().(*types.Pointer); !ptr {
		return nil
	}
	x := sel.X
	if !r.pure(x) {
		return nil
	}
	xt := r.info.TypeOf(x)
	if xt == nil {
		return nil
	}
	deref := false
	vt := xt
	if p, ok := xt.(*types.Pointer); ok {
		deref = true
		vt = p.Elem()
	}
	if !r.plainValue(vt) {
		return nil
	}
	if !deref && !r.splittable(x) {
		return nil
	}
	if ix, ok := unparen(x).(*ast.IndexExpr); ok { // map elements are not addressable
		if _, m := r.info.TypeOf(ix.X).Underlying().(*types.Map); m {
			return nil
		}
	}
	t := r.temp()
	xs := r.text(x)
	var args []ast.Expr
	for _, a := range c.Args {
		as := r.text(a)
		switch {
		case !deref && as == "&"+xs, deref && as == xs:
			args = append(args, &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(t.Name)})
		case !deref && as == xs, deref && as == "*"+xs:
			args = append(args, ast.NewIdent(t.Name))
		default:
			args = append(args, r.expr(a))
		}
	}
	var src, dst ast.Expr = x, x
	if deref {
		src, dst = &ast.StarExpr{X: x}, &ast.StarExpr{X: x}
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		define(t, src), r.y(),
		&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: sel.Sel}, Args: args}},
		r.y(),
		assign(dst, ast.NewIdent(t.Name)),
	}}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	bind := func(e ast.Expr, orig ast.Expr) ast.Expr {
		if !r.typed(orig) {
			return e
		}
		t := r.temp()
		pre = append(pre, define(t, e))
		return ast.NewIdent(t.Name)
	}
	var fun ast.Expr
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit:
		r.block(f.Body)
		fun = f
		if len(c.Args) == 0 {
			return &ast.ExprStmt{X: r.rtCall("Go", f)}
		}
	default:
		fun = c.Fun
		isFuncName := false
		switch g := f.(type) {
		case *ast.Ident:
			switch r.info.ObjectOf(g).(type) {
			case *types.Func, *types.Builtin:
				isFuncName = true
			}
		case *ast.SelectorExpr:
			if _, ok := r.info.ObjectOf(g.Sel).(*types.Func); ok && r.info.Selections[g] == nil {
				isFuncName = true
			}
		}
		if tv := r.info.Types[c.Fun]; tv.IsBuiltin() {
			// go close(ch) and the like: evaluate through expr below.
			inner := r.expr(c)
			return &ast.ExprStmt{X: r.rtCall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})}
		}
		if !isFuncName {
			orig := c.Fun
			fun = bind(r.expr(c.Fun), orig)
		}
	}
	var args []ast.Expr
	for _, a := range c.Args {
		orig := a
		args = append(args, bind(r.expr(a), orig))
	}
	call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	pre = append(pre, &ast.ExprStmt{X: r.rtCall("Go", lit)})
	return &ast.BlockStmt{List: pre}
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	if !isChan(r.info.TypeOf(s.X)) {
		s.X = r.expr(s.X)
		r.block(s.Body)
		return s
	}
	ch := r.temp()
	ok := r.temp()
	x := r.expr(s.X)
	r.block(s.Body)
	var recv ast.Stmt
	call := r.rtCall("Recv2", ast.NewIdent(ch.Name))
	brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	var head []ast.Stmt
	switch {
	case s.Key == nil || isBlank(s.Key):
		recv = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call}}
		head = []ast.Stmt{recv, brk}
	case s.Tok == token.DEFINE:
		recv = &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call}}
		head = []ast.Stmt{recv, brk}
	default:
		v := r.temp()
		recv = &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call}}
		head = []ast.Stmt{recv, brk, assign(s.Key, ast.NewIdent(v.Name))}
	}
	return &ast.ForStmt{Init: define(ch, x), Body: &ast.BlockStmt{List: append(head, s.Body)}}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := "false"
	var cases []ast.Expr
	n := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		body := r.stmts(cc.Body)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: intLit(1)}}, Body: body})
			continue
		}
		c := r.temp()
		var head []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(c, &ast.CallExpr{Fun: r.rtCall("SSend", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}}))
		case *ast.ExprStmt:
			pre = append(pre, define(c, r.rtCall("SRecv", r.expr(unparen(cm.X).(*ast.UnaryExpr).X))))
		case *ast.AssignStmt:
			pre = append(pre, define(c, r.rtCall("SRecv", r.expr(unparen(cm.Rhs[0]).(*ast.UnaryExpr).X))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(c.Name), Sel: ast.NewIdent("Val")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(c.Name), Sel: ast.NewIdent("Ok")})
			}
			head = append(head, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		}
		cases = append(cases, ast.NewIdent(c.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: append(head, body...)})
		n++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"verif: select"`}}}}}})
	sw.Tag = r.rtCall("Select", append([]ast.Expr{ast.NewIdent(hasDef)}, cases...)...)
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, last)}
}

func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if k := r.knobExpr(e); k != nil {
		return k
	}
	switch e := e.(type) {
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		if tv, ok := r.info.Types[e.Index]; ok && !tv.IsType() {
			e.Index = r.expr(e.Index)
		}
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low, e.High, e.Max = r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		if tv := r.info.Types[e.Fun]; tv.IsBuiltin() && len(e.Args) == 1 && isChan(r.info.TypeOf(e.Args[0])) {
			if id, ok := unparen(e.Fun).(*ast.Ident); ok {
				switch id.Name {
				case "close":
					return r.rtCall("Close", r.expr(e.Args[0]))
				case "len":
					return r.rtCall("ChanLen", r.expr(e.Args[0]))
				}
			}
		}
		if tv := r.info.Types[e.Fun]; !tv.IsType() {
			e.Fun = r.expr(e.Fun)
		}
		sized := strings.Contains(r.text(e.Fun), "Size")
		for i, a := range e.Args {
			if tv := r.info.Types[a]; tv.IsType() || (sized && tv.Value != nil) {
				continue
			}
			e.Args[i] = r.expr(a)
		}
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.rtCall("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.KeyValueExpr:
		if tv, ok := r.info.Types[e.Key]; ok && tv.Value == nil && !tv.IsType() {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
	}
	return e
}

// knobExpr replaces a batch-size constant by a per-run knob.
func (r *rewriter) knobExpr(e ast.Expr) ast.Expr {
	if !r.knob {
		return nil
	}
	tv, ok := r.info.Types[e]
	if !ok || tv.Value == nil || tv.Type == nil || tv.IsType() {
		return nil
	}
	v := constant.ToInt(tv.Value)
	if v.Kind() != constant.Int {
		return nil
	}
	n, exact := constant.Int64Val(v)
	if !exact || n < 4096 || n > 1<<28 || n&(n-1) != 0 {
		return nil
	}
	named := false
	switch x := unparen(e).(type) {
	case *ast.Ident:
		named = true
		l := strings.ToLower(x.Name)
		if !strings.Contains(l, "batch") && !strings.Contains(l, "chunk") {
			return nil
		}
	case *ast.SelectorExpr:
		named = true
		l := strings.ToLower(x.Sel.Name)
		if !strings.Contains(l, "batch") && !strings.Contains(l, "chunk") {
			return nil
		}
	case *ast.BasicLit, *ast.BinaryExpr:
	default:
		return nil
	}
	if !named && n != 1<<20 {
		return nil
	}
	b, ok := tv.Type.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsNumeric == 0 {
		return nil
	}
	if _, nt := tv.Type.(*types.Named); nt {
		return nil
	}
	name := b.Name()
	switch b.Kind() {
	case types.UntypedInt, types.UntypedRune:
		name = "int"
	case types.UntypedFloat:
		name = "float64"
	}
	if strings.HasPrefix(name, "untyped") {
		return nil
	}
	return &ast.CallExpr{Fun: ast.NewIdent(name), Args: []ast.Expr{r.rtCall("K", &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)})}}
}
