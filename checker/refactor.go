package main

// Development aid: rewrites every function of a copy of the repository in a way that
// keeps its behaviour, used to find alarms on code that is only written differently.
// No check uses it.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type rewriter struct {
	pk   *packages.Package
	kind string
	n    int
	done int
}

func (p *Program) refactor(kind string) {
	total := 0
	for _, pk := range p.pkgs {
		if !isRepoPath(pk.PkgPath) || strings.Contains(pk.PkgPath, "/examples") || strings.HasSuffix(pk.PkgPath, "reqtest") || strings.HasSuffix(pk.PkgPath, "/docs") {
			continue
		}
		for _, f := range pk.Syntax {
			name := p.fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, "testsuite.go") {
				continue
			}
			r := &rewriter{pk: pk, kind: kind}
			r.file(f)
			total += r.done
			if r.done == 0 {
				continue
			}
			// Comments within functions would be misplaced.
			var keep []*ast.CommentGroup
			for _, g := range f.Comments {
				in := false
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && g.Pos() > fd.Body.Pos() && g.End() < fd.Body.End() {
						in = true
					}
				}
				if !in {
					keep = append(keep, g)
				}
			}
			f.Comments = keep
			var b bytes.Buffer
			if err := format.Node(&b, p.fset, f); err != nil {
				fmt.Fprintln(os.Stderr, name, err)
				os.Exit(1)
			}
			if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
		}
	}
	fmt.Println(total)
}

func (r *rewriter) id(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s%dx", p, r.n))
}

func define(l []ast.Expr, e ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: e}
}

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.IfStmt:
		if s.Else == nil || !terminates(s.Body.List) {
			return false
		}
		if b, ok := s.Else.(*ast.BlockStmt); ok {
			return terminates(b.List)
		}
		return terminates([]ast.Stmt{s.Else})
	}
	return false
}

// pure expressions need not be evaluated in order.
func (r *rewriter) simple(e ast.Expr) bool {
	if tv, ok := r.pk.TypesInfo.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
		return true
	}
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.FuncLit:
		return true
	case *ast.SelectorExpr:
		return r.simple(e.X)
	}
	return false
}

func (r *rewriter) isConv(c *ast.CallExpr) bool {
	tv := r.pk.TypesInfo.Types[c.Fun]
	return tv.IsType() || tv.IsBuiltin()
}

func (r *rewriter) file(f *ast.File) {
	var extra []ast.Decl
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		switch r.kind {
		case "helper", "closure", "params", "named":
			if fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil {
				continue
			}
			if e := r.whole(fd); e != nil {
				extra = append(extra, e)
			}
			continue
		}
		r.body(fd)
	}
	f.Decls = append(f.Decls, extra...)
}

// whole rewrites a function as a whole.
func (r *rewriter) whole(fd *ast.FuncDecl) ast.Decl {
	var names []ast.Expr
	variadic := false
	named := true
	fix := func(l *ast.FieldList) {
		if l == nil {
			return
		}
		for _, p := range l.List {
			if len(p.Names) == 0 {
				named = false
			}
			for _, n := range p.Names {
				if n.Name == "_" {
					named = false
				}
			}
		}
	}
	fix(fd.Type.Params)
	fix(fd.Recv)
	if !named {
		return nil
	}
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			names = append(names, ast.NewIdent(n.Name))
		}
		_, v := p.Type.(*ast.Ellipsis)
		variadic = variadic || v
	}
	res := fd.Type.Results != nil && len(fd.Type.Results.List) > 0
	r.done++
	switch r.kind {
	case "helper":
		impl := &ast.FuncDecl{Recv: fd.Recv, Name: ast.NewIdent(strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Impl"), Type: fd.Type, Body: fd.Body}
		var fun ast.Expr = ast.NewIdent(impl.Name.Name)
		if fd.Recv != nil {
			fun = &ast.SelectorExpr{X: ast.NewIdent(fd.Recv.List[0].Names[0].Name), Sel: ast.NewIdent(impl.Name.Name)}
		}
		call := &ast.CallExpr{Fun: fun, Args: names}
		if variadic {
			call.Ellipsis = fd.Body.Pos()
		}
		var s ast.Stmt = &ast.ExprStmt{X: call}
		if res {
			s = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
		return impl
	case "closure":
		t := &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}
		call := &ast.CallExpr{Fun: &ast.FuncLit{Type: t, Body: fd.Body}}
		var s ast.Stmt = &ast.ExprStmt{X: call}
		if res {
			s = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
	case "named":
		if !res || len(fd.Type.Results.List[0].Names) > 0 {
			r.done--
			break
		}
		var rs []ast.Expr
		for _, p := range fd.Type.Results.List {
			id := r.id("res")
			p.Names = []*ast.Ident{id}
			rs = append(rs, id)
		}
		astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
			switch n := c.Node().(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				c.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: rs, Tok: token.ASSIGN, Rhs: n.Results}, &ast.ReturnStmt{}}})
				return false
			}
			return true
		}, nil)
		if l := fd.Body.List; len(l) > 0 {
			if b, ok := l[len(l)-1].(*ast.BlockStmt); ok {
				fd.Body.List = append(l[:len(l)-1:len(l)-1], b.List...)
			}
		}
	case "params":
		if fd.Recv != nil {
			names = append(names, ast.NewIdent(fd.Recv.List[0].Names[0].Name))
		}
		var l []ast.Stmt
		for _, n := range names {
			l = append(l, define([]ast.Expr{n}, n), &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{n}})
		}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.BlockStmt{List: append(l, fd.Body.List...)}}}
		if res && !terminates(fd.Body.List[0].(*ast.BlockStmt).List) {
			fd.Body.List = fd.Body.List[0].(*ast.BlockStmt).List[len(l):]
			r.done--
		}
	}
	return nil
}

// body rewrites the statements and expressions of a function.
func (r *rewriter) body(fd *ast.FuncDecl) {
	// Expressions.
	switch r.kind {
	case "swap", "demorgan", "literal", "defer", "negcmp", "strlen", "append", "guardfn", "consts":
		astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
			switch n := c.Node().(type) {
			case *ast.BinaryExpr:
				if r.kind == "swap" {
					m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
					if t, ok := m[n.Op]; ok {
						c.Replace(&ast.BinaryExpr{X: &ast.ParenExpr{X: n.Y}, Op: t, Y: &ast.ParenExpr{X: n.X}})
						r.done++
					}
				}
				if m := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}; r.kind == "negcmp" && m[n.Op] != 0 {
					if b, ok := r.pk.TypesInfo.TypeOf(n.X).Underlying().(*types.Basic); !ok || b.Info()&types.IsFloat == 0 {
						c.Replace(not(&ast.BinaryExpr{X: n.X, Op: m[n.Op], Y: n.Y}))
						r.done++
					}
				}
				if l, ok := n.Y.(*ast.BasicLit); ok && l.Value == `""` && r.kind == "strlen" && (n.Op == token.EQL || n.Op == token.NEQ) {
					op := token.GTR
					v := "0"
					if n.Op == token.EQL {
						op, v = token.LSS, "1"
					}
					c.Replace(&ast.BinaryExpr{X: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{n.X}}, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: v}})
					r.done++
				}
				if r.kind == "demorgan" && (n.Op == token.LAND || n.Op == token.LOR) {
					op := token.LOR
					if n.Op == token.LOR {
						op = token.LAND
					}
					c.Replace(not(&ast.BinaryExpr{X: not(n.X), Op: op, Y: not(n.Y)}))
					r.done++
				}
			case *ast.UnaryExpr:
				cl, ok := n.X.(*ast.CompositeLit)
				if r.kind != "literal" || n.Op != token.AND || !ok || cl.Type == nil || len(cl.Elts) == 0 {
					break
				}
				if _, ok := r.pk.TypesInfo.TypeOf(cl).Underlying().(*types.Struct); !ok {
					break
				}
				v := r.id("v")
				l := []ast.Stmt{define([]ast.Expr{v}, &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{cl.Type}})}
				for _, e := range cl.Elts {
					kv, ok := e.(*ast.KeyValueExpr)
					if !ok {
						return true
					}
					if k, ok := kv.Value.(*ast.CompositeLit); ok && k.Type == nil {
						return true
					}
					l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: v, Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
				}
				l = append(l, &ast.ReturnStmt{Results: []ast.Expr{v}})
				t := &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.StarExpr{X: cl.Type}}}}}
				c.Replace(&ast.CallExpr{Fun: &ast.FuncLit{Type: t, Body: &ast.BlockStmt{List: l}}})
				r.done++
			case *ast.IfStmt:
				if r.kind == "guardfn" {
					n.Cond = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{n.Cond}}}}}}
					r.done++
				}
			case *ast.CompositeLit:
				if r.kind != "append" || n.Type == nil || len(n.Elts) == 0 {
					break
				}
				if _, ok := r.pk.TypesInfo.TypeOf(n).Underlying().(*types.Slice); !ok {
					break
				}
				for i, e := range n.Elts {
					switch e := e.(type) {
					case *ast.KeyValueExpr:
						return true
					case *ast.CompositeLit:
						if e.Type == nil {
							d, ok := n.Type.(*ast.SelectorExpr)
							if !ok || d.Sel.Name != "D" {
								return true
							}
							n.Elts[i] = &ast.CompositeLit{Type: &ast.SelectorExpr{X: d.X, Sel: ast.NewIdent("E")}, Elts: e.Elts}
						}
					}
				}
				var a ast.Expr = &ast.CallExpr{Fun: ast.NewIdent("make"), Args: []ast.Expr{n.Type, &ast.BasicLit{Kind: token.INT, Value: "0"}, &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(len(n.Elts))}}}
				for _, e := range n.Elts {
					a = &ast.CallExpr{Fun: ast.NewIdent("append"), Args: []ast.Expr{a, e}}
				}
				if _, ok := c.Parent().(*ast.UnaryExpr); ok {
					break
				}
				c.Replace(a)
				r.done++
			case *ast.Ident:
				k, ok := r.pk.TypesInfo.Uses[n].(*types.Const)
				if _, sel := c.Parent().(*ast.SelectorExpr); !ok || sel || r.kind != "consts" || k.Pkg() == nil || k.Parent() != k.Pkg().Scope() {
					break
				}
				if b, ok := k.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Info()&(types.IsString|types.IsInteger) != 0 {
					c.Replace(&ast.BasicLit{Kind: token.STRING, Value: k.Val().ExactString()})
					r.done++
				}
			case *ast.DeferStmt:
				if _, lit := n.Call.Fun.(*ast.FuncLit); r.kind == "defer" && !lit && len(n.Call.Args) == 0 && !strings.Contains(fmt.Sprint(n.Call.Fun), "recover") {
					c.Replace(&ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: n.Call}}}}}})
					r.done++
				}
			}
			return true
		})
		return
	}
	// Statements.
	labels := map[ast.Stmt]bool{}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if l, ok := n.(*ast.LabeledStmt); ok {
			labels[l.Stmt] = true
		}
		return true
	})
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.BlockStmt:
			n.List = r.list(n.List, labels)
		case *ast.CaseClause:
			n.Body = r.list(n.Body, labels)
		case *ast.CommClause:
			n.Body = r.list(n.Body, labels)
		}
		return true
	})
}

func (r *rewriter) list(l []ast.Stmt, labels map[ast.Stmt]bool) (out []ast.Stmt) {
	for i, s := range l {
		if labels[s] {
			out = append(out, s)
			continue
		}
		// The rest of the list after a conditional return.
		if is, ok := s.(*ast.IfStmt); ok && r.kind == "elsereturn" && is.Else == nil && terminates(is.Body.List) && i+1 < len(l) && terminates(l[len(l)-1:]) {
			is.Else = &ast.BlockStmt{List: r.list(l[i+1:], labels)}
			r.done++
			return append(out, is)
		}
		out = append(out, r.stmt(s)...)
	}
	return
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	same := []ast.Stmt{s}
	switch s := s.(type) {
	case *ast.IfStmt:
		switch r.kind {
		case "invert":
			if b, ok := s.Else.(*ast.BlockStmt); ok {
				r.done++
				return []ast.Stmt{&ast.IfStmt{Init: s.Init, Cond: not(s.Cond), Body: b, Else: s.Body}}
			} else if s.Else == nil {
				r.done++
				return []ast.Stmt{&ast.IfStmt{Init: s.Init, Cond: not(s.Cond), Body: &ast.BlockStmt{}, Else: s.Body}}
			}
		case "condvar":
			if s.Init == nil {
				v := r.id("c")
				r.done++
				return []ast.Stmt{define([]ast.Expr{v}, s.Cond), &ast.IfStmt{Cond: v, Body: s.Body, Else: s.Else}}
			}
		case "nestif":
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && s.Else == nil {
				r.done++
				return []ast.Stmt{&ast.IfStmt{Init: s.Init, Cond: b.X, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}}}
			}
		case "ifclosure":
			if s.Else == nil && plain(s.Body) {
				r.done++
				return []ast.Stmt{&ast.IfStmt{Init: s.Init, Cond: s.Cond, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: s.Body}}}}}}}
			}
		case "ifswitch":
			el, ok := s.Else.(*ast.BlockStmt)
			if s.Else != nil && !ok || breaks(s) {
				break
			}
			l := []ast.Stmt{&ast.CaseClause{List: []ast.Expr{s.Cond}, Body: s.Body.List}}
			if el != nil {
				l = append(l, &ast.CaseClause{Body: el.List})
			}
			r.done++
			return []ast.Stmt{&ast.SwitchStmt{Init: s.Init, Body: &ast.BlockStmt{List: l}}}
		case "initout":
			if s.Init != nil && !terminates([]ast.Stmt{s}) {
				r.done++
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{s.Init, &ast.IfStmt{Cond: s.Cond, Body: s.Body, Else: s.Else}}}}
			}
		case "noelse":
			if b, ok := s.Else.(*ast.BlockStmt); ok && s.Init == nil && terminates(s.Body.List) {
				r.done++
				if terminates(b.List) {
					return append([]ast.Stmt{&ast.IfStmt{Cond: s.Cond, Body: s.Body}}, b.List...)
				}
				return []ast.Stmt{&ast.IfStmt{Cond: s.Cond, Body: s.Body}, b}
			}
		}
	case *ast.RangeStmt:
		if r.kind == "rangeidx" && s.Tok == token.DEFINE {
			if _, ok := r.pk.TypesInfo.TypeOf(s.X).Underlying().(*types.Slice); !ok {
				break
			}
			xs := r.id("xs")
			var i *ast.Ident
			if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
				i = ast.NewIdent(k.Name)
			} else {
				i = r.id("i")
			}
			body := s.Body.List
			if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
				body = append([]ast.Stmt{define([]ast.Expr{ast.NewIdent(v.Name)}, &ast.IndexExpr{X: xs, Index: i})}, body...)
			}
			r.done++
			return []ast.Stmt{define([]ast.Expr{xs}, s.X), &ast.ForStmt{
				Init: define([]ast.Expr{i}, &ast.BasicLit{Kind: token.INT, Value: "0"}),
				Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{xs}}},
				Post: &ast.IncDecStmt{X: i, Tok: token.INC}, Body: &ast.BlockStmt{List: body}}}
		}
	case *ast.ForStmt:
		if r.kind == "forbreak" && s.Cond != nil {
			brk := &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
			r.done++
			return []ast.Stmt{&ast.ForStmt{Init: s.Init, Post: s.Post, Body: &ast.BlockStmt{List: append([]ast.Stmt{brk}, s.Body.List...)}}}
		}
		if r.kind == "while" && s.Init != nil && s.Post != nil && s.Cond != nil && !continues(s.Body) {
			r.done++
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{s.Init, &ast.ForStmt{Cond: s.Cond, Body: &ast.BlockStmt{List: append(append([]ast.Stmt{}, s.Body.List...), s.Post)}}}}}
		}
	case *ast.SwitchStmt:
		if r.kind != "switchif" {
			break
		}
		bad := false
		var def *ast.CaseClause
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = cc
			}
			ast.Inspect(cc, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.FuncLit:
					return false
				case *ast.BranchStmt:
					bad = bad || b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH
				}
				return true
			})
		}
		if bad {
			break
		}
		var pre []ast.Stmt
		if s.Init != nil {
			pre = append(pre, s.Init)
		}
		tag := s.Tag
		if tag != nil {
			v := r.id("t")
			pre = append(pre, define([]ast.Expr{v}, tag))
			tag = v
		}
		var el ast.Stmt
		if def != nil {
			el = &ast.BlockStmt{List: def.Body}
		}
		for i := len(s.Body.List) - 1; i >= 0; i-- {
			cc := s.Body.List[i].(*ast.CaseClause)
			if cc.List == nil {
				continue
			}
			var cond ast.Expr
			for _, e := range cc.List {
				if tag != nil {
					e = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: &ast.ParenExpr{X: e}}
				}
				if cond == nil {
					cond = e
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: e}
				}
			}
			f := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
			f.Else = el
			el = f
		}
		if el == nil {
			break
		}
		r.done++
		if s.Init == nil {
			return append(pre, el)
		}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, el)}}
	case *ast.ReturnStmt:
		if len(s.Results) == 1 {
			if c, ok := s.Results[0].(*ast.CallExpr); ok && !r.isConv(c) {
				if r.kind == "retvar" {
					n := 1
					if t, ok := r.pk.TypesInfo.TypeOf(c).(*types.Tuple); ok {
						n = t.Len()
					}
					var vs []ast.Expr
					for i := 0; i < n; i++ {
						vs = append(vs, r.id("r"))
					}
					r.done++
					return []ast.Stmt{define(vs, c), &ast.ReturnStmt{Results: vs}}
				}
				return append(r.call(c), s)
			}
		}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			return append(r.call(c), s)
		}
	case *ast.AssignStmt:
		if r.kind == "vardecl" && s.Tok == token.DEFINE && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
			r.done++
			return []ast.Stmt{&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{s.Lhs[0].(*ast.Ident)}, Values: s.Rhs}}}}}
		}
		if r.kind == "retmp" && len(s.Rhs) == 1 && len(s.Lhs) == 1 {
			if tv := r.pk.TypesInfo.Types[s.Rhs[0]]; tv.Value == nil && !tv.IsNil() && (s.Tok == token.ASSIGN || s.Tok == token.DEFINE) {
				v := r.id("a")
				r.done++
				return []ast.Stmt{define([]ast.Expr{v}, s.Rhs[0]), &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: []ast.Expr{v}}}
			}
		}
		if len(s.Rhs) == 1 {
			if c, ok := s.Rhs[0].(*ast.CallExpr); ok {
				return append(r.call(c), s)
			}
		}
	}
	return same
}

// breaks: the statement leaves a loop, switch or select around it by a break.
func breaks(s ast.Node) (yes bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.FuncLit:
			return n == s
		case *ast.BranchStmt:
			yes = yes || b.Tok == token.BREAK && b.Label == nil
		}
		return true
	})
	return
}

func continues(s ast.Node) (yes bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
			yes = true
		}
		return true
	})
	return
}

// plain: the block has no effect on the control flow around it.
func plain(b *ast.BlockStmt) bool {
	ok := true
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt:
			ok = false
		}
		return true
	})
	return ok
}

// call moves parts of a call in front of it.
func (r *rewriter) call(c *ast.CallExpr) (pre []ast.Stmt) {
	if r.isConv(c) {
		return nil
	}
	switch r.kind {
	case "argtmp":
		if len(c.Args) == 1 {
			if _, ok := r.pk.TypesInfo.TypeOf(c.Args[0]).(*types.Tuple); ok {
				return nil
			}
		}
		for i, a := range c.Args {
			if r.simple(a) {
				continue
			}
			v := r.id("a")
			pre = append(pre, define([]ast.Expr{v}, a))
			c.Args[i] = v
			r.done++
		}
	case "funcvalue":
		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || r.pk.TypesInfo.Selections[sel] == nil {
			return nil
		}
		v := r.id("f")
		pre = append(pre, define([]ast.Expr{v}, c.Fun))
		c.Fun = v
		r.done++
	}
	return
}
