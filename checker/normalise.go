package main

// Counting loops written as "for i := range n" are compiled with their test at
// the bottom, unlike "for i := 0; i < n; i++". To treat both alike the former
// are analysed as the latter.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
)

type textEdit struct {
	from, to int
	text     string
}

// rangeOverlay returns replacement texts of files with integer ranges.
func rangeOverlay(pkgs []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Package).Filename
			if _, done := out[name]; done {
				continue
			}
			var edits []textEdit
			var src []byte
			ast.Inspect(f, func(n ast.Node) bool {
				rs, ok := n.(*ast.RangeStmt)
				if !ok {
					return true
				}
				if src == nil {
					b, err := os.ReadFile(name)
					if err != nil {
						return false
					}
					src = b
				}
				if e, ok := rangeEdit(p, rs, src, len(edits)); ok {
					edits = append(edits, e)
				}
				return true
			})
			if len(edits) == 0 {
				continue
			}
			sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
			txt := string(src)
			last := len(txt)
			for _, e := range edits {
				if e.to > last {
					continue
				}
				txt = txt[:e.from] + e.text + txt[e.to:]
				last = e.from
			}
			out[name] = []byte(txt)
		}
	}
	return out
}

func rangeEdit(p *packages.Package, rs *ast.RangeStmt, src []byte, n int) (textEdit, bool) {
	no := textEdit{}
	t := p.TypesInfo.TypeOf(rs.X)
	if t == nil {
		return no, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || rs.Tok == token.ASSIGN {
		return no, false
	}
	key := fmt.Sprintf("rangeInt%d", n)
	kt := types.Default(t)
	if id, ok := rs.Key.(*ast.Ident); ok && id.Name != "_" {
		key = id.Name
		obj := p.TypesInfo.Defs[id]
		if obj == nil || assigned(p, rs.Body, obj) {
			return no, false
		}
		kt = obj.Type()
	}
	ty := ""
	switch kt := kt.(type) {
	case *types.Basic:
		ty = kt.Name()
	case *types.Named:
		if kt.Obj().Pkg() != p.Types {
			return no, false
		}
		ty = kt.Obj().Name()
	default:
		return no, false
	}
	off := func(q token.Pos) int { return p.Fset.Position(q).Offset }
	x := string(src[off(rs.X.Pos()):off(rs.X.End())])
	lim := fmt.Sprintf("rangeLimit%d", n)
	return textEdit{off(rs.For), off(rs.Body.Lbrace), fmt.Sprintf("for %s, %s := %s(0), %s(%s); %s < %s; %s++ ", key, lim, ty, ty, x, key, lim, key)}, true
}

// assigned: the variable may change in the body.
func assigned(p *packages.Package, body ast.Node, obj types.Object) bool {
	bad := false
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && p.TypesInfo.Uses[id] == obj
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				bad = bad || is(l)
			}
		case *ast.IncDecStmt:
			bad = bad || is(n.X)
		case *ast.UnaryExpr:
			bad = bad || n.Op == token.AND && is(n.X)
		case *ast.RangeStmt:
			bad = bad || n.Key != nil && is(n.Key) || n.Value != nil && is(n.Value)
		}
		return !bad
	})
	return bad
}
