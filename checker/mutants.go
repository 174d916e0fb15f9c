package main

// Development aid: lists small changes to the repository's source (mutants), used to
// find changes of behaviour that no rule notices. No check uses it.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type mutant struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Op    string `json:"op"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
}

func (p *Program) mutants() {
	var out []mutant
	for _, pk := range p.pkgs {
		if !isRepoPath(pk.PkgPath) || strings.Contains(pk.PkgPath, "/examples") || strings.HasSuffix(pk.PkgPath, "reqtest") {
			continue
		}
		for _, f := range pk.Syntax {
			out = append(out, p.mutantsIn(pk, f)...)
		}
	}
	seen := map[string]bool{}
	enc := json.NewEncoder(os.Stdout)
	for _, m := range out {
		k := fmt.Sprint(m.File, m.Start, m.End, m.New)
		if !seen[k] {
			seen[k] = true
			enc.Encode(m)
		}
	}
}

func isRepoPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

func (p *Program) mutantsIn(pk *packages.Package, f *ast.File) (out []mutant) {
	name := p.fset.Position(f.Pos()).Filename
	src, err := os.ReadFile(name)
	if err != nil || strings.HasSuffix(name, "_test.go") {
		return nil
	}
	off := func(x token.Pos) int { return p.fset.Position(x).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	fn := ""
	rep := func(n ast.Node, op, s string) {
		out = append(out, mutant{strings.TrimPrefix(name, p.dir+"/"), off(n.Pos()), off(n.End()), s, op, p.fset.Position(n.Pos()).Line, fn})
	}
	at := func(pos token.Pos, old, new, op string) {
		o := off(pos)
		out = append(out, mutant{strings.TrimPrefix(name, p.dir+"/"), o, o + len(old), new, op, p.fset.Position(pos).Line, fn})
	}
	// Constants and variables of packages by type, for replacing one by another.
	siblings := func(o types.Object) (l []string) {
		if o.Pkg() == nil || o.Parent() != o.Pkg().Scope() || !isRepoPath(o.Pkg().Path()) {
			return nil
		}
		var names []string
		for _, n := range o.Pkg().Scope().Names() {
			q := o.Pkg().Scope().Lookup(n)
			_, c1 := o.(*types.Const)
			_, c2 := q.(*types.Const)
			_, v1 := o.(*types.Var)
			_, v2 := q.(*types.Var)
			if q != o && (c1 && c2 || v1 && v2) && types.Identical(q.Type(), o.Type()) && len(n) > 3 && len(o.Name()) > 3 && n[:3] == o.Name()[:3] {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		// The neighbours in the order of names, at most two.
		for _, n := range names {
			if n > o.Name() {
				l = append(l, n)
				break
			}
		}
		for i := len(names) - 1; i >= 0; i-- {
			if names[i] < o.Name() {
				l = append(l, names[i])
				break
			}
		}
		return
	}
	astutil.Apply(f, func(cu *astutil.Cursor) bool {
		n := cu.Node()
		switch n := n.(type) {
		case *ast.FuncDecl:
			fn = n.Name.Name
			if n.Recv != nil && len(n.Recv.List) > 0 {
				fn = strings.TrimPrefix(txt(n.Recv.List[0].Type), "*") + "." + fn
			}
		case *ast.GenDecl:
			if n.Tok == token.IMPORT || n.Tok == token.TYPE && fn == "" {
				return n.Tok == token.TYPE
			}
		case *ast.Field:
			if n.Tag != nil {
				return false
			}
		case *ast.ExprStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.BranchStmt:
			if cu.Index() >= 0 {
				rep(n, "delete", "")
				if d, ok := n.(*ast.DeferStmt); ok {
					rep(n, "undefer", txt(d.Call))
				}
				if b, ok := n.(*ast.BranchStmt); ok && b.Label == nil {
					switch b.Tok {
					case token.BREAK:
						rep(n, "branch", "continue")
					case token.CONTINUE:
						rep(n, "branch", "break")
					}
				}
			}
		case *ast.AssignStmt:
			if cu.Index() >= 0 {
				if n.Tok != token.DEFINE {
					rep(n, "delete", "")
				} else {
					var l []string
					for range n.Lhs {
						l = append(l, "_")
					}
				}
				switch n.Tok {
				case token.ADD_ASSIGN:
					at(n.TokPos, "+=", "-=", "assign-op")
					at(n.TokPos, "+=", "=", "assign-op")
				case token.SUB_ASSIGN:
					at(n.TokPos, "-=", "+=", "assign-op")
				}
			}
		case *ast.IfStmt:
			if cu.Index() >= 0 && n.Init == nil && n.Else == nil {
				rep(n, "delete-if", "")
				rep(n, "always", txt(n.Body))
			}
			if n.Else != nil {
				s := off(n.Body.End())
				out = append(out, mutant{strings.TrimPrefix(name, p.dir+"/"), s, off(n.Else.End()), "", "delete-else", p.fset.Position(n.Pos()).Line, fn})
			}
			rep(n.Cond, "negate", "!("+txt(n.Cond)+")")
			if cu.Index() >= 0 && n.Init != nil && n.Else == nil {
				rep(n.Cond, "never", "false && "+txt(n.Cond))
			}
		case *ast.ForStmt:
			if n.Cond != nil {
				rep(n.Cond, "negate", "!("+txt(n.Cond)+")")
			}
		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				if id, ok := n.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
					rep(id, "swallow", "nil")
				} else if t := pk.TypesInfo.TypeOf(n.Results[k-1]); t != nil && t.String() == "error" {
					if _, isNil := n.Results[k-1].(*ast.Ident); !isNil {
						rep(n.Results[k-1], "swallow", "nil")
					}
				}
			}
		case *ast.CaseClause:
			if cu.Index() >= 0 && n.List != nil {
				rep(n, "delete-case", "")
			}
		case *ast.CommClause:
			if cu.Index() >= 0 {
				rep(n, "delete-case", "")
			}
		case *ast.BinaryExpr:
			switch n.Op {
			case token.LAND, token.LOR:
				rep(n, "operand", txt(n.X))
				rep(n, "operand", txt(n.Y))
				o := map[token.Token]string{token.LAND: "||", token.LOR: "&&"}[n.Op]
				at(n.OpPos, n.Op.String(), o, "logic")
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				o := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}}[n.Op]
				for _, x := range o {
					at(n.OpPos, n.Op.String(), x, "compare")
				}
			case token.EQL:
				at(n.OpPos, "==", "!=", "compare")
			case token.NEQ:
				at(n.OpPos, "!=", "==", "compare")
			case token.ADD:
				at(n.OpPos, "+", "-", "arith")
			case token.SUB:
				at(n.OpPos, "-", "+", "arith")
			case token.MUL:
				at(n.OpPos, "*", "/", "arith")
			case token.QUO:
				at(n.OpPos, "/", "*", "arith")
			case token.OR:
				rep(n, "operand", txt(n.X))
				rep(n, "operand", txt(n.Y))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				rep(n, "negate", txt(n.X))
			}
			if n.Op == token.SUB {
				rep(n, "arith", txt(n.X))
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				if v, ok := constant.Int64Val(constant.MakeFromLiteral(n.Value, n.Kind, 0)); ok {
					rep(n, "literal", fmt.Sprint(v+1))
					if v > 0 {
						rep(n, "literal", fmt.Sprint(v-1))
					}
				}
			case token.STRING:
				if _, isImp := cu.Parent().(*ast.ImportSpec); !isImp && len(n.Value) > 2 {
					q := n.Value[len(n.Value)-1:]
					rep(n, "string", n.Value[:len(n.Value)-1]+"x"+q)
				}
				if len(n.Value) == 2 {
					rep(n, "string", `"x"`)
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i++ {
				a, b := pk.TypesInfo.TypeOf(n.Args[i]), pk.TypesInfo.TypeOf(n.Args[i+1])
				if a != nil && b != nil && types.Identical(types.Default(a), types.Default(b)) {
					s, e := off(n.Args[i].Pos()), off(n.Args[i+1].End())
					out = append(out, mutant{strings.TrimPrefix(name, p.dir+"/"), s, e, txt(n.Args[i+1]) + ", " + txt(n.Args[i]), "swap-args", p.fset.Position(n.Pos()).Line, fn})
				}
			}
			for _, a := range n.Args {
				if id, ok := a.(*ast.Ident); ok && id.Name == "ctx" {
					rep(a, "context", "context.Background()")
				}
			}
			// x.M(...) as a link of a chain is dropped.
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				if a, b := pk.TypesInfo.TypeOf(n), pk.TypesInfo.TypeOf(s.X); a != nil && b != nil && types.Identical(a, b) {
					rep(n, "unchain", txt(s.X))
				}
			}
		case *ast.CompositeLit:
			for i, e := range n.Elts {
				if _, ok := e.(*ast.KeyValueExpr); ok || len(n.Elts) > 1 {
					s, t := off(e.Pos()), off(e.End())
					if i+1 < len(n.Elts) {
						t = off(n.Elts[i+1].Pos())
					} else if i > 0 {
						s = off(n.Elts[i-1].End())
					}
					out = append(out, mutant{strings.TrimPrefix(name, p.dir+"/"), s, t, "", "delete-element", p.fset.Position(e.Pos()).Line, fn})
				}
			}
		case *ast.Ident:
			o := pk.TypesInfo.Uses[n]
			if o == nil {
				break
			}
			if _, isSel := cu.Parent().(*ast.SelectorExpr); isSel && cu.Name() == "Sel" {
				// Fields and constants of other packages.
				sel := cu.Parent().(*ast.SelectorExpr)
				if v, ok := o.(*types.Var); ok && v.IsField() {
					if S := structOf(pk.TypesInfo.TypeOf(sel.X)); S != nil {
						k := 0
						for i := 0; i < S.NumFields() && k < 2; i++ {
							if g := S.Field(i); g != v && types.Identical(g.Type(), v.Type()) {
								rep(n, "field", g.Name())
								k++
							}
						}
					}
					break
				}
			}
			switch o {
			case types.Universe.Lookup("true"):
				rep(n, "bool", "false")
			case types.Universe.Lookup("false"):
				rep(n, "bool", "true")
			}
			for _, s := range siblings(o) {
				rep(n, "sibling", s)
			}
			// Local variables and parameters of the same type.
			if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != nil && v.Parent() != v.Pkg().Scope() {
				k := 0
				for sc := v.Parent(); sc != nil && sc != v.Pkg().Scope(); sc = sc.Parent() {
					for _, m := range sc.Names() {
						q := sc.Lookup(m)
						if _, isVar := q.(*types.Var); isVar && q != o && q.Pos() < n.Pos() && types.Identical(q.Type(), o.Type()) && k < 1 && m != "_" {
							rep(n, "variable", m)
							k++
						}
					}
				}
			}
		}
		return true
	}, nil)
	return
}
