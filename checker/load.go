package main

// Loading and type checking of the repository's current working tree.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/hyperonym/ratus"

type Program struct {
	dir           string
	prog          *ssa.Program
	fset          *token.FileSet
	pkgs          []*packages.Package
	repoPkgs      []*ssa.Package // dependency order
	mutableGlobal map[*ssa.Global]bool
	loops         map[*ssa.Function]*loopInfo
	nfuncs        int
	funcs         []*ssa.Function
}

func setupGoEnv() {
	if root := "/opt/veriftools/go1.23.12"; dirExists(root) {
		os.Setenv("GOROOT", root)
		os.Setenv("PATH", root+"/bin:"+os.Getenv("PATH"))
	}
	for k, v := range map[string]string{"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off", "CGO_ENABLED": "0"} {
		os.Setenv(k, v)
	}
	if dirExists("/root/go/pkg/mod") {
		os.Setenv("GOPATH", "/root/go")
		os.Setenv("GOMODCACHE", "/root/go/pkg/mod")
	}
}

func dirExists(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.IsDir()
}

func loadProgram(dir string) (*Program, error) {
	setupGoEnv()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if ov := rangeOverlay(pkgs); len(ov) > 0 {
		c2 := *cfg
		c2.Overlay, c2.Fset = ov, nil
		if again, err := packages.Load(&c2, "./..."); err == nil && !anyErrors(again) {
			pkgs = again
		}
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs[:min(len(errs), 3)], "; "))
	}
	sp, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	mine := map[*ssa.Package]bool{}
	for _, p := range pkgs {
		mine[sp.Package(p.Types)] = true
	}
	for f := range ssautil.AllFunctions(sp) {
		if f.Pkg != nil && mine[f.Pkg] {
			mergeLoopVars(f)
		}
	}
	pr := &Program{dir: dir, prog: sp, pkgs: pkgs, mutableGlobal: map[*ssa.Global]bool{}, loops: map[*ssa.Function]*loopInfo{}}
	pr.fset = sp.Fset
	// Dependency order.
	seen := map[string]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		if pr.isRepo(p.Types) {
			if s := sp.Package(p.Types); s != nil {
				pr.repoPkgs = append(pr.repoPkgs, s)
			}
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
	for fn := range ssautil.AllFunctions(sp) {
		if p := fn.Package(); p == nil || !pr.isRepo(p.Pkg) {
			continue
		}
		if fn.Synthetic == "" {
			pr.nfuncs++
		}
		if !strings.Contains(p2(fn), "/examples") {
			pr.funcs = append(pr.funcs, fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [8]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if !writesThrough(in.(ssa.Value), 0) {
							continue
						}
					}
					if isInitFunc(fn) {
						continue
					}
					if !pr.isRepo(g.Pkg.Pkg) {
						continue
					}
					pr.mutableGlobal[g] = true
				}
			}
		}
	}
	return pr, nil
}

func anyErrors(pkgs []*packages.Package) bool {
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return true
		}
	}
	return false
}

// writesThrough reports whether an address derived from a global is used for
// anything but loading.
func writesThrough(v ssa.Value, d int) bool {
	if d > 8 || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if writesThrough(r, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if writesThrough(r, d+1) {
				return true
			}
		case *ssa.Call:
			// Methods with pointer receivers may write.
			return true
		default:
			return true
		}
	}
	return false
}

func isInitFunc(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

func p2(fn *ssa.Function) string { return fn.Package().Pkg.Path() }

func (pr *Program) isRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (pr *Program) inlinePkg(path string) bool {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		return true
	}
	switch path {
	case "slices", "maps", "cmp", "go.mongodb.org/mongo-driver/mongo/options", "go.mongodb.org/mongo-driver/bson/primitive":
		return true
	}
	return false
}

func (pr *Program) pkg(path string) *ssa.Package {
	for _, p := range pr.repoPkgs {
		if p.Pkg.Path() == path {
			return p
		}
	}
	return nil
}

// method finds a method of a named type (pointer receiver).
func (pr *Program) method(pkg, typ, name string) *ssa.Function {
	p := pr.pkg(pkg)
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	return pr.methodOf(types.NewPointer(t.Type()), p.Pkg, name)
}

func (pr *Program) methodOf(T types.Type, p *types.Package, name string) *ssa.Function {
	ms := pr.prog.MethodSets.MethodSet(T)
	sel := ms.Lookup(p, name)
	if sel == nil {
		return nil
	}
	return pr.prog.MethodValue(sel)
}

// typeNamed looks up a type anywhere in the program.
func (pr *Program) typeNamed(path, name string) types.Type {
	if p := pr.prog.ImportedPackage(path); p != nil {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	return nil
}

func (pr *Program) constOf(pkg, name string) constant.Value {
	if pk := pr.pkg(pkg); pk != nil {
		if k, ok := pk.Members[name].(*ssa.NamedConst); ok {
			return k.Value.Value
		}
	}
	return nil
}

func (pr *Program) constString(pkg, name string) (string, bool) {
	if v := pr.constOf(pkg, name); v != nil && v.Kind() == constant.String {
		return constant.StringVal(v), true
	}
	return "", false
}

func (pr *Program) constInt(pkg, name string) (int64, bool) {
	if v := pr.constOf(pkg, name); v != nil && v.Kind() == constant.Int {
		return constant.Int64Val(v)
	}
	return 0, false
}

func (pr *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := pr.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, pr.dir+"/"), q.Line)
}
