package main

// The API as the server mounts it: the handler chains registered by main are
// collected from the routing calls, and each is analysed for an arbitrary
// request with the storage engines behind their contract.

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

const pkgEngine = modPath + "/internal/engine"

type apiRoute struct {
	method, path string
	handlers     []*Term
	ev           *Event
	outs         []Ret
	ctx          *Term
	cached       []*apiOut
}

type apiModel struct {
	main   []Ret
	routes []*apiRoute
	none   []*apiRoute
}

// engineModel: an operation of a storage engine either succeeds with results
// that are present, or fails with an error and no result.
func engineModel(c *CallCtx) []Ret {
	name := c.name
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		name = name[i+1:]
	}
	rs := c.sig.Results()
	n := rs.Len()
	fresh := func(st *State, i int) *Term {
		T := rs.At(i).Type()
		v := c.x.sym("in:"+name, T)
		if derefType(T) != nil || types.IsInterface(T) {
			st.assume(mkIsNil(v), false)
		}
		// Counts are not negative.
		if s := structOf(derefType(T)); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
					st.assume(mkGe0(toLin(mkField(pristine(v), i))), true)
				}
			}
		}
		return v
	}
	if n == 0 || !types.Identical(rs.At(n-1).Type(), tErr) {
		e := c.event("engine", name)
		for i := 0; i < n; i++ {
			e.Res = append(e.Res, fresh(&c.st, i))
		}
		if n == 1 {
			return c.one(e.Res[0])
		}
		return c.one(mkTuple(e.Res...))
	}
	ok, bad := *c, *c
	e1, e2 := ok.event("engine", name), bad.event("engine", name)
	for i := 0; i < n-1; i++ {
		e1.Res = append(e1.Res, fresh(&ok.st, i))
		e2.Res = append(e2.Res, c.x.zero(rs.At(i).Type()))
	}
	e1.Res = append(e1.Res, mkNil(nil))
	e2.Res = append(e2.Res, c.x.failErr(&bad.st, "engine"))
	c.x.paths++
	ret := func(st State, r []*Term) Ret {
		if len(r) == 1 {
			return Ret{St: st, V: r[0]}
		}
		return Ret{St: st, V: mkTuple(r...)}
	}
	return []Ret{ret(ok.st, e1.Res), ret(bad.st, e2.Res)}
}

func engineHook(pkg, name string) Model {
	if pkg == pkgEngine || strings.HasPrefix(pkg, pkgEngine+"/") {
		if name == "init" {
			return nil
		}
		return engineModel
	}
	return nil
}

func ginOwner(t *Term) *Term {
	for t.K == KFieldAd {
		t = t.Args[0]
	}
	return t
}

func joinPath(a, b string) string {
	if b == "" {
		return a
	}
	p := strings.TrimSuffix(a, "/") + "/" + strings.TrimPrefix(b, "/")
	return p
}

// api explores main with the engines opaque, and every handler chain mounted.
func (c *Checker) api() *apiModel {
	x := c.x
	if x.apiModel != nil {
		c.entries["cmd/ratus.main"] = len(x.apiModel.main)
		for _, r := range x.apiModel.routes {
			c.entries[r.method+" "+r.path] = len(r.outs)
		}
		return x.apiModel
	}
	a := &apiModel{}
	x.apiModel = a
	x.hook = engineHook
	defer func() { x.hook = nil }()
	pk := x.prog.pkg(modPath + "/cmd/ratus")
	if pk == nil || pk.Func("main") == nil {
		c.fail("entry", "cmd/ratus.main", 0, "entry point not found", nil)
		return a
	}
	if x.watch != nil {
		x.watch.enter(x, "main", nil)
		x.watch.single = true
	}
	a.main = c.explore("cmd/ratus.main", pk.Func("main"), nil)
	if x.watch != nil {
		x.watch.leave()
	}
	seen := map[*Event]bool{}
	for i := range a.main {
		group := map[*Term][]*Term{}
		prefix := map[*Term]string{}
		pre := func(t *Term) string {
			if p, ok := prefix[ginOwner(t)]; ok {
				return p
			}
			return "/"
		}
		for _, e := range a.main[i].St.events() {
			switch e.Kind {
			case "route.use":
				o := ginOwner(e.Args[0])
				group[o] = append(group[o][:len(group[o]):len(group[o])], e.Args[1:]...)
			case "route.group":
				o := ginOwner(e.Args[0])
				p, ok := e.Args[1].strConst()
				if !ok {
					c.fail("routes", x.prog.pos(e.Pos), e.Pos, "the prefix of a group of endpoints cannot be determined", &e.St)
				}
				prefix[e.Res[0]] = joinPath(pre(o), p)
				group[e.Res[0]] = append(append([]*Term{}, group[o]...), e.Args[2:]...)
			case "route", "route.none":
				if seen[e] {
					continue
				}
				seen[e] = true
				o := ginOwner(e.Args[0])
				r := &apiRoute{ev: e}
				if e.Kind == "route" {
					m, ok1 := e.Args[1].strConst()
					p, ok2 := e.Args[2].strConst()
					if !ok1 || !ok2 || e.Name != "" {
						c.fail("routes", x.prog.pos(e.Pos), e.Pos, "a route cannot be determined", &e.St)
						continue
					}
					r.method, r.path = m, joinPath(pre(o), p)
					r.handlers = append(append([]*Term{}, group[o]...), e.Args[3:]...)
					a.routes = append(a.routes, r)
				} else {
					r.method, r.path = "NONE", "*"
					r.handlers = append(append([]*Term{}, group[o]...), e.Args[1:]...)
					a.none = append(a.none, r)
				}
			}
		}
	}
	ctxT := x.prog.typeNamed(ginP, "Context")
	for _, r := range append(append([]*apiRoute{}, a.routes...), a.none...) {
		x.paths, x.limit = 0, false
		st := r.ev.St
		st.ev = nil
		r.ctx = x.named("c", types.NewPointer(ctxT))
		st.chain = &ginChain{path: r.path, handlers: r.handlers, idx: -1, ctx: r.ctx}
		if x.watch != nil {
			x.watch.enter(x, r.method+" "+r.path, nil)
		}
		r.outs = x.runChain(nil, st, r.ctx)
		if x.watch != nil {
			x.watch.leave()
		}
		name := r.method + " " + r.path
		c.entries[name] = len(r.outs)
		c.limits(name, r.ev.Pos)
	}
	return a
}

func (c *Checker) dumpAPI(filter string) {
	a := c.api()
	for _, r := range append(append([]*apiRoute{}, a.routes...), a.none...) {
		name := r.method + " " + r.path
		if filter != "" && !strings.Contains(name, filter) {
			continue
		}
		fmt.Printf("#### %s: %d handlers, %d outcomes\n", name, len(r.handlers), len(r.outs))
		if os.Getenv("RC_V") == "" {
			continue
		}
		for i, o := range r.outs {
			fmt.Printf("== outcome %d panic=%v exit=%v\n", i, o.Panic, o.Exit)
			for _, e := range o.St.events() {
				fmt.Printf("   %-14s %s %v -> %v  [%s] %v\n", e.Kind, e.Name, e.Args, e.Res, c.x.prog.pos(e.Pos), e.Tag)
			}
			var fs []string
			for _, l := range o.St.facts.list {
				fs = append(fs, fmt.Sprintf("%v=%v", l.t, l.truth))
			}
			fmt.Printf("   facts: %s\n", strings.Join(fs, " ; "))
		}
	}
	fmt.Println("notes", c.x.notes, c.violations())
}
