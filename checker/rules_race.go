package main

// Memory shared between concurrent activities (C27).

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// watched analyses a function as an activity that runs concurrently with
// itself and the others.
func (c *Checker) watched(name string, fn *ssa.Function, recv *Term, base State, args []*Term) []Ret {
	if fn == nil || fn.Blocks == nil {
		c.fail("entry", name, 0, "entry point not found", nil)
		return nil
	}
	x := c.x
	x.paths, x.limit = 0, false
	for k := range x.notes {
		delete(x.notes, k)
	}
	if args == nil {
		for i := range fn.Params {
			args = append(args, c.param(fn, i))
		}
	}
	x.watch.enter(x, name, recv)
	rets := x.callFn(base, fn, args, nil, nil, nil)
	x.watch.leave()
	c.entries["concurrent "+name] = len(rets)
	c.limits(name, fn.Pos())
	c.lockState(name, rets)
	return rets
}

func (w *watcher) leave() { w.entry, w.single = "", false }

// lockState: an activity ends with the locks it began with.
func (c *Checker) lockState(name string, rets []Ret) {
	for i := range rets {
		r := &rets[i]
		for h := r.St.held; h != nil; h = h.prev {
			if !h.done {
				c.fail("lock-released", name, 0, fmt.Sprintf("returns with %v still locked", c.x.lockName(&r.St, h.mu)), &r.St)
			}
		}
		c.ok("lock-released")
		for _, sg := range segs(r, map[*Step]bool{}) {
			for _, e := range sg.Ev {
				if e.Kind == "lock.unheld" {
					c.fail("lock-released", name+" "+c.x.prog.pos(e.Pos), e.Pos, name+" releases a lock that it does not hold", &e.St)
				}
			}
			if sg.Step != nil {
				n := 0
				for h := sg.Step.St.held; h != nil; h = h.prev {
					if !h.done {
						n++
					}
				}
				m := 0
				for h := sg.Loop.Entry.held; h != nil; h = h.prev {
					if !h.done {
						m++
					}
				}
				c.must(n == m, "lock-released", name+" iteration", sg.Loop.Pos, &sg.Step.St, "an iteration of a loop begins with %d locks and ends with %d", m, n)
			}
		}
	}
}

func (c *Checker) raceRules() {
	x := c.x
	x.watch = newWatcher()
	oldAPI := x.apiModel
	defer func() { x.watch, x.apiModel = nil, oldAPI }()
	w := x.watch

	// The storage engines, called by any number of requests at a time.
	for _, e := range []string{"memdb", "mongodb"} {
		pkg := pkgEngine + "/" + e
		for _, m := range c.engineMethods() {
			switch m {
			case "Open", "Close", "Destroy":
				continue
			}
			fn := x.prog.method(pkg, "Engine", m)
			c.watched(e+" "+m, fn, c.param(fn, 0), x.base, nil)
		}
	}

	// The endpoints, with the engines behind their interface.
	x.apiModel = nil
	saved := c.cache
	c.cache = map[string][]Ret{}
	a := c.api()
	c.cache = saved
	for _, r := range append(append([]*apiRoute{}, a.routes...), a.none...) {
		c.lockState(r.method+" "+r.path, r.outs)
	}
	c.lockState("main", a.main)

	// The client, its transport and its subscriptions.
	T := x.prog.typeNamed(modPath, "Client")
	ms := types.NewMethodSet(types.NewPointer(T))
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		if !m.Exported() {
			continue
		}
		fn := x.prog.method(modPath, "Client", m.Name())
		c.watched("Client."+m.Name(), fn, c.param(fn, 0), x.base, nil)
	}
	c.watchTransport()

	// What requests share without either.
	gen := x.prog.pkg(pkgNonce).Func("Generate")
	op := x.opaque[pkgNonce+".Generate"]
	delete(x.opaque, pkgNonce+".Generate")
	c.watched("nonce.Generate", gen, nil, x.base, nil)
	if op {
		x.opaque[pkgNonce+".Generate"] = true
	}
	w.report(c)
	for r, n := range map[string]int{"race": 60, "lock-released": 2000, "activities": 60} {
		c.atLeast(r, n)
	}
}

func (c *Checker) engineMethods() []string {
	var r []string
	T := c.x.prog.typeNamed(pkgEngine, "Engine")
	if i, ok := T.Underlying().(*types.Interface); ok {
		for k := 0; k < i.NumMethods(); k++ {
			r = append(r, i.Method(k).Name())
		}
	}
	sort.Strings(r)
	return r
}

// watchTransport: every call of a client goes through its transport.
func (c *Checker) watchTransport() {
	x := c.x
	fn := x.prog.pkg(modPath).Func("NewClient")
	if fn == nil {
		return
	}
	rets := x.callFn(x.base, fn, []*Term{c.param(fn, 0)}, nil, nil, nil)
	for i := range rets {
		r := &rets[i]
		if r.Panic || !r.St.isNil(r.res(1)) {
			continue
		}
		hc := c.deref(&r.St, mkField2(c.deref(&r.St, r.res(0)), "client"))
		tr := r.St.norm(mkField2(hc, "Transport"))
		if tr.K != KIface {
			continue
		}
		T := tr.T
		if T == nil || types.IsInterface(T) {
			T = tr.Args[0].T
		}
		rt := x.prog.methodOf(T, x.prog.pkg(modPath).Pkg, "RoundTrip")
		if rt == nil {
			continue
		}
		st := r.St
		st.ev = nil
		req := x.named("request", rt.Signature.Params().At(0).Type())
		st.assume(mkIsNil(req), false)
		url := mkField2(pristine(req), "URL")
		st.assume(mkIsNil(url), false)
		c.watched("RoundTrip", rt, tr.Args[0], st, []*Term{tr.Args[0], req})
		c.ok("transport")
	}
	c.atLeast("transport", 1)
}

// overlap: one location is the other or a part of it.
func overlap(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	if !strings.HasPrefix(b, a) {
		return false
	}
	return len(a) == len(b) || b[len(a)] == '.' || b[len(a)] == '['
}

func common(a, b []string) bool {
	for _, s := range a {
		for _, t := range b {
			if s == t {
				return true
			}
		}
	}
	return false
}

func (w *watcher) report(c *Checker) {
	x := c.x
	var all []*Access
	seen := map[string]bool{}
	for _, a := range w.all {
		all = append(all, a)
		if !seen[a.Loc] {
			seen[a.Loc] = true
		}
	}
	sort.Slice(all, func(i, j int) bool {
		a, b := all[i], all[j]
		if a.Loc != b.Loc {
			return a.Loc < b.Loc
		}
		if a.Entry != b.Entry {
			return a.Entry < b.Entry
		}
		return a.Pos < b.Pos
	})
	if os.Getenv("RC_RACE") != "" {
		for _, a := range all {
			fmt.Printf("%-60s %-30s w=%v at=%v who=%d obj=%d many=%v %v %v %s\n", a.Loc, a.Entry, a.Write, a.Atomic, a.Who, a.Obj, a.Many, a.Locks, a.RLocks, x.prog.pos(a.Pos))
		}
	}
	for e := range c.entries {
		if e != "" {
			c.ok("activities")
		}
	}
	for _, wr := range all {
		if !wr.Write {
			continue
		}
		for _, a := range all {
			if !overlap(wr.Loc, a.Loc) || !concurrent(wr, a) {
				continue
			}
			if wr.Atomic && a.Atomic {
				c.ok("race")
				continue
			}
			if common(wr.Locks, a.Locks) || common(wr.Locks, a.RLocks) {
				c.ok("race")
				continue
			}
			what := "reads"
			if a.Write {
				what = "writes"
			}
			if a == wr {
				c.fail("race", wr.Loc, wr.Pos, fmt.Sprintf("%s writes %s without a lock, and several of it may run at a time", wr.Entry, wr.Loc), nil)
			} else {
				c.fail("race", wr.Loc, wr.Pos, fmt.Sprintf("%s writes %s holding %v while %s %s it at %s holding %v", wr.Entry, wr.Loc, append(wr.Locks, wr.RLocks...), a.Entry, what, x.prog.pos(a.Pos), append(a.Locks, a.RLocks...)), nil)
			}
		}
	}
	for range seen {
		c.ok("race")
	}
	// A cycle of locks waiting for each other.
	next := map[string][]lockUse{}
	for _, o := range w.order {
		next[o.a] = append(next[o.a], o)
		c.ok("lock-order")
	}
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		if from == to {
			return true
		}
		if seen[from] {
			return false
		}
		seen[from] = true
		for _, o := range next[from] {
			if reach(o.b, to, seen) {
				return true
			}
		}
		return false
	}
	for _, o := range w.order {
		if reach(o.b, o.a, map[string]bool{}) {
			p := []string{o.a, o.b}
			sort.Strings(p)
			c.fail("lock-order", strings.Join(p, " and "), o.pos, fmt.Sprintf("%s acquires %s while holding %s, which are also acquired the other way round", o.entry, o.b, o.a), o.st)
		}
	}
	for _, o := range w.twice {
		c.fail("lock-order", o.a, o.pos, fmt.Sprintf("%s acquires %s while holding it", o.entry, o.a), o.st)
	}
}

// concurrent: the accesses may happen at the same time to the same memory.
func concurrent(a, b *Access) bool {
	if a.Obj == 0 || b.Obj == 0 {
		// Shared between requests. What main itself does, it does once.
		return !(a.Single && b.Single && a.Who == b.Who && !a.Many)
	}
	if a.Entry != b.Entry || a.Obj != b.Obj {
		return false
	}
	return a.Who != b.Who || a.Many
}
