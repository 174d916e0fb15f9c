package main

// Rules over the life of an instance (C25) and its background jobs (C26).

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"strings"
)

// life is one path through the program.
type life struct {
	c     *Checker
	r     *Ret
	st    *State
	ev    []*Event
	args  *Term
	open  *Event
	close *Event
	group *Event
	wait  *Event
	exit  *Event
}

func (c *Checker) lives(rule string) []*life {
	var ls []*life
	for i := range c.api().main {
		r := &c.api().main[i]
		l := &life{c: c, r: r, st: &r.St, ev: r.St.events()}
		if r.Panic {
			c.fail(rule, "panic", 0, "the program may panic", l.st)
			continue
		}
		for _, e := range l.ev {
			switch e.Kind {
			case "args":
				if len(e.Res) > 0 {
					l.args = e.Res[0]
				}
			case "engine":
				switch e.Name {
				case "Open":
					c.must(l.open == nil, rule, "open-once", e.Pos, l.st, "the storage engine is opened more than once")
					l.open = e
				case "Close":
					c.must(l.close == nil, rule, "close-once", e.Pos, l.st, "the storage engine is closed more than once")
					l.close = e
				}
			case "group.new":
				c.must(l.group == nil, rule, "group-once", e.Pos, l.st, "more than one group of activities is started")
				l.group = e
			case "group.wait":
				l.wait = e
			case "exit":
				l.exit = e
			}
		}
		ls = append(ls, l)
	}
	return ls
}

func (c *Checker) lifeRules() {
	name := c.flag("--engine")
	ls := c.lives("life-order")
	var running, unknown int
	engines := map[string]bool{}
	for _, l := range ls {
		st := l.st
		var errs []*Term // of everything that may fail
		var nw *Event
		for _, e := range l.ev {
			if e.Kind != "engine" {
				continue
			}
			switch e.Name {
			case "New":
				c.must(nw == nil, "life-engine", "once", e.Pos, st, "more than one storage engine is created")
				nw = e
				errs = append(errs, e.Res[1])
				c.engineChoice(l, e, name, engines)
			case "Open":
				c.must(nw != nil && st.isNil(nw.Res[1]) && st.norm(e.Args[0]) == st.norm(nw.Res[0]), "life-order", "open", e.Pos, st, "another engine is opened than the one created")
				errs = append(errs, e.Res[0])
			case "Close":
				errs = append(errs, e.Res[0])
				c.must(l.open != nil && st.isNil(l.open.Res[0]) && st.norm(e.Args[0]) == st.norm(l.open.Args[0]), "life-close", "engine", e.Pos, st, "the engine that is closed has not been opened")
				c.must(!c.within(st, e.Args[1], l.group), "life-close", "context", e.Pos, st, "the engine is closed with a context that has ended")
			default:
				c.must(l.open != nil && precedes(l.ev, l.open, e), "life-order", e.Name, e.Pos, st, "the storage engine is used before it is opened")
			}
		}
		if nw == nil {
			unknown++
			for _, n := range []string{"memdb", "mongodb"} {
				c.must(c.engineNamed(st, name, n) == 0, "life-engine", n, 0, st, "engine %s is not available", n)
			}
			c.must(l.exit != nil, "life-exit", "unknown-engine", 0, st, "the program ends normally although the engine is unknown")
		}
		opened := l.open != nil && st.isNil(l.open.Res[0])
		if l.group != nil || l.close != nil {
			c.must(opened, "life-order", "started", 0, st, "the instance starts although the engine could not be opened")
		}
		if opened {
			if c.must(l.group != nil, "life-order", "idle", l.open.Pos, st, "nothing is started") {
				running++
				c.activities(l)
				c.must(l.wait != nil && st.norm(l.wait.Args[0]) == st.norm(l.group.Res[0]), "life-order", "wait", l.group.Pos, st, "the program does not wait for its activities")
			}
			if c.must(l.close != nil, "life-close", "missing", l.open.Pos, st, "the storage engine is not closed") {
				c.must(l.wait != nil && precedes(l.ev, l.wait, l.close) || l.group == nil, "life-close", "order", l.close.Pos, st, "the storage engine is closed while it is in use")
				c.must(l.exit == nil || precedes(l.ev, l.close, l.exit), "life-close", "exit", l.close.Pos, st, "the program ends before the engine is closed")
			}
		}
		if l.wait != nil {
			errs = append(errs, opErr(l.wait))
		}
		// The exit status tells whether anything failed.
		failed, unsure := nw == nil, false
		for _, e := range errs {
			failed = failed || st.notNil(e)
			unsure = unsure || !st.notNil(e) && !st.isNil(e)
		}
		switch {
		case unsure && !failed:
			c.fail("life-exit", "unexamined", 0, "an error of the instance is not examined", st)
		case failed:
			c.must(l.exit != nil && c.nonZeroExit(st, l.exit), "life-exit", "status", 0, st, "the program ends normally in spite of an error")
		default:
			c.must(l.exit == nil, "life-exit", "clean", 0, st, "the program ends with an error although nothing failed")
		}
	}
	c.must(running > 0, "life-order", "can-run", 0, nil, "no instance can be started")
	c.must(engines["memdb"] && engines["mongodb"], "life-engine", "all", 0, nil, "not all engines can be chosen")
	_ = unknown
	for r, n := range map[string]int{"life-engine": 30, "life-order": 60, "life-close": 30, "life-exit": 20, "life-group": 30, "life-stop": 20, "serve-start": 20, "serve-signal": 20, "serve-stop": 30, "serve-result": 20, "serve-disabled": 4} {
		c.atLeast(r, n)
	}
}

func (c *Checker) nonZeroExit(st *State, e *Event) bool {
	if e.Name != "os.Exit" {
		return true
	}
	k, ok := st.norm(e.Args[0]).intConst()
	return ok && k != 0
}

// within: the context ends with the group of activities.
func (c *Checker) within(st *State, ctx *Term, g *Event) bool {
	if g == nil {
		return false
	}
	ctx = st.norm(ctx)
	if ctx == st.norm(g.Res[1]) {
		return true
	}
	if ctx.isOp("nonnil:ctx.without") {
		return false
	}
	for _, a := range ctx.Args {
		if a != nil && a.T != nil && types.IsInterface(a.T) && c.within(st, a, g) {
			return true
		}
	}
	return false
}

// engineNamed: 1 if the configured name is known to be n, regardless of case.
func (c *Checker) engineNamed(st *State, name *Term, n string) int {
	for _, l := range st.facts.list {
		if l.t.isOp("eq") && len(l.t.Args) == 2 {
			for i := 0; i < 2; i++ {
				if s, ok := l.t.Args[i].strConst(); ok && s == n && l.t.Args[1-i].isOp("fn:strings.ToLower") && st.norm(l.t.Args[1-i].Args[0]) == st.norm(name) {
					if l.truth {
						return 1
					}
					return 0
				}
			}
		}
		if l.t.isOp("fn:strings.EqualFold") {
			for i := 0; i < 2; i++ {
				if s, ok := l.t.Args[i].strConst(); ok && s == n && st.norm(l.t.Args[1-i]) == st.norm(name) {
					if l.truth {
						return 1
					}
					return 0
				}
			}
		}
	}
	return -1
}

// engineChoice: the engine created is the one named, with its configuration.
func (c *Checker) engineChoice(l *life, e *Event, name *Term, seen map[string]bool) {
	st := l.st
	T := derefType(e.Args[0].T)
	for _, n := range []string{"memdb", "mongodb"} {
		want := c.x.prog.typeNamed(modPath+"/internal/engine/"+n, "Config")
		if T == nil || want == nil || !types.Identical(T, want) {
			continue
		}
		seen[n] = true
		c.must(c.engineNamed(st, name, n) == 1, "life-engine", n+".name", e.Pos, st, "engine %s is used although it is not the configured one", n)
		var conf *Term
		if s := structOf(l.args.T); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), want) {
					conf = mkField(l.args, i)
				}
			}
		}
		c.must(conf != nil && c.sameVal(&e.St, c.deref(&e.St, e.Args[0]), conf), "life-engine", n+".config", e.Pos, st, "engine %s is not created with its configuration", n)
		return
	}
	c.fail("life-engine", "config", e.Pos, fmt.Sprintf("a storage engine is created from %v", e.Args), st)
}

// activities finds the server and the background jobs among what is started.
func (c *Checker) activities(l *life) {
	st := l.st
	var serve, chore *Event
	c.must(!c.mayEnd(st, l.group.Args), "life-group", "context", l.group.Pos, st, "the instance stops after some time")
	for _, e := range l.ev {
		switch e.Kind {
		case "group.limit":
			n, ok := st.norm(e.Args[1]).intConst()
			c.must(ok && (n < 0 || n > 1), "life-group", "limit", e.Pos, st, "the server and the background jobs do not run at the same time")
		case "signal.reset":
			c.fail("serve-signal", "reset", e.Pos, "the handling of signals is reset", st)
		}
		if e.Kind == "loop" {
			for _, s := range e.Loop.Steps {
				c.must(!hasEvent(s.Events, "spawn"), "life-group", "loop", e.Pos, &s.St, "activities are started repeatedly")
			}
		}
		if e.Kind != "spawn" {
			continue
		}
		sv, ch := spawns(e)
		for i := range e.Sub {
			c.must(!c.closes(&e.Sub[i].St), "life-close", "concurrent", e.Pos, st, "the storage engine may be closed while it is in use")
		}
		if !sv && !ch {
			continue
		}
		c.must(len(e.Args) > 1 && e.Args[1] != nil && st.norm(e.Args[1]) == st.norm(l.group.Res[0]), "life-group", "member", e.Pos, st, "an activity is not waited for")
		c.must(l.wait == nil || precedes(l.ev, e, l.wait), "life-group", "order", e.Pos, st, "an activity is started after waiting")
		if sv {
			c.must(serve == nil, "life-group", "serve-once", e.Pos, st, "more than one server is started")
			serve = e
		}
		if ch {
			c.must(chore == nil, "life-group", "chore-once", e.Pos, st, "background jobs run more than once at a time")
			chore = e
		}
	}
	c.must(serve != chore || serve == nil, "life-group", "same", l.group.Pos, st, "the server and the background jobs depend on each other")
	off := serve == nil && c.posPort(st) == 0
	if c.must(serve != nil || off, "life-group", "serve", l.group.Pos, st, "no server is started") && serve != nil {
		c.serveRules(l, serve)
	}
	if chore != nil {
		c.prompt(l, chore)
	}
	off = chore == nil && st.known(mkGe0(toLin(c.flag("--chore-interval")).add(toLin(mkInt(1)), -1))) == 0
	c.must(chore != nil || off, "life-group", "chore", l.group.Pos, st, "no background jobs are started")
}

// prompt: whatever the background jobs wait for, the end of the instance ends it.
func (c *Checker) prompt(l *life, e *Event) {
	for i := range e.Sub {
		r := &e.Sub[i]
		sig := c.sigChans(&r.St, r.St.events(), "life-stop")
		check := func(ev []*Event, st *State) {
			for _, x := range ev {
				switch x.Kind {
				case "select":
					all, _ := x.Tag.([]*Term)
					if sel, ok := x.Site.(*ssa.Select); ok && !sel.Blocking {
						continue
					}
					var s, g bool
					for _, ch := range all {
						w := c.cause(st, ch, sig, l.group)
						s = s || w == "signal"
						g = g || w == "context"
					}
					c.must(s, "life-stop", "signal", x.Pos, st, "the background jobs go on after a signal")
					c.must(g, "life-stop", "failure", x.Pos, st, "the background jobs go on when the server has failed")
				case "engine":
					if len(x.Args) > 1 && x.Name != "New" {
						c.must(c.within(st, x.Args[1], l.group), "life-stop", "engine", x.Pos, st, "the storage engine is not told that the instance ends")
					}
				case "chan.recv", "sleep":
					c.fail("life-stop", "waiting", x.Pos, "the background jobs wait without regard to the end of the instance", st)
				}
			}
		}
		ev := r.St.events()
		check(ev, &r.St)
		for _, x := range ev {
			if x.Loop != nil {
				for _, s := range x.Loop.Steps {
					check(s.Events, &s.St)
				}
			}
		}
	}
}

// posPort: 1 if the port is known to be positive, 0 if known not to be.
func (c *Checker) posPort(st *State) int {
	port := c.flag("--port")
	pos := st.known(mkGe0(toLin(port).add(toLin(mkInt(1)), -1)))
	if b := st.facts.bounds(port); pos < 0 && b.lo >= 1 {
		pos = 1
	}
	if st.known(mkEq0(toLin(port))) == 1 {
		pos = 0
	} else if pos < 0 && st.known(mkEq0(toLin(port))) == 0 {
		pos = 1 // ports are not negative
	}
	return pos
}

// mayEnd: one of the contexts has a deadline of its own.
func (c *Checker) mayEnd(st *State, ts []*Term) bool {
	for _, t := range ts {
		if t == nil {
			continue
		}
		t = st.norm(t)
		if t.isOp("nonnil:ctx.without") {
			continue
		}
		if strings.HasPrefix(t.Op, "nonnil:ctx.timeout") || strings.HasPrefix(t.Op, "nonnil:ctx.deadline") || c.mayEnd(st, t.Args) {
			return true
		}
		for _, e := range st.events() {
			if kindIn(e, "ctx.timeout", "ctx.deadline") && len(e.Res) > 0 && st.norm(e.Res[0]) == t {
				return true
			}
			if e.Kind == "ctx.cancel" && len(e.Res) > 0 && st.norm(e.Res[0]) == t && c.mayEnd(st, e.Args[:1]) {
				return true
			}
		}
	}
	return false
}

// closes: the storage engine is closed on the path.
func (c *Checker) closes(st *State) bool {
	for _, e := range st.events() {
		if e.Kind == "engine" && e.Name == "Close" {
			return true
		}
	}
	return false
}

func spawns(e *Event) (serve, chore bool) {
	var walk func(ev []*Event, d int)
	walk = func(ev []*Event, d int) {
		for _, x := range ev {
			serve = serve || x.Kind == "http.serve"
			chore = chore || x.Kind == "engine" && x.Name == "Chore"
			if x.Loop != nil {
				for _, s := range x.Loop.Steps {
					walk(s.Events, d)
				}
			}
			if d < 3 {
				for _, r := range x.Sub {
					walk(r.St.events(), d+1)
				}
			}
		}
	}
	for _, r := range e.Sub {
		walk(r.St.events(), 0)
	}
	return
}

// sigChans: the channels that deliver both signals for termination.
func (c *Checker) sigChans(st *State, ev []*Event, rule string) map[*Term]*Event {
	r := map[*Term]*Event{}
	for _, e := range ev {
		if e.Kind != "signal.notify" {
			continue
		}
		var sigs *Term
		var ch *Term
		if len(e.Res) == 2 { // a context
			sigs = e.Args[1]
			ch = mkOp("nonnil:ctx.done", nil, e.Res[0])
		} else {
			sigs = e.Args[1]
			ch = e.St.norm(e.Args[0])
			es := e.St
			if c.must(ch.K == KChan, rule, "channel", e.Pos, st, "signals are delivered to an unknown channel") {
				n, ok := c.x.cell(&es, ch).Val.intConst()
				c.must(ok && n > 0, rule, "buffer", e.Pos, st, "a signal may be missed while nothing receives it")
			}
		}
		es := e.St
		el, ok := c.x.elems(&es, es.norm(sigs))
		both := map[string]bool{}
		for _, s := range el {
			t := unIface(es.norm(s))
			if k, isC := t.intConst(); isC {
				both[fmt.Sprint(k)] = true
			}
			both[t.String()] = true
		}
		has := func(n string, names ...string) bool {
			if ok && len(el) == 0 {
				return true // all signals
			}
			for k := range both {
				if k == n {
					return true
				}
				for _, s := range names {
					if strings.HasSuffix(k, s) {
						return true
					}
				}
			}
			return false
		}
		c.must(has("2", "os.Interrupt", "syscall.SIGINT"), rule, "interrupt", e.Pos, st, "interrupts do not lead to a graceful shutdown (%v)", el)
		c.must(has("15", "syscall.SIGTERM"), rule, "term", e.Pos, st, "SIGTERM does not lead to a graceful shutdown (%v)", el)
		r[ch] = e
	}
	return r
}

// cause tells why waiting ended: "signal", "context" or "".
func (c *Checker) cause(st *State, ch *Term, sig map[*Term]*Event, g *Event) string {
	ch = st.norm(ch)
	if sig[ch] != nil {
		return "signal"
	}
	if ch.isOp("nonnil:ctx.done") {
		for k := range sig {
			if k.isOp("nonnil:ctx.done") && st.norm(k.Args[0]) == st.norm(ch.Args[0]) {
				return "signal"
			}
		}
		if c.within(st, ch.Args[0], g) {
			return "context"
		}
	}
	return ""
}

// serveRules: the server accepts requests until it is told to stop, and then
// finishes those in progress.
func (c *Checker) serveRules(l *life, e *Event) {
	port, bind := c.flag("--port"), c.flag("--bind")
	disabled, served := 0, 0
	for i := range e.Sub {
		r := &e.Sub[i]
		st := &r.St
		if r.Panic || r.Exit {
			c.fail("serve-start", "panic", e.Pos, "serving may panic or end the program", st)
			continue
		}
		ev := st.events()
		var sv *Event
		for _, x := range ev {
			if x.Kind == "http.serve" {
				c.must(sv == nil, "serve-start", "once", x.Pos, st, "the server is started more than once")
				sv = x
			}
			if x.Kind == "loop" {
				for _, s := range x.Loop.Steps {
					c.must(!hasEvent(s.Events, "http.serve"), "serve-start", "loop", x.Pos, &s.St, "the server is started repeatedly")
				}
			}
		}
		pos := c.posPort(st)
		if sv == nil {
			disabled++
			c.must(pos == 0, "serve-disabled", "port", e.Pos, st, "no server is started although there is a port")
			c.must(st.isNil(r.V), "serve-disabled", "result", e.Pos, st, "an instance without a server stops")
			continue
		}
		served++
		c.must(!strings.Contains(sv.Name, "TLS"), "serve-start", "plain", sv.Pos, st, "the server requires certificates")
		for _, x := range evBefore(ev, sv) {
			if kindIn(x, "signal.stop", "signal.reset") {
				c.fail("serve-signal", "reset", x.Pos, "signals are no longer handled", st)
			}
		}
		c.must(pos == 1, "serve-disabled", "zero", sv.Pos, st, "a server is started although the port is zero")
		srv := st.norm(sv.Args[0])
		v := c.deref(&sv.St, srv)
		addr := sv.St.norm(mkField2(v, "Addr"))
		s := types.Typ[types.String]
		itoa := mkOp("itoa", s, port)
		wants := []*Term{mkConcat(bind, mkStr(":"), itoa), mkOp("fn:net.JoinHostPort", s, bind, itoa)}
		okA := false
		for _, w := range wants {
			okA = okA || addr == sv.St.norm(w)
		}
		c.must(okA || c.sameAddr(addr, bind, port), "serve-start", "address", sv.Pos, st, "the server listens on %v", addr)
		h := unIface(sv.St.norm(mkField2(v, "Handler")))
		c.must(c.isRouter(l, h), "serve-start", "handler", sv.Pos, st, "requests are not answered by the router (%v)", h)
		// Termination.
		sig := c.sigChans(st, evBefore(ev, sv), "serve-signal")
		causes := map[string]bool{}
		joins := map[*Term]bool{}
		notJoin := map[*Term]bool{}
		joinable := func(w *Ret, from *Event, seen map[*Term]bool) {
			on := from == nil
			for _, x := range w.St.events() {
				if on && (x.Kind == "chan.close" || x.Kind == "chan.send") {
					seen[w.St.norm(x.Args[0])] = true
				}
				if on && x.Kind == "wg.done" {
					seen[w.St.norm(x.Args[0])] = true
				}
				on = on || x == from
			}
		}
		for _, x := range evBefore(ev, sv) {
			if x.Kind != "spawn" {
				continue
			}
			for j := range x.Sub {
				w := &x.Sub[j]
				c.watcher(l, x, w, srv, sig, causes, func(stop *Event) {
					seen := map[*Term]bool{}
					joinable(w, stop, seen)
					for k := range seen {
						joins[k] = true
					}
					for k := range joins {
						if !seen[k] {
							notJoin[k] = true
						}
					}
				})
			}
		}
		c.must(causes["signal"], "serve-stop", "signal", sv.Pos, st, "the server does not shut down after a signal")
		c.must(causes["context"], "serve-stop", "context", sv.Pos, st, "the server keeps running when another activity has failed")
		// The result.
		er := st.norm(sv.Res[0])
		closed := c.knownClosed(st, er)
		on := false
		for _, x := range ev {
			if on && x.Kind == "chan.recv" && joins[st.norm(x.Args[0])] {
				c.must(c.knownClosed(&x.St, er) == 1 || x.St.isNil(er), "serve-result", "stuck", x.Pos, st, "if the server fails, it waits for a shutdown instead of reporting the error")
			}
			on = on || x == sv
		}
		if st.isNil(r.V) {
			c.must(closed == 1 || st.isNil(er), "serve-result", "lost", sv.Pos, st, "the server stops with an error that is not reported")
			joined := false
			on := false
			for _, x := range ev {
				if on && (x.Kind == "chan.recv" || x.Kind == "wg.wait" || x.Kind == "select" && x.Name == "recv") {
					k := st.norm(x.Args[0])
					joined = joined || joins[k] && !notJoin[k]
				}
				if on && x.Kind == "group.wait" {
					joined = true
				}
				on = on || x == sv
			}
			c.must(joined, "serve-stop", "wait", sv.Pos, st, "requests in progress are not waited for")
		} else {
			c.must(wrapsErr(st, r.V, er) && closed == 0, "serve-result", "error", sv.Pos, st, "a normal shutdown is reported as an error, or another error than that of the server")
		}
	}
	c.must(served > 0, "serve-start", "can-serve", e.Pos, l.st, "no server is ever started")
	_ = disabled
}

func wrapsErr(st *State, v, er *Term) bool {
	v = st.norm(v)
	if v == er {
		return true
	}
	if strings.HasPrefix(v.Op, "errorf") {
		for _, a := range v.Args[1:] {
			if st.norm(a) == er {
				return true
			}
		}
	}
	return false
}

// knownClosed: 1 if the error is known to be http.ErrServerClosed, 0 if known not to.
func (c *Checker) knownClosed(st *State, er *Term) int {
	k := errGlobal("net/http.ErrServerClosed")
	for _, t := range []*Term{mkEq(er, k), mkOp("errIs", types.Typ[types.Bool], er, k)} {
		if v := st.known(t); v >= 0 {
			return v
		}
	}
	return -1
}

func evBefore(ev []*Event, e *Event) []*Event {
	for i, x := range ev {
		if x == e {
			return ev[:i]
		}
	}
	return ev
}

// sameAddr: the text is the address followed by a colon and the port.
func (c *Checker) sameAddr(addr, bind, port *Term) bool {
	return addr == mkConcat(bind, mkStr(":"), mkOp("itoa", types.Typ[types.String], port))
}

// isRouter: the handler is (or delegates to) the engine the routes are mounted on.
func (c *Checker) isRouter(l *life, h *Term) bool {
	for _, e := range l.ev {
		if kindIn(e, "route", "route.group", "route.use", "route.none") {
			o := ginOwner(e.Args[0])
			if o == h || strings.Contains(h.String(), o.String()) {
				return true
			}
		}
	}
	return false
}

// watcher: a goroutine that stops the server.
func (c *Checker) watcher(l *life, spawn *Event, w *Ret, srv *Term, sig map[*Term]*Event, causes map[string]bool, done func(stop *Event)) {
	st := &w.St
	why := ""
	var stop *Event
	for _, x := range st.events() {
		switch x.Kind {
		case "select", "chan.recv":
			if x.Kind == "select" && x.Name != "recv" {
				continue
			}
			if s := c.cause(st, x.Args[0], sig, l.group); s != "" && stop == nil {
				why = s
			}
		case "http.shutdown", "http.close":
			c.must(st.norm(x.Args[0]) == srv, "serve-stop", "server", x.Pos, st, "another server is stopped")
			c.must(why != "", "serve-stop", "cause", x.Pos, st, "the server is stopped for no reason")
			if why == "signal" {
				c.must(x.Kind == "http.shutdown" || stop != nil, "serve-stop", "graceful", x.Pos, st, "requests in progress are interrupted by a signal")
			}
			if x.Kind == "http.shutdown" {
				ctx := st.norm(x.Args[1])
				c.must(ctx.isOp("nonnil:ctx.bg") || ctx.isOp("nonnil:ctx.without"), "serve-stop", "patience", x.Pos, st, "requests in progress may be interrupted when the context %v ends", ctx)
			}
			if stop == nil {
				stop = x
			}
		}
	}
	if stop == nil {
		c.must(why == "", "serve-stop", "ignored", spawn.Pos, st, "a reason to stop (%s) is ignored", why)
		return
	}
	causes[why] = true
	// The last call that stops the server.
	last := stop
	for _, x := range st.events() {
		if x.Kind == "http.shutdown" || x.Kind == "http.close" {
			last = x
		}
	}
	done(last)
}
