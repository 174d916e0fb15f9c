package main

// Rules over subscriptions (C23).

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// subHook: polling and committing, which are decided on their own.
func subHook(pkg, name string) Model {
	if pkg != modPath {
		return nil
	}
	switch name {
	case "Poll":
		return func(c *CallCtx) []Ret {
			if len(c.args) == 0 || types.TypeString(derefType(c.args[0].T), nil) != modPath+".Client" {
				return nil
			}
			return okFail(c, "sub.poll", func(st *State) *Term {
				v := c.x.sym("polled", c.resT(0))
				st.assume(mkIsNil(v), false)
				return v
			})
		}
	case "Commit":
		return func(c *CallCtx) []Ret { return errOnly(c, "sub.commit") }
	}
	return nil
}

func (c *Checker) subscribe() []Ret {
	if r, ok := c.cache["Client.Subscribe"]; ok {
		c.entries["Client.Subscribe"] = len(r)
		return r
	}
	c.x.hook = subHook
	defer func() { c.x.hook = nil }()
	return c.explore("Client.Subscribe", c.x.prog.method(modPath, "Client", "Subscribe"), nil)
}

func (c *Checker) dumpSub() { c.dumpRets(c.subscribe()) }

func (c *Checker) dumpRets(rets []Ret) {
	var p func(ind string, ev []*Event)
	ret := func(ind string, i int, r Ret) {
		fmt.Printf("%s== outcome %d panic=%v %v\n", ind, i, r.Panic, r.V)
	}
	p = func(ind string, ev []*Event) {
		for _, e := range ev {
			fmt.Printf("%s%-12s %s %v -> %v [%s] %v\n", ind, e.Kind, e.Name, e.Args, e.Res, c.x.prog.pos(e.Pos), e.Tag)
			if e.Loop != nil {
				for _, v := range append(append([]LoopVar{}, e.Loop.Phis...), e.Loop.Cells...) {
					fmt.Printf("%s    var %s %v init %v\n", ind, v.Name, v.Sym, v.Init)
				}
				for i, s := range e.Loop.Steps {
					fmt.Printf("%s    -- step %d next %v %v\n", ind, i, s.Next, s.NextC)
					p(ind+"        ", s.Events)
				}
			}
			for i, r := range e.Sub {
				ret(ind+"    sub", i, r)
				p(ind+"        ", r.St.events())
			}
		}
	}
	for i, r := range rets {
		ret("", i, r)
		for _, l := range r.St.facts.list {
			fmt.Printf("   fact %v = %v\n", l.t, l.truth)
		}
		p("   ", r.St.events())
	}
	fmt.Println(c.x.notes, c.x.limit)
}

// subSpec holds what the options of a subscription prescribe.
type subSpec struct {
	ctx, opts, f, recv *Term
	ov                 *Term
}

func (c *Checker) subscribeRules() {
	fn := c.x.prog.method(modPath, "Client", "Subscribe")
	rets := c.subscribe()
	if fn == nil {
		return
	}
	sp := &subSpec{recv: c.param(fn, 0), ctx: c.param(fn, 1), opts: c.param(fn, 2), f: c.param(fn, 3)}
	sp.ov = pristine(sp.opts)
	for i := range rets {
		r := &rets[i]
		st := &r.St
		if r.Panic || r.Exit {
			c.fail("sub-wait", "panic", fn.Pos(), "subscribing may panic", st)
			continue
		}
		ev := st.events()
		var g, w *Event
		for _, e := range ev {
			switch e.Kind {
			case "group.new":
				c.must(g == nil, "sub-wait", "group", e.Pos, st, "more than one group of workers is created")
				g = e
			case "group.wait":
				w = e
			}
		}
		if !c.must(g != nil && st.norm(g.Args[0]) == sp.ctx, "sub-wait", "context", fn.Pos(), st, "the workers do not stop with the context of the caller") {
			continue
		}
		c.must(w != nil && st.norm(w.Args[0]) == st.norm(g.Res[0]), "sub-wait", "wait", fn.Pos(), st, "the call returns without waiting for the workers")
		c.must(w != nil && st.norm(r.V) == st.norm(opErr(w)), "sub-wait", "result", fn.Pos(), st, "the result is not the error of the workers")
		c.subWorkers(sp, st, ev, g, w)
	}
	for r, n := range map[string]int{"sub-wait": 90, "sub-workers": 60, "sub-start": 30, "sub-poll": 100, "sub-token": 200, "sub-handler": 100, "sub-commit": 60, "sub-interval": 100, "sub-cancel": 200, "sub-stop": 30} {
		c.atLeast(r, n)
	}
}

// subWorkers: as many workers as prescribed are started, at least one.
func (c *Checker) subWorkers(sp *subSpec, st *State, ev []*Event, g, w *Event) {
	conc := mkField2(sp.ov, "Concurrency")
	atLeast1 := st.known(mkGe0(toLin(conc).add(toLin(mkInt(1)), -1)))
	// One worker is right for one and for less.
	few := atLeast1 == 0 || st.isFalse(mkGe0(toLin(conc).add(toLin(mkInt(2)), -1)))
	var single, total int
	ok, one := true, true
	for _, e := range ev {
		if e == w {
			break
		}
		if e.Kind == "spawn" {
			single++
			total++
			c.subWorker(sp, st, e, g, mkInt(0), nil)
		}
		if e.Loop == nil {
			continue
		}
		spawns := false
		for _, s := range e.Loop.Steps {
			n := 0
			for _, se := range s.Events {
				if se.Kind == "spawn" {
					n++
					c.subWorker(sp, &s.St, se, g, nil, &loopAt{e.Loop, s})
				}
				spawns = spawns || se.Kind == "spawn"
			}
			if len(e.Loop.Steps) > 0 && spawns {
				c.must(n == 1, "sub-workers", "each", e.Pos, &s.St, "one iteration starts %d workers", n)
			}
		}
		if spawns {
			total++
			two := mkGe0(toLin(conc).add(toLin(mkInt(2)), -1))
			ok = ok && c.loopRuns(st, e.Loop, conc, func(s *State) bool {
				return s.isFalse(mkGe0(toLin(conc).add(toLin(mkInt(1)), -1))) || st.isTrue(two) && s.isFalse(two)
			})
			one = one && c.loopRuns(st, e.Loop, mkInt(1), func(s *State) bool { return s.isTrue(two) })
		}
	}
	pos := g.Pos
	switch {
	case atLeast1 == 1 && total == 1 && single == 0:
		c.must(ok, "sub-workers", "number", pos, st, "the number of workers is not the concurrency")
	case atLeast1 == 1:
		v := st.norm(conc)
		n, isC := v.intConst()
		c.must(isC && total == single && n == int64(single), "sub-workers", "number", pos, st, "%d workers are started regardless of the concurrency", total)
	case atLeast1 == 0 && total == 1 && single == 1, few && total == 1 && single == 1:
		c.ok("sub-workers")
	case few && total == 1 && one:
		c.ok("sub-workers")
	default:
		c.fail("sub-workers", "number", pos, fmt.Sprintf("the number of workers is not the concurrency, or one if that is not positive (%d)", total), st)
	}
}

type loopAt struct {
	l *Loop
	s *Step
}

// loopRuns: the loop is known to run n times when it is left in st.
// Steps in which other is true belong to other values of the options.
func (c *Checker) loopRuns(st *State, l *Loop, n *Term, other func(s *State) bool) bool {
	for i, v := range l.Phis {
		if !isIntish(v.Sym.T) {
			continue
		}
		for _, sign := range []int64{1, -1} {
			all := len(l.Steps) > 0
			for _, s := range l.Steps {
				d := toLin(s.Next[i]).add(toLin(v.Sym), -1)
				if k, ok := d.term(v.Sym.T).intConst(); (!ok || k != sign) && !s.St.isTrue(mkEq0(d.add(lin{c: sign}, -1))) {
					all = false
				}
			}
			if !all {
				continue
			}
			d := toLin(v.Sym).add(toLin(v.Init), -1).scale(sign).add(toLin(n), -1)
			if st.known(mkEq0(d)) == 1 {
				return true
			}
			b := st.facts.bounds(d.term(types.Typ[types.Int64]))
			if b.lo == 0 && b.hi == 0 {
				return true
			}
			// Left when the number is reached, and never beyond it.
			left := func(st *State, t *Term) lin {
				return toLin(n).add(toLin(t).add(toLin(v.Init), -1).scale(sign), -1)
			}
			upto := st.isTrue(mkGe0(left(st, v.Sym).scale(-1))) && (st.isTrue(mkGe0(left(st, v.Init))) || l.Entry.isTrue(mkGe0(left(&l.Entry, v.Init))))
			for _, s := range l.Steps {
				if other != nil && other(&s.St) {
					continue
				}
				upto = upto && s.St.isTrue(mkGe0(left(&s.St, v.Sym).add(lin{c: 1}, -1)))
			}
			if upto {
				return true
			}
		}
	}
	return false
}

// orDefault: the duration is the option if that is positive, else the default.
func (c *Checker) orDefault(st *State, d *Term, opt *Term, def string) bool {
	k, ok := c.x.prog.pkg(modPath).Members[def].(*ssa.NamedConst)
	d = st.norm(d)
	pos := st.known(mkGe0(toLin(opt).add(toLin(mkInt(1)), -1)))
	if pos == 1 && d == st.norm(opt) {
		return true
	}
	n, isC := d.intConst()
	return ok && pos == 0 && isC && n == k.Value.Int64() && n > 0
}

// subWorker: one worker polls, handles and commits until the context ends.
func (c *Checker) subWorker(sp *subSpec, st *State, e *Event, g *Event, idx *Term, in *loopAt) {
	if !c.must(len(e.Sub) > 0 && (len(e.Args) < 2 || e.Args[1] == nil || e.St.norm(e.Args[1]) == e.St.norm(g.Res[0])), "sub-workers", "group", e.Pos, st, "a worker is not part of the group that is waited for") {
		return
	}
	gctx := g.Res[1]
	for i := range e.Sub {
		r := &e.Sub[i]
		ws := &r.St
		if r.Panic || r.Exit {
			c.fail("sub-stop", "panic", e.Pos, "a worker may panic", ws)
			continue
		}
		ev := ws.events()
		var tm *Event
		var seen *Event
		for _, w := range ev {
			switch {
			case w.Kind == "timer.new":
				c.must(tm == nil, "sub-start", "timer", w.Pos, ws, "a worker uses more than one timer")
				tm = w
			case w.Kind == "select" && w.Name == "recv" && c.isDone(ws, w.Args[0], sp.ctx, gctx):
				seen = w
			}
		}
		if !c.must(tm != nil, "sub-start", "timer", e.Pos, ws, "a worker does not start with a timer") {
			continue
		}
		// Workers start one after the other.
		cd := mkField2(sp.ov, "ConcurrencyDelay")
		c.must(c.startDelay(ws, tm.Args[0], cd, in), "sub-start", "delay", tm.Pos, ws, "a worker does not start after the prescribed delay (%v)", tm.Args[0])
		// They end only with the context, and with its error.
		rv := ws.norm(r.V)
		okE := false
		for _, w := range ev {
			if w.Kind == "ctx.err" && c.isCtx(ws, w.Args[0], sp.ctx, gctx) && ws.norm(w.Res[0]) == rv {
				okE = true
				if ws.known(mkIsNil(w.Res[0])) == 0 {
					seen = w
				}
			}
		}
		c.must(seen != nil && okE, "sub-stop", "error", e.Pos, ws, "a worker stops for another reason than the end of the context, or without its error")
		nl := 0
		for _, w := range ev {
			if w.Loop == nil {
				continue
			}
			nl++
			tr := &subTrack{c: c, sp: sp, gctx: gctx, timer: tm, chans: map[*Term]string{}}
			for _, s := range w.Loop.Steps {
				tr.learn(s)
			}
			for _, s := range w.Loop.Steps {
				tr.step(w, s)
			}
		}
		c.must(nl == 1, "sub-stop", "loop", e.Pos, ws, "a worker does not poll repeatedly")
	}
}

func (c *Checker) isCtx(st *State, x, ctx, gctx *Term) bool {
	x = st.norm(x)
	return x == st.norm(gctx) || x == st.norm(ctx)
}

func (c *Checker) isDone(st *State, ch, ctx, gctx *Term) bool {
	ch = st.norm(ch)
	return ch.isOp("nonnil:ctx.done") && c.isCtx(st, ch.Args[0], ctx, gctx)
}

func (c *Checker) startDelay(st *State, d, cd *Term, in *loopAt) bool {
	d = st.norm(d)
	if in == nil {
		n, ok := d.intConst()
		return ok && n == 0
	}
	want := func(i *Term) bool {
		// The first worker starts at once.
		if n, ok := d.intConst(); ok && n == 0 && st.known(mkEq0(toLin(i))) == 1 {
			return true
		}
		for _, v := range []*Term{cd} {
			for _, m := range []*Term{mkOp("*", d.T, v, i), mkOp("*", d.T, i, v)} {
				if d == st.norm(m) && st.known(mkGe0(toLin(cd).add(toLin(mkInt(1)), -1))) == 1 {
					return true
				}
			}
		}
		k, ok := c.x.prog.pkg(modPath).Members["DefaultConcurrencyDelay"].(*ssa.NamedConst)
		if !ok || k.Value.Int64() <= 0 || st.known(mkGe0(toLin(cd).add(toLin(mkInt(1)), -1))) != 0 {
			return false
		}
		return st.known(mkEq0(toLin(d).add(toLin(i).scale(k.Value.Int64()), -1))) == 1
	}
	for i, v := range in.l.Phis {
		if !isIntish(v.Sym.T) {
			continue
		}
		d1 := toLin(in.s.St.norm(in.s.Next[i])).add(toLin(in.s.St.norm(v.Sym)), -1).term(v.Sym.T)
		n0, ok0 := st.norm(v.Init).intConst()
		if k, ok := d1.intConst(); ok && k == 1 && ok0 {
			// Counting workers from zero.
			if want(toLin(v.Sym).add(toLin(mkInt(n0)), -1).term(v.Sym.T)) {
				return true
			}
		}
		// Adding up the delay.
		if ok0 && n0 == 0 && d == st.norm(v.Sym) && c.orDefault(st, d1, cd, "DefaultConcurrencyDelay") {
			return true
		}
	}
	return false
}

// subTrack follows the single token of a worker: it waits for its timer, or has
// a task or an error to handle.
type subTrack struct {
	c     *Checker
	sp    *subSpec
	gctx  *Term
	timer *Event
	chans map[*Term]string // what is sent on a channel
}

// learn finds out what the channels of the worker carry.
func (t *subTrack) learn(s *Step) {
	for _, e := range s.Events {
		if e.Kind == "chan.send" || e.Kind == "select" && e.Name == "send" {
			k := s.St.norm(e.Args[0])
			v := unIface(s.St.norm(e.Args[1]))
			what := "?"
			for _, p := range s.Events {
				if p.Kind == "sub.poll" && v == unIface(s.St.norm(p.Res[0])) {
					what = "task"
				}
				if p.Kind == "sub.poll" && v == unIface(s.St.norm(p.Res[1])) {
					what = "error"
				}
			}
			if old := t.chans[k]; old != "" && old != what {
				what = "?"
			}
			t.chans[k] = what
		}
	}
}

func (t *subTrack) step(w *Event, s *Step) {
	c, sp, st := t.c, t.sp, &s.St
	var in *Event // what the iteration waited for
	var polls, commits, calls, outs []*Event
	for _, e := range s.Events {
		switch e.Kind {
		case "select":
			all, _ := e.Tag.([]*Term)
			stop := false
			for _, ch := range all {
				stop = stop || c.isDone(st, ch, sp.ctx, t.gctx)
			}
			if sel, ok := e.Site.(*ssa.Select); ok && !sel.Blocking && stop && len(all) == 1 {
				continue // tells whether the context has ended
			}
			c.must(stop, "sub-cancel", "select", e.Pos, st, "a worker waits without regard to the end of the context")
			c.must(e.Name != "default", "sub-cancel", "busy", e.Pos, st, "a worker does not wait")
			if e.Name == "recv" {
				c.must(in == nil, "sub-token", "waits", e.Pos, st, "a worker waits twice in one iteration")
				in = e
			} else if e.Name == "send" {
				outs = append(outs, e)
			}
		case "chan.recv":
			c.fail("sub-cancel", "recv", e.Pos, "a worker waits without regard to the end of the context", st)
			in = e
		case "sleep":
			c.fail("sub-cancel", "sleep", e.Pos, "a worker sleeps without regard to the end of the context", st)
		case "chan.send":
			outs = append(outs, e)
		case "timer.reset":
			c.must(st.norm(e.Args[0]) == st.norm(t.timer.Res[0]), "sub-token", "timer", e.Pos, st, "another timer than that of the worker is set")
			outs = append(outs, e)
		case "timer.stop":
			c.fail("sub-token", "stop", e.Pos, "the timer of a running worker is stopped", st)
		case "sub.poll":
			polls = append(polls, e)
		case "sub.commit":
			commits = append(commits, e)
		case "dyncall":
			if st.norm(e.Args[0]) == sp.f {
				calls = append(calls, e)
			}
		case "spawn":
			c.fail("sub-handler", "concurrent", e.Pos, "a worker handles more than one task at a time", st)
		case "loop":
			for _, q := range e.Loop.Steps {
				for _, x := range q.Events {
					if kindIn(x, "sub.poll", "sub.commit", "dyncall", "timer.reset", "chan.send") {
						c.fail("sub-token", "repeat", x.Pos, "a worker may poll, handle or commit repeatedly in one iteration", &q.St)
					}
				}
			}
		}
	}
	if in == nil {
		c.fail("sub-token", "waits", w.Pos, "a worker runs without waiting", st)
		return
	}
	// What is to be handled.
	var task, err *Term
	ch := st.norm(in.Args[0])
	switch {
	case c.isDone(st, ch, sp.ctx, t.gctx):
		c.fail("sub-stop", "continue", in.Pos, "a worker continues after the end of the context", st)
		return
	case ch == st.norm(t.timer.Res[1]):
		if !c.must(len(polls) == 1, "sub-poll", "once", in.Pos, st, "%d polls are made at a time", len(polls)) {
			return
		}
		p := polls[0]
		t.pollArgs(st, p)
		if opFailed(st, p) {
			err = st.norm(p.Res[1])
		} else {
			task = st.norm(p.Res[0])
		}
	default:
		c.must(len(polls) == 0, "sub-poll", "early", in.Pos, st, "a poll is made although the last result has not been handled")
		switch t.chans[ch] {
		case "task":
			task = st.norm(in.Res[0])
		case "error":
			err = st.norm(in.Res[0])
		default:
			c.fail("sub-token", "channel", in.Pos, "a worker waits for a channel that delivers neither tasks nor errors", st)
			return
		}
	}
	// Passed on to be handled by a later iteration.
	if len(outs) == 1 && (outs[0].Kind == "chan.send" || outs[0].Kind == "select") && len(polls) == 1 {
		o := outs[0]
		v := unIface(st.norm(o.Args[1]))
		k := st.norm(o.Args[0])
		c.must(task != nil && v == unIface(task) && t.chans[k] == "task" || err != nil && v == unIface(err) && t.chans[k] == "error", "sub-token", "lost", o.Pos, st, "the result of a poll is not what is passed on")
		c.must(len(calls)+len(commits) == 0, "sub-handler", "twice", o.Pos, st, "a result is handled and passed on")
		// Only a buffered channel accepts it without a receiver.
		size := int64(0)
		if k.K == KChan {
			s2 := *st
			size, _ = c.x.cell(&s2, k).Val.intConst()
		}
		c.must(size >= 1, "sub-token", "blocked", o.Pos, st, "a worker waits for itself to receive")
		return
	}
	ended, running := false, false
	for _, e := range s.Events {
		if e.Kind == "ctx.err" && c.isCtx(st, e.Args[0], sp.ctx, t.gctx) {
			ended = ended || st.notNil(e.Res[0])
			running = running || st.isNil(e.Res[0])
		}
		if sel, ok := e.Site.(*ssa.Select); ok && e.Kind == "select" && !sel.Blocking {
			ended = ended || e.Name == "recv"
			running = running || e.Name == "default"
		}
	}
	c.must(len(outs) == 1 && outs[0].Kind == "timer.reset" || len(outs) == 0 && ended, "sub-token", "lost", in.Pos, st, "a worker is not set to poll again exactly once (%d)", len(outs))
	var d *Term
	if len(outs) == 1 && outs[0].Kind == "timer.reset" {
		d = outs[0].Args[1]
	}
	nilv := func(v *Term) bool { return v.isNilConst() || st.isNil(v) }
	report := func(calls []*Event, err *Term, what string) {
		switch {
		case len(calls) == 1:
			a := calls[0].Args
			c.must(nilv(a[1]) && unIface(st.norm(a[2])) == unIface(err), "sub-handler", what, calls[0].Pos, st, "the handler is not told of the failed %s (%v)", what, a[1:])
			c.must(running, "sub-handler", what+".ended", calls[0].Pos, st, "a failed %s that may be due to the end of the context is reported", what)
		case len(calls) == 0 && ended:
			c.ok("sub-handler")
		default:
			c.fail("sub-handler", what, in.Pos, fmt.Sprintf("the handler is told of a failed %s %d times", what, len(calls)), st)
		}
		if d != nil {
			c.must(c.orDefault(st, d, mkField2(sp.ov, "ErrorInterval"), "DefaultErrorInterval"), "sub-interval", "error", outs[0].Pos, st, "the pause after a failed %s is %v", what, d)
		}
	}
	switch {
	case task != nil:
		if !c.must(len(calls) >= 1 && len(calls[0].Args) == 3 && st.norm(calls[0].Args[1]) == task && nilv(calls[0].Args[2]), "sub-handler", "task", in.Pos, st, "a claimed task is not handed to the handler") {
			return
		}
		if !c.must(len(commits) == 1 && st.norm(commits[0].Args[0]) == task, "sub-commit", "once", in.Pos, st, "a handled task is committed %d times", len(commits)) {
			return
		}
		c.must(precedes(s.Events, calls[0], commits[0]), "sub-commit", "order", commits[0].Pos, st, "the task is committed before it is handled")
		if opFailed(st, commits[0]) {
			report(calls[1:], st.norm(opErr(commits[0])), "commit")
			return
		}
		c.must(len(calls) == 1, "sub-handler", "task-twice", in.Pos, st, "the handler is called %d times for one task", len(calls))
		if d != nil {
			pi := st.norm(mkField2(sp.ov, "PollInterval"))
			n, isC := st.norm(d).intConst()
			c.must(st.norm(d) == pi || isC && n == 0 && st.isFalse(mkGe0(toLin(pi).add(toLin(mkInt(1)), -1))), "sub-interval", "poll", outs[0].Pos, st, "the pause after a success is %v", d)
		}
	case err != nil:
		c.must(len(commits) == 0, "sub-commit", "none", in.Pos, st, "a commit is made without a task")
		nf := st.known(mkOp("errIs", types.Typ[types.Bool], err, c.sentinel("ErrNotFound")))
		switch nf {
		case 1:
			c.must(len(calls) == 0, "sub-handler", "drained", in.Pos, st, "the handler is called although there is no task")
			if d != nil {
				c.must(c.orDefault(st, d, mkField2(sp.ov, "DrainInterval"), "DefaultDrainInterval"), "sub-interval", "drain", outs[0].Pos, st, "the pause when there is no task is %v", d)
			}
		case 0:
			report(calls, err, "poll")
		default:
			if len(calls) == 0 && len(outs) == 0 && ended {
				c.ok("sub-handler")
				return
			}
			c.fail("sub-handler", "class", in.Pos, "an empty topic is not told from a failure", st)
		}
	}
}

func precedes(ev []*Event, a, b *Event) bool {
	for _, e := range ev {
		if e == a {
			return true
		}
		if e == b {
			return false
		}
	}
	return false
}

// pollArgs: the poll claims for the subscribed topic with the given promise.
func (t *subTrack) pollArgs(st *State, p *Event) {
	c, sp := t.c, t.sp
	es := &p.St
	c.must(es.norm(p.Args[0]) == sp.recv, "sub-poll", "client", p.Pos, st, "another client polls")
	c.must(c.isCtx(es, p.Args[1], sp.ctx, t.gctx), "sub-poll", "context", p.Pos, st, "the poll does not end with the context")
	c.must(c.sameVal(es, p.Args[2], mkField2(sp.ov, "Topic")), "sub-poll", "topic", p.Pos, st, "another topic is polled (%v)", p.Args[2])
	v := c.deref(es, p.Args[3])
	T := c.x.prog.typeNamed(modPath, "Promise")
	n := structOf(T)
	pv := pristine(mkField2(sp.ov, "Promise"))
	if !c.must(v.T != nil && types.Identical(v.T, T), "sub-poll", "promise", p.Pos, st, "the poll makes no promise (%v)", v) {
		return
	}
	for i := 0; i < n.NumFields(); i++ {
		f := n.Field(i).Name()
		want := c.x.zero(n.Field(i).Type())
		if f == "Consumer" || f == "Timeout" {
			want = mkField(pv, i)
		}
		c.must(c.sameVal(es, mkField(v, i), want), "sub-poll", "promise."+f, p.Pos, st, "field %s of the promise is %v", f, es.norm(mkField(v, i)))
	}
}
