package main

// Rules over background jobs (C26).

import (
	"fmt"
	"math"
	"strings"

	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (c *Checker) choreRules() {
	for _, l := range c.lives("chore-start") {
		if l.group == nil {
			continue
		}
		for _, e := range l.ev {
			if e.Kind != "spawn" {
				continue
			}
			if _, ch := spawns(e); ch {
				c.choreActivity(l, e)
			}
		}
	}
	for r, n := range map[string]int{"chore-start": 20, "chore-disabled": 8, "chore-signal": 20, "chore-tick": 40, "chore-run": 60, "chore-period": 30, "chore-delay": 20, "chore-stop": 20, "chore-metric": 30} {
		c.atLeast(r, n)
	}
}

// chores follows the background jobs of one outcome.
type chores struct {
	c        *Checker
	l        *life
	r        *Ret
	st       *State
	sig      map[*Term]*Event
	clocks   map[*Term]*Event // channel -> creation
	interval *Term
	started  bool
}

func (c *Checker) choreActivity(l *life, e *Event) {
	interval := c.flag("--chore-interval")
	for i := range e.Sub {
		r := &e.Sub[i]
		st := &r.St
		if r.Panic || r.Exit {
			c.fail("chore-stop", "panic", e.Pos, "the background jobs may panic or end the program", st)
			continue
		}
		ev := st.events()
		on := st.known(mkGe0(toLin(interval).add(toLin(mkInt(1)), -1)))
		runs := false
		var loops []*Event
		for _, x := range ev {
			runs = runs || x.Kind == "engine"
			if x.Loop != nil {
				for _, s := range x.Loop.Steps {
					for _, y := range s.Events {
						if y.Kind == "engine" {
							runs = true
							loops = append(loops, x)
						}
					}
				}
			}
		}
		if !runs {
			waits := false
			for _, x := range ev {
				waits = waits || kindIn(x, "select", "chan.recv", "sleep")
			}
			// It may stop before the first run.
			if waits && on == 1 {
				k := &chores{c: c, l: l, r: r, st: st, interval: interval}
				k.setup(ev)
				k.end(e, ev)
				continue
			}
			c.must(on == 0, "chore-disabled", "interval", e.Pos, st, "no background jobs run although there is an interval")
			c.must(st.isNil(r.V) && !waits, "chore-disabled", "result", e.Pos, st, "an instance without background jobs stops")
			continue
		}
		c.must(on == 1, "chore-disabled", "zero", e.Pos, st, "background jobs run although the interval is not positive")
		k := &chores{c: c, l: l, r: r, st: st, interval: interval}
		k.setup(ev)
		k.walk(ev)
		c.must(len(loops) > 0, "chore-run", "repeat", e.Pos, st, "background jobs do not run periodically")
		k.end(e, ev)
	}
}

func (k *chores) setup(ev []*Event) {
	k.sig = k.c.sigChans(k.st, ev, "chore-signal")
	k.clocks = map[*Term]*Event{}
	first := true
	for _, x := range ev {
		if kindIn(x, "signal.reset", "signal.stop") && len(ev) > 0 && !stopping(ev, x) {
			k.c.fail("chore-signal", "reset", x.Pos, "signals are no longer handled", k.st)
		}
		if kindIn(x, "ticker.new", "timer.new") && len(x.Res) == 2 {
			k.clocks[k.st.norm(x.Res[1])] = x
		}
		if first && (x.Kind == "select" || x.Kind == "chan.recv" || x.Loop != nil) {
			first = false
			c := k.c
			c.must(len(k.sig) > 0, "chore-signal", "early", x.Pos, k.st, "background jobs do not stop after a signal")
		}
	}
}

// goModAtLeast: the language version of the module, which decides whether
// resetting a clock discards what it has queued.
func (k *chores) goModAtLeast(major, minor int) bool {
	v := ""
	for _, p := range k.c.x.prog.pkgs {
		if p.Module != nil && p.Module.Path == modPath {
			v = p.Module.GoVersion
		}
	}
	var a, b int
	fmt.Sscanf(v, "%d.%d", &a, &b)
	return a > major || a == major && b >= minor
}

// stopping: nothing is waited for after the event.
func stopping(ev []*Event, e *Event) bool {
	on := false
	for _, x := range ev {
		if on && (kindIn(x, "select", "chan.recv", "sleep") || x.Loop != nil) {
			return false
		}
		on = on || x == e
	}
	return true
}

// segment: one piece of straight-line code, in which every run of the jobs
// follows a tick.
func (k *chores) segment(ev []*Event, st *State, loop *Event, step *Step) {
	c := k.c
	var tick *Event
	runs := 0
	for i, x := range ev {
		switch x.Kind {
		case "select":
			all, _ := x.Tag.([]*Term)
			if sel, ok := x.Site.(*ssa.Select); ok && !sel.Blocking {
				if x.Name == "recv" && loop != nil && c.cause(st, x.Args[0], k.sig, k.l.group) != "" {
					c.fail("chore-stop", "ignored", x.Pos, "a reason to stop is ignored", st)
				}
				continue
			}
			var sig, ctx bool
			for _, ch := range all {
				w := c.cause(st, ch, k.sig, k.l.group)
				sig = sig || w == "signal"
				ctx = ctx || w == "context"
			}
			c.must(sig && ctx, "chore-stop", "waiting", x.Pos, st, "background jobs wait without regard to signals or the end of the context")
			if x.Name != "recv" {
				continue
			}
			ch := st.norm(x.Args[0])
			if w := c.cause(st, ch, k.sig, k.l.group); w != "" {
				c.must(step == nil, "chore-stop", w, x.Pos, st, "background jobs go on after a %s", w)
				continue
			}
			if c.must(k.clocks[ch] != nil, "chore-tick", "clock", x.Pos, st, "background jobs wait for %v", ch) {
				c.must(tick == nil, "chore-tick", "skipped", x.Pos, st, "a tick passes without background jobs")
				tick = x
				k.period(x, ch, ev[i+1:], st, loop, step)
			}
		case "chan.recv", "sleep":
			c.fail("chore-stop", "waiting", x.Pos, "background jobs wait without regard to signals or the end of the context", st)
		case "engine":
			if !c.must(x.Name == "Chore", "chore-run", "operation", x.Pos, st, "background jobs do something else (%s)", x.Name) {
				continue
			}
			runs++
			c.must(tick != nil, "chore-run", "tick", x.Pos, st, "background jobs run without waiting for the interval")
			c.must(st.norm(x.Args[0]) == st.norm(k.l.open.Args[0]), "chore-run", "engine", x.Pos, st, "background jobs run on another engine")
			c.must(c.within(st, x.Args[1], k.l.group), "chore-run", "context", x.Pos, st, "background jobs do not end with the instance")
			k.metric(x, ev, st)
		case "spawn":
			for _, r := range x.Sub {
				c.must(!hasEvent(r.St.events(), "engine"), "chore-run", "overlap", x.Pos, st, "background jobs may run more than once at a time")
			}
		}
	}
	if tick != nil {
		c.must(runs == 1, "chore-run", "once", tick.Pos, st, "background jobs run %d times for one tick", runs)
	}
	if step != nil && loop != nil {
		c.must(tick != nil || runs == 0, "chore-tick", "missing", loop.Pos, st, "background jobs run without waiting")
	}
}

func (k *chores) walk(ev []*Event) {
	var seg []*Event
	flush := func() {
		if len(seg) > 0 {
			k.segment(seg, k.st, nil, nil)
		}
		seg = nil
	}
	for _, x := range ev {
		if x.Loop == nil {
			seg = append(seg, x)
			continue
		}
		flush()
		for _, s := range x.Loop.Steps {
			k.segment(s.Events, &s.St, x, s)
		}
	}
	flush()
}

// period: the first tick comes after the initial delay, the others after the interval.
func (k *chores) period(tick *Event, ch *Term, after []*Event, st *State, loop *Event, step *Step) {
	c := k.c
	n := k.clocks[ch]
	ticker := n.Kind == "ticker.new"
	isInt := func(t *Term) bool { return st.norm(t) == st.norm(k.interval) }
	fixed := isInt(n.Args[0])
	if !k.started && step == nil || !fixed {
		k.delay(n)
	}
	if loop != nil && !k.started && fixed {
		c.fail("chore-delay", "missing", n.Pos, "the initial delay is not observed", st)
	}
	defer func() {
		if step == nil {
			k.started = true
		}
	}()
	if step == nil {
		return
	}
	reset := 0
	var stopped *Event
	for _, x := range after {
		if kindIn(x, "ticker.stop", "timer.stop") && st.norm(x.Args[0]) == st.norm(n.Res[0]) {
			stopped = x
		}
		if kindIn(x, "ticker.reset", "timer.reset") && st.norm(x.Args[0]) == st.norm(n.Res[0]) {
			reset++
			stopped = nil
			c.must(isInt(x.Args[1]), "chore-period", "interval", x.Pos, st, "the jobs are repeated after %v instead of the interval", x.Args[1])
		}
	}
	if stopped != nil {
		c.fail("chore-period", "stopped", stopped.Pos, "the jobs are not repeated after this", st)
	}
	if ticker && !fixed {
		c.must(reset == 0 || k.goModAtLeast(1, 23), "chore-period", "stale", tick.Pos, st, "a tick queued before the period was changed makes the jobs run again at once")
	}
	if reset > 0 || ticker && fixed {
		c.ok("chore-period")
		return
	}
	if !c.must(ticker, "chore-period", "rearmed", tick.Pos, st, "the jobs are not repeated") {
		return
	}
	// A ticker that starts with another period must have been reset before.
	vars := append(append([]LoopVar{}, loop.Loop.Phis...), loop.Loop.Cells...)
	for i, v := range vars {
		if v.Init == nil || v.Init.K != KConst {
			continue
		}
		// atInit: 1 if the variable has its first value, 0 if not.
		atInit := func(st *State, t *Term) int {
			t = st.norm(t)
			if t.K == KConst {
				if t == st.norm(v.Init) {
					return 1
				}
				return 0
			}
			if b0, ok := v.Init.boolConst(); ok {
				switch {
				case st.isTrue(t) && b0, st.isFalse(t) && !b0:
					return 1
				case st.isTrue(t), st.isFalse(t):
					return 0
				}
				return -1
			}
			if k := st.known(mkEq(t, v.Init)); k >= 0 {
				return k
			}
			if b, ok := v.Init.intConst(); ok {
				if r := st.facts.bounds(t); r.lo > b || r.hi < b {
					return 0
				}
			}
			return -1
		}
		if atInit(st, v.Sym) != 0 {
			continue
		}
		good := true
		for _, s := range loop.Loop.Steps {
			var nx *Term
			if i < len(loop.Loop.Phis) {
				nx = s.Next[i]
			} else {
				nx = s.NextC[i-len(loop.Loop.Phis)]
			}
			nx = s.St.norm(nx)
			if nx == s.St.norm(v.Sym) || atInit(&s.St, nx) == 1 {
				continue
			}
			hasReset := false
			for _, x := range s.Events {
				if x.Kind == "ticker.reset" && s.St.norm(x.Args[0]) == s.St.norm(n.Res[0]) && s.St.norm(x.Args[1]) == s.St.norm(k.interval) {
					hasReset = true
				}
			}
			if !hasReset && atInit(&s.St, v.Sym) != 0 {
				good = false
			}
		}
		if good {
			c.ok("chore-period")
			return
		}
	}
	c.fail("chore-period", "initial", tick.Pos, "the jobs keep being repeated after the initial delay instead of the interval", st)
}

// delay: the first run comes after the initial delay, or a random part of it.
func (k *chores) delay(n *Event) {
	c, st := k.c, k.st
	id, rnd := c.flag("--chore-initial-delay"), c.flag("--chore-initial-random")
	s := c.shapeOf(st, n.Args[0], id)
	if !c.must(s.ok, "chore-delay", "form", n.Pos, st, "the initial delay is %v", n.Args[0]) {
		return
	}
	c.must(math.Abs(s.coef-1) < 1e-6, "chore-delay", "amount", n.Pos, st, "the initial delay is %g times what is configured", s.coef)
	c.must(s.add >= 0 && s.add <= 1e6, "chore-delay", "extra", n.Pos, st, "the initial delay is extended by %gns", s.add)
	switch st.known(rnd) {
	case 1:
		c.must(s.rand, "chore-delay", "random", n.Pos, st, "the initial delay is not random")
	case 0:
		c.must(!s.rand, "chore-delay", "fixed", n.Pos, st, "the initial delay is random")
	default:
		c.fail("chore-delay", "choice", n.Pos, "whether the initial delay is to be random is not examined", st)
	}
	if n.Kind == "ticker.new" {
		b := st.facts.bounds(n.Args[0])
		c.must(s.add >= 1 || b.lo >= 1, "chore-delay", "positive", n.Pos, st, "a ticker is created with a period of zero")
	}
}

type shape struct {
	ok   bool
	coef float64 // multiple of the configured delay
	add  float64
	rand bool
}

// shapeOf analyses an arithmetic expression of the initial delay.
func (c *Checker) shapeOf(st *State, t, id *Term) shape {
	t = st.norm(t)
	if t == st.norm(id) {
		return shape{ok: true, coef: 1}
	}
	if t.K == KConst {
		f, ok := constant.Float64Val(constant.ToFloat(t.C))
		return shape{ok: ok || constant.ToFloat(t.C).Kind() == constant.Float, add: f}
	}
	arg := func(i int) shape { return c.shapeOf(st, t.Args[i], id) }
	switch {
	case strings.HasPrefix(t.Op, "conv"):
		return arg(len(t.Args) - 1)
	case t.Op == "fn:(time.Duration).Seconds":
		s := arg(0)
		s.coef, s.add = s.coef*1e-9, s.add*1e-9
		return s
	case t.Op == "fn:(time.Duration).Nanoseconds":
		return arg(0)
	case t.Op == "+" && len(t.Args) == 2:
		a, b := arg(0), arg(1)
		return shape{a.ok && b.ok, a.coef + b.coef, a.add + b.add, a.rand || b.rand}
	case t.Op == "*" && len(t.Args) == 2:
		a, b := arg(0), arg(1)
		return shape{a.ok && b.ok && (a.coef == 0 || b.coef == 0) && !(a.rand && b.rand), a.coef*b.add + b.coef*a.add, a.add * b.add, a.rand || b.rand}
	case t.Op == "/" && len(t.Args) == 2:
		a, b := arg(0), arg(1)
		return shape{a.ok && b.ok && b.coef == 0 && !b.rand && b.add != 0, a.coef / b.add, a.add / b.add, a.rand}
	}
	if (strings.Contains(t.Op, ").Float64") || strings.Contains(t.Op, "rand.Float64")) && t.T != nil && types.Identical(t.T, types.Typ[types.Float64]) {
		return shape{ok: true, add: 1, rand: true} // a factor below one
	}
	if l := toLin(t); t.T != nil && isIntish(t.T) {
		s := shape{ok: true}
		if _, self := l.m[t]; self || len(l.m) == 0 && l.c == 0 {
			return shape{}
		}
		s.add = float64(l.c)
		for x, k := range l.m {
			a := c.shapeOf(st, x, id)
			s.ok = s.ok && a.ok
			s.coef += a.coef * float64(k)
			s.add += a.add * float64(k)
			s.rand = s.rand || a.rand
		}
		return s
	}
	return shape{}
}

// metric: the duration of every run is observed.
func (k *chores) metric(run *Event, ev []*Event, st *State) {
	c := k.c
	n := 0
	on := false
	for _, e := range ev {
		if on && e.Kind == "engine" {
			break
		}
		on = on || e == run
		if e.Kind != "prom" {
			continue
		}
		name, _, _, ok := c.metricOf(&e.St, e.Args[0])
		if !ok || name != mChore || e.Name != "Observe" {
			continue
		}
		c.must(c.x.promReg[unIface(e.St.norm(e.Args[0]))], "chore-metric", "registered", e.Pos, st, "the duration of the jobs is not registered with the registry that is reported")
		c.must(on, "chore-metric", "early", e.Pos, st, "the duration of the jobs is observed before they have run")
		n++
		l, ok := seconds(st.norm(e.Args[1]))
		if !c.must(ok, "chore-metric", "unit", e.Pos, st, "the duration of the jobs is observed as %v", e.Args[1]) {
			continue
		}
		// From a reading of the clock before to one after.
		before, after := false, false
		past := false
		for _, x := range ev {
			past = past || x == run
			if x.Kind == "time.now" && len(x.Res) == 1 {
				switch l.m[st.norm(x.Res[0])] {
				case -1:
					before = !past
				case 1:
					after = past
				}
			}
		}
		c.must(before && after && len(l.m) == 2 && l.c == 0, "chore-metric", "value", e.Pos, st, "the duration observed is not that of the jobs (%v)", e.Args[1])
	}
	c.must(n == 1, "chore-metric", "once", run.Pos, st, "the duration of the jobs is observed %d times", n)
}

// end: the activity ends only for a reason, and reports it.
func (k *chores) end(e *Event, ev []*Event) {
	c, st := k.c, k.st
	why := ""
	var last *Event
	for _, x := range ev {
		if x.Kind == "select" && x.Name == "recv" || x.Kind == "chan.recv" {
			if w := c.cause(st, x.Args[0], k.sig, k.l.group); w != "" {
				why, last = w, x
			}
		}
	}
	rv := st.norm(k.r.V)
	if why == "" {
		for _, x := range ev {
			if x.Kind == "ctx.err" && c.within(st, x.Args[0], k.l.group) && st.notNil(x.Res[0]) {
				why, last = "context", x
			}
		}
	}
	switch why {
	case "signal":
		c.must(st.isNil(rv), "chore-stop", "graceful", last.Pos, st, "a graceful shutdown is reported as an error")
	case "context":
		okE := false
		for _, x := range ev {
			if x.Kind == "ctx.err" && c.within(st, x.Args[0], k.l.group) && st.norm(x.Res[0]) == rv {
				okE = true
			}
		}
		// The group keeps the first error, which is that of the other activity.
		c.must(okE || st.isNil(rv), "chore-stop", "error", last.Pos, st, "background jobs end with another error than that of the context")
	default:
		c.fail("chore-stop", "reason", e.Pos, fmt.Sprintf("background jobs stop without a reason (%v)", rv), st)
	}
}
