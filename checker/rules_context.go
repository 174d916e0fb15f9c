package main

// Rules over the translation of errors (C21) and the workflow context (C22).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errorTranslation: errors survive the translation to a response and back.
func (c *Checker) errorTranslation() {
	pk := c.x.prog.pkg(modPath)
	// The sentinel errors are told apart.
	seen := map[*Term]string{}
	for _, s := range sentinels {
		t := c.sentinel(s)
		if !c.must(t != nil, "error-sentinel", s, 0, nil, "error %s not found", s) {
			continue
		}
		c.must(seen[t] == "", "error-sentinel", s, 0, nil, "%s is the same error as %s", s, seen[t])
		for u, n := range seen {
			st := c.x.base
			a := st.known(mkOp("errIs", types.Typ[types.Bool], t, u)) == 1 || st.known(mkOp("errIs", types.Typ[types.Bool], u, t)) == 1
			c.must(!a, "error-sentinel", s, 0, nil, "%s cannot be told from %s", s, n)
		}
		seen[t] = s
	}
	// To a response.
	fn := pk.Func("NewError")
	rets := c.explore("NewError", fn, func(st *State, args []*Term) { st.assume(mkIsNil(args[0]), false) })
	if fn == nil {
		return
	}
	err := c.param(fn, 0)
	var cov = map[string]bool{}
	for i := range rets {
		r := &rets[i]
		st := &r.St
		if r.Panic || r.Exit {
			c.fail("error-encode", "panic", fn.Pos(), "translating an error may panic", st)
			continue
		}
		v := c.deref(st, r.V)
		obj := tagged(v, "json", "error")
		cd, msg := tagged(obj, "json", "code"), tagged(obj, "json", "message")
		if !c.must(cd != nil && msg != nil, "error-encode", "fields", fn.Pos(), st, "the code or the message is not part of the response") {
			continue
		}
		c.must(st.norm(msg) == mkOp("errtext", types.Typ[types.String], err) || st.norm(msg) == st.norm(c.errText(st, err)), "error-encode", "message", fn.Pos(), st, "the message is not the text of the error (%v)", st.norm(msg))
		k, ok := st.norm(cd).intConst()
		if !c.must(ok && statusClass[k] != "", "error-encode", "code", fn.Pos(), st, "the code %v of an error response is not documented", st.norm(cd)) {
			continue
		}
		cl := statusClass[k]
		cov[cl] = true
		is := func(t *Term) int { return st.known(mkOp("errIs", types.Typ[types.Bool], err, t)) }
		if cl != "ErrInternalServerError" {
			just := is(c.sentinel(cl)) == 1
			if cl == "ErrClientClosedRequest" {
				just = just || is(errGlobal("context.Canceled")) == 1 || is(errGlobal("io.ErrUnexpectedEOF")) == 1
			}
			c.must(just, "error-encode", cl, fn.Pos(), st, "an error that is not %s gets code %d", cl, k)
		} else {
			for _, s := range sentinels {
				if s != cl {
					c.must(is(c.sentinel(s)) == 0, "error-encode", s, fn.Pos(), st, "%s may be reported as an internal error", s)
				}
			}
			c.must(is(errGlobal("context.Canceled")) == 0, "error-encode", "Canceled", fn.Pos(), st, "a cancelled request may be reported as an internal error")
		}
	}
	for _, s := range sentinels {
		c.must(cov[s], "error-encode", s+".never", fn.Pos(), nil, "no error is reported with the code of %s", s)
	}
	// And back.
	m := c.x.prog.method(modPath, "Error", "Err")
	back := c.method(modPath, "Error", "Err")
	if m == nil {
		return
	}
	e := c.param(m, 0)
	obj := tagged(pristine(e), "json", "error")
	cd, msg := tagged(obj, "json", "code"), tagged(obj, "json", "message")
	for i := range back {
		r := &back[i]
		if r.Panic || r.Exit {
			c.fail("error-decode", "panic", m.Pos(), "translating a response may panic", &r.St)
			continue
		}
		c.errFromCode(&r.St, "error-decode", "Err", m.Pos(), cd, msg, r.V)
	}
	c.atLeast("error-sentinel", 12)
	c.atLeast("error-encode", 20)
	c.atLeast("error-decode", 15)
}

// ---- the workflow context --------------------------------------------------------

// ctxRun is a sequence of method calls on a context obtained by polling.
type ctxRun struct {
	c     *Checker
	ret   Ret
	obj   *Term // pointer to the context
	names []string
}

func (c *Checker) ctxCall(s ctxRun, name string, args ...*Term) []ctxRun {
	fn := c.x.prog.method(modPath, "Context", name)
	if fn == nil {
		c.fail("entry", "Context."+name, 0, "exported method not found", nil)
		return nil
	}
	c.x.paths = 0
	outs := c.x.callFn(s.ret.St, fn, append([]*Term{s.obj}, args...), nil, nil, nil)
	c.limits("Context."+name, fn.Pos())
	c.entries["Context."+name] = len(outs)
	var rs []ctxRun
	for _, o := range outs {
		rs = append(rs, ctxRun{c, o, s.obj, append(append([]string{}, s.names...), name)})
	}
	return rs
}

// setterSpec: the fields of the commit a method changes, and to what.
type setterSpec struct {
	name string
	want map[string]func(args []*Term) *Term
}

func (c *Checker) setters() []setterSpec {
	arg := func(i int) func([]*Term) *Term { return func(a []*Term) *Term { return a[i] } }
	state := func(n string) func([]*Term) *Term {
		return func([]*Term) *Term {
			return mkConst(constInt(c.stateConst(n)), c.x.prog.typeNamed(modPath, "TaskState"))
		}
	}
	type m = map[string]func([]*Term) *Term
	empty := func([]*Term) *Term { return mkStr("") }
	return []setterSpec{
		{"SetNonce", m{"Nonce": arg(0)}},
		{"SetTopic", m{"Topic": arg(0)}},
		{"SetState", m{"State": arg(0)}},
		{"SetScheduled", m{"Scheduled": arg(0)}},
		{"SetPayload", m{"Payload": arg(0)}},
		{"SetDefer", m{"Defer": arg(0)}},
		{"Force", m{"Nonce": empty}},
		{"Abstain", m{"State": state("TaskStatePending")}},
		{"Archive", m{"State": state("TaskStateArchived")}},
		{"Reschedule", m{"State": state("TaskStatePending"), "Scheduled": arg(0)}},
		{"Retry", m{"State": state("TaskStatePending"), "Defer": arg(0)}},
	}
}

// polled lists the contexts that polling may return.
func (c *Checker) polled(rule string) (runs []ctxRun, fn *ssa.Function) {
	fn = c.x.prog.method(modPath, "Client", "Poll")
	for _, r := range c.method(modPath, "Client", "Poll") {
		if r.Panic || r.Exit {
			c.fail(rule, "Poll.panic", fn.Pos(), "polling may panic", &r.St)
			continue
		}
		st := &r.St
		er := st.norm(r.res(1))
		c.trusting(st, rule, "Poll")
		if !st.isNil(er) {
			c.must(st.notNil(er) && st.isNil(r.res(0)), rule, "Poll.error", fn.Pos(), st, "a failed poll returns a context or no error")
			continue
		}
		if !c.must(st.notNil(r.res(0)), rule, "Poll.nil", fn.Pos(), st, "a successful poll returns no context") {
			continue
		}
		runs = append(runs, ctxRun{c, r, st.norm(r.res(0)), []string{"Poll"}})
	}
	c.must(len(runs) > 0, rule, "Poll.can-succeed", fn.Pos(), nil, "no poll can succeed")
	return
}

func (c *Checker) contextRules() {
	runs, fn := c.polled("context-poll")
	if fn == nil {
		return
	}
	for _, s := range runs {
		c.polledContext(s, fn)
		st := &s.ret.St
		task := st.norm(mkField2(c.deref(st, s.obj), "Task"))
		tv := c.deref(st, task)
		def := map[string]*Term{
			"Nonce": mkField2(tv, "Nonce"),
			"State": mkConst(constInt(c.stateConst("TaskStateCompleted")), c.x.prog.typeNamed(modPath, "TaskState")),
		}
		// Defaults.
		c.commitSends(s, task, def, "default")
		// Each method changes what it is documented to change.
		all := s
		allWant := copyWant(def)
		for _, sp := range c.setters() {
			f := c.x.prog.method(modPath, "Context", sp.name)
			var args []*Term
			for i := 1; f != nil && i < len(f.Params); i++ {
				args = append(args, c.x.named("arg:"+sp.name, f.Params[i].Type()))
			}
			apply := func(s ctxRun, base map[string]*Term) (ctxRun, map[string]*Term, bool) {
				rs := c.ctxCall(s, sp.name, args...)
				if !c.must(len(rs) == 1 && !rs[0].ret.Panic, "context-setter", sp.name, fPos(f), &s.ret.St, "%s has more than one outcome", sp.name) {
					return s, nil, false
				}
				c.must(rs[0].ret.St.norm(rs[0].ret.V) == s.obj, "context-setter", sp.name+".chain", fPos(f), &rs[0].ret.St, "%s does not return the context", sp.name)
				w := copyWant(base)
				for k, g := range sp.want {
					w[k] = g(args)
				}
				return rs[0], w, true
			}
			if q, w, ok := apply(s, def); ok {
				c.commitSends(q, task, w, sp.name)
				// Discarded by Reset.
				for _, z := range c.ctxCall(q, "Reset") {
					c.must(z.ret.St.norm(z.ret.V) == z.obj, "context-setter", "Reset.chain", fPos(f), &z.ret.St, "Reset does not return the context")
					c.commitSends(z, task, def, sp.name+".Reset")
				}
			}
			if q, w, ok := apply(all, allWant); ok {
				all, allWant = q, w
			}
		}
		c.commitSends(all, task, allWant, "all")
		// Also when everything has been set before.
		for _, sp := range c.setters() {
			f := c.x.prog.method(modPath, "Context", sp.name)
			var args []*Term
			for i := 1; f != nil && i < len(f.Params); i++ {
				args = append(args, c.x.named("arg2:"+sp.name, f.Params[i].Type()))
			}
			for _, q := range c.ctxCall(all, sp.name, args...) {
				w := copyWant(allWant)
				for k, g := range sp.want {
					w[k] = g(args)
				}
				c.commitSends(q, task, w, "all."+sp.name)
			}
		}
	}
	// A context that was not obtained by polling cannot commit.
	T := c.x.prog.typeNamed(modPath, "Context")
	m := c.x.prog.method(modPath, "Context", "Commit")
	if T != nil && m != nil {
		st := c.x.base
		p := c.x.newObj(&st, T, c.x.zero(T), "context", m.Pos())
		for _, o := range c.x.callFn(st, m, []*Term{p}, nil, nil, nil) {
			c.must(!o.Panic && o.St.notNil(o.V) && !hasEvent(o.St.events(), "http.do"), "context-detached", "Commit", m.Pos(), &o.St, "a context without a task can be committed")
		}
	}
	c.atLeast("context-poll", 10)
	c.atLeast("context-setter", 60)
	c.atLeast("context-commit", 500)
	c.atLeast("context-once", 6)
	c.atLeast("context-retry", 6)
	c.atLeast("context-timeout", 3)
	c.atLeast("context-detached", 1)
}

func fPos(f *ssa.Function) token.Pos {
	if f == nil {
		return 0
	}
	return f.Pos()
}

func copyWant(m map[string]*Term) map[string]*Term {
	r := map[string]*Term{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func hasEvent(ev []*Event, kind string) bool {
	for _, e := range ev {
		if e.Kind == kind {
			return true
		}
	}
	return false
}

// polledContext: the task is the one claimed, and the deadline is the time left.
func (c *Checker) polledContext(s ctxRun, fn *ssa.Function) {
	st := &s.ret.St
	xv := c.deref(st, s.obj)
	task := st.norm(mkField2(xv, "Task"))
	var dec *Event
	var do *Event
	for _, e := range st.events() {
		if kindIn(e, "json.decode", "json.unmarshal") && !opFailed(st, e) {
			dec = e
		}
		if e.Kind == "http.do" {
			do = e
		}
	}
	if !c.must(dec != nil && do != nil && st.notNil(task), "context-poll", "Poll.task", fn.Pos(), st, "the context has no task") {
		return
	}
	got := c.deref(st, unIface(dec.Args[1]))
	c.must(c.sameVal(st, c.deref(st, task), got) && c.allDecoded(got), "context-poll", "Poll.task", fn.Pos(), st, "the task of the context is not the one claimed")
	caller := st.norm(c.param(fn, 1))
	inner := st.norm(mkField2(xv, "Context"))
	tv := c.deref(st, task)
	for _, e := range st.events() {
		if c.cancels(st, e, inner) {
			c.fail("context-timeout", "ended", e.Pos, "the context of a task has ended when it is returned", st)
		}
	}
	cons, dl := st.norm(mkField2(tv, "Consumed")), st.norm(mkField2(tv, "Deadline"))
	var tm []*Event
	for _, e := range st.events() {
		if strings.HasPrefix(e.Kind, "ctx.") {
			tm = append(tm, e)
		}
	}
	switch {
	case st.isNil(cons) || st.isNil(dl):
		c.must(inner == caller || len(tm) == 1 && tm[0].Kind == "ctx.cancel" && inner == st.norm(tm[0].Res[0]) && st.norm(tm[0].Args[0]) == caller, "context-timeout", "none", fn.Pos(), st, "the context of a task without a deadline is not that of the caller")
	case st.notNil(cons) && st.notNil(dl):
		if !c.must(len(tm) == 1 && tm[0].Kind == "ctx.timeout" && inner == st.norm(tm[0].Res[0]), "context-timeout", "set", fn.Pos(), st, "the context of a task with a deadline does not time out") {
			return
		}
		e := tm[0]
		c.must(st.norm(e.Args[0]) == caller, "context-timeout", "parent", e.Pos, st, "the context is not derived from that of the caller")
		d := toLin(c.deref(st, dl)).add(toLin(c.deref(st, cons)), -1)
		c.must(st.norm(e.Args[1]) == st.norm(d.term(e.Args[1].T)) || st.isTrue(mkEq0(toLin(e.Args[1]).add(d, -1))), "context-timeout", "duration", e.Pos, st, "the timeout is %v, not the time from being consumed to the deadline", e.Args[1])
	default:
		c.fail("context-timeout", "unknown", fn.Pos(), "whether the task has a deadline is not examined", st)
	}
}

// commitSends: committing sends the given updates to the task, exactly once
// unless it fails.
func (c *Checker) commitSends(s ctxRun, task *Term, want map[string]*Term, where string) {
	m := c.x.prog.method(modPath, "Context", "Commit")
	if m == nil {
		return
	}
	mark := len(s.ret.St.events())
	succeeded := false
	for _, q := range c.ctxCall(s, "Commit") {
		st := &q.ret.St
		if q.ret.Panic || q.ret.Exit {
			c.fail("context-commit", where+".panic", m.Pos(), "committing may panic", st)
			continue
		}
		success := c.commitOnce(q, task, want, mark, where)
		// Again, which does not depend on the updates.
		succeeded = succeeded || success
		if where != "default" && where != "all" {
			continue
		}
		mark2 := len(st.events())
		again := c.ctxCall(q, "Commit")
		if success && where == "default" {
			// Nor when updates are made afterwards.
			for _, sp := range c.setters() {
				f := c.x.prog.method(modPath, "Context", sp.name)
				var args []*Term
				for i := 1; f != nil && i < len(f.Params); i++ {
					args = append(args, c.x.named("late:"+sp.name, f.Params[i].Type()))
				}
				for _, u := range c.ctxCall(q, sp.name, args...) {
					again = append(again, c.ctxCall(u, "Commit")...)
				}
			}
			for _, u := range c.ctxCall(q, "Reset") {
				again = append(again, c.ctxCall(u, "Commit")...)
			}
		}
		sent := 0
		for _, z := range again {
			if z.ret.Panic || z.ret.Exit {
				c.fail("context-commit", where+".panic", m.Pos(), "committing again may panic", &z.ret.St)
				continue
			}
			if success {
				c.must(!hasEvent(z.ret.St.events()[mark2:], "http.do") && z.ret.St.isNil(z.ret.V), "context-once", where, m.Pos(), &z.ret.St, "committing again after a success is not a success without a request")
				continue
			}
			if hasEvent(z.ret.St.events()[mark2:], "http.do") {
				sent++
				c.commitOnce(z, task, want, mark2, where+".again")
			}
		}
		if !success {
			c.must(sent > 0 || !hasEvent(st.events()[mark:], "http.do"), "context-retry", where, m.Pos(), st, "a commit that failed cannot be repeated")
		}
	}
	c.must(succeeded, "context-commit", where+".can-succeed", m.Pos(), &s.ret.St, "no commit can succeed")
}

// cancels: the event ends the given context.
func (c *Checker) cancels(st *State, e *Event, ctx *Term) bool {
	return e.Kind == "dyncall" && len(e.Args) > 0 && e.Args[0].isOp("nonnil:cancel") && st.norm(e.Args[0].Args[0]) == ctx
}

// commitOnce checks one call of Commit; it tells whether it succeeded.
func (c *Checker) commitOnce(q ctxRun, task *Term, want map[string]*Term, mark int, where string) bool {
	m := c.x.prog.method(modPath, "Context", "Commit")
	st := &q.ret.St
	ev := st.events()[mark:]
	er := st.norm(q.ret.V)
	success := st.isNil(er)
	c.must(success || st.notNil(er), "context-commit", where+".result", m.Pos(), st, "it cannot be told whether the commit succeeded")
	o := &cliOut{name: "Commit", fn: m, ret: &q.ret, st: st, ev: ev}
	for _, e := range ev {
		if e.Kind == "http.do" {
			o.sends = append(o.sends, e)
		}
		if kindIn(e, "json.marshal", "json.encode", "http.newrequest", "http.do", "json.decode", "json.unmarshal", "io.readall") && opFailed(st, e) {
			c.must(!success, "context-commit", where+"."+e.Kind, e.Pos, st, "a failure of %s is not reported", e.Name)
		}
	}
	if len(o.sends) == 0 {
		why := false
		for _, e := range ev {
			why = why || kindIn(e, "json.marshal", "json.encode", "http.newrequest") && opFailed(st, e)
		}
		why = why || c.errClass(st, er) == "ErrBadRequest"
		c.must(!success && why, "context-commit", where+".sent", m.Pos(), st, "the commit is not sent")
		return success
	}
	if !c.must(len(o.sends) == 1, "context-commit", where+".once", m.Pos(), st, "one commit sends %d requests", len(o.sends)) {
		return success
	}
	d := o.sends[0]
	var nr *Event
	for _, e := range ev {
		if e.Kind == "http.newrequest" && len(e.Res) == 2 && st.norm(e.Res[0]) == st.norm(d.Args[1]) {
			nr = e
		}
	}
	if !c.must(nr != nil, "context-commit", where+".request", d.Pos, st, "the request sent is not one that was built by this call") {
		return success
	}
	if !opFailed(st, d) {
		code := mkField2(pristine(st.norm(d.Res[0])), "StatusCode")
		if st.isTrue(mkGe0(toLin(code).add(toLin(mkInt(400)), -1))) {
			c.must(!success, "context-commit", where+".status", d.Pos, st, "a rejected commit is taken for a success")
		}
	}
	inner := st.norm(mkField2(c.deref(st, q.obj), "Context"))
	c.must(st.norm(nr.Args[0]) == inner, "context-commit", where+".ctx", nr.Pos, st, "the commit is not sent with the context of the task")
	method, _ := st.norm(nr.Args[1]).strConst()
	sg, _, _, bad := splitURL(st.norm(nr.Args[2]))
	r, params := c.matchRoute(method, sg)
	if c.must(bad == "" && r != nil, "context-commit", where+".endpoint", nr.Pos, st, "no mounted endpoint matches the request") {
		key, _ := routeKey(r.method, r.path)
		ops := apiSpecs[key].ops
		c.must(len(ops) > 0 && ops[0] == "Commit", "context-commit", where+".endpoint", nr.Pos, st, "the request reaches %s", key)
		id := mkField2(c.deref(st, task), "ID")
		c.must(len(params) == 2 && len(params[1]) == 1 && escaped(params[1][0]) != nil && c.sameVal(st, escaped(params[1][0]), id), "context-commit", where+".id", nr.Pos, st, "the commit is not applied to the task of the context")
	}
	v := c.jsonOf(o, nr.Args[3])
	if !c.must(v != nil, "context-commit", where+".body", nr.Pos, st, "the body is not the JSON encoding of a commit") {
		return success
	}
	v = unIface(st.norm(v))
	if derefType(v.T) != nil {
		es := nr.St
		v = c.deref(&es, v)
	}
	T := c.x.prog.typeNamed(modPath, "Commit")
	if !c.must(v.T != nil && types.Identical(v.T, T), "context-commit", where+".type", nr.Pos, st, "the body is not a commit (%v)", v) {
		return success
	}
	n := structOf(T)
	for i := 0; i < n.NumFields(); i++ {
		f := n.Field(i).Name()
		got := nr.St.norm(mkField(v, i))
		w := want[f]
		if w == nil {
			w = c.x.zero(n.Field(i).Type())
		} else if derefType(got.T) != nil && derefType(w.T) == nil || got.K == KAddr || got.K == KFieldAd {
			if !isTime(got.T) && derefType(got.T) != nil {
				got = c.deref(&nr.St, got)
			}
		}
		c.must(c.sameVal(&nr.St, got, w), "context-commit", where+"."+f, nr.Pos, &nr.St, "field %s of the commit is %v instead of %v", f, got, w)
	}
	// Success ends the context of the task, which is needed until then.
	stop, sent := false, false
	canc := st.norm(mkField2(c.deref(st, q.obj), "Context"))
	for _, e := range ev {
		sent = sent || e == d
		if c.cancels(st, e, canc) {
			stop = true
			c.must(sent && success, "context-cancel", where+".early", e.Pos, st, "the context of the task ends before its commit succeeds")
		}
	}
	if success {
		c.must(stop || !strings.HasPrefix(canc.Op, "nonnil:ctx."), "context-cancel", where, m.Pos(), st, "the timer of the task is not released after a successful commit")
	}
	return success
}
