package main

// Responses, routes, metrics and health of the HTTP API.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

var jsonResponses = map[string]bool{"JSON": true, "IndentedJSON": true, "PureJSON": true, "AsciiJSON": true, "AbortWithStatusJSON": true, "AbortWithStatusPureJSON": true}

func respName(e *Event) string {
	return e.Name[strings.LastIndexByte(e.Name, '.')+1:]
}

func (c *Checker) status(st *State, e *Event) (int64, bool) {
	t, _ := e.Tag.(*Term)
	if t == nil {
		return 0, false
	}
	return st.norm(t).intConst()
}

// errStatus: the status codes of the error classes.
func (c *Checker) errStatuses() (out []struct {
	t *Term
	n int64
}) {
	add := func(t *Term, n int64) {
		if t != nil {
			out = append(out, struct {
				t *Term
				n int64
			}{t, n})
		}
	}
	add(errGlobal("context.Canceled"), 499)
	add(errGlobal("io.ErrUnexpectedEOF"), 499)
	add(c.sentinel("ErrClientClosedRequest"), 499)
	add(c.sentinel("ErrBadRequest"), 400)
	add(c.sentinel("ErrNotFound"), 404)
	add(c.sentinel("ErrConflict"), 409)
	add(c.sentinel("ErrServiceUnavailable"), 503)
	return
}

// statusFits: the status code of a response to an error agrees with its class.
func (c *Checker) statusFits(st *State, er *Term, s int64) bool {
	cls := c.errStatuses()
	if s == 500 {
		for _, k := range cls {
			if !st.isFalse(mkOp("errIs", types.Typ[types.Bool], er, k.t)) {
				return false
			}
		}
		return true
	}
	for _, k := range cls {
		if k.n == s && st.isTrue(mkOp("errIs", types.Typ[types.Bool], er, k.t)) {
			return true
		}
	}
	return false
}

// errorBody: the response is an error message with the same code as the status.
func (c *Checker) errorBody(o *apiOut, e *Event, s int64, er *Term) {
	st := &e.St
	if !c.must(jsonResponses[respName(e)] && len(e.Args) == 3, "http-error-body", o.where, e.Pos, st, "an error must be reported in JSON") {
		return
	}
	b := unIface(st.norm(e.Args[2]))
	if derefType(b.T) != nil {
		b = c.deref(st, b)
	}
	info := mkField2(b, "Error")
	code, ok := st.norm(mkField2(info, "Code")).intConst()
	c.must(ok && code == s, "http-error-body", o.where+" code", e.Pos, st, "the code in the error message must be the status code %d (value %v)", s, mkField2(info, "Code"))
	m := st.norm(mkField2(info, "Message"))
	txt, isC := m.strConst()
	told := er != nil && containsTerm(m, st.norm(er))
	if er != nil && isC {
		if n := st.norm(er); n.isOp("errnew") {
			base, _ := n.Args[0].strConst()
			told = strings.Contains(txt, base)
		}
	}
	c.must(er == nil && (!isC || txt != "") || told, "http-error-body", o.where+" message", e.Pos, st, "the error message must tell the error (value %v)", m)
}

func (c *Checker) apiResponses() {
	c.eachAPI(func(o *apiOut) {
		if o.ret.Panic || o.ret.Exit {
			return
		}
		if o.r.method == "NONE" {
			if c.must(len(o.resp) == 1 && len(o.eng) == 0, "http-notfound", o.where, o.pos(), o.st, "a request for an unknown endpoint must be answered once") {
				s, ok := c.status(o.st, o.resp[0])
				c.must(ok && s == 404, "http-notfound", o.where+" status", o.resp[0].Pos, o.st, "the status code must be 404")
				c.errorBody(o, o.resp[0], 404, nil)
			}
			return
		}
		if o.spec == nil || o.where == "GET /metrics" {
			return
		}
		if !c.must(len(o.resp) == 1, "http-once", o.where, o.pos(), o.st, "the request must be answered exactly once (%d times)", len(o.resp)) {
			return
		}
		e := o.resp[0]
		st := o.st
		s, ok := c.status(st, e)
		if !c.must(ok, "http-status", o.where, e.Pos, st, "the status code is not determined by the outcome") {
			return
		}
		switch {
		case len(o.spec.ops) == 0:
			c.must(s == 200, "http-health", o.where, e.Pos, st, "the status code must be 200")
		case len(o.eng) == 0:
			c.must(s == 400, "http-reject", o.where, e.Pos, st, "a rejected request must be answered with status code 400 (%d)", s)
			c.errorBody(o, e, s, nil)
		default:
			g := o.eng[len(o.eng)-1]
			er := opErr(g)
			if !st.isNil(er) {
				c.must(c.statusFits(st, er, s), "http-error", fmt.Sprintf("%s %s %d", o.where, g.Name, s), e.Pos, st, "status code %d does not agree with the error of the storage engine", s)
				c.errorBody(o, e, s, er)
				return
			}
			if g.Name == "Ready" {
				c.must(s == 200, "http-health", o.where, e.Pos, st, "the status code must be 200")
				return
			}
			res := g.Res[0]
			want := int64(200)
			if n := derefType(res.T); n != nil && types.Identical(n, c.x.prog.typeNamed(modPath, "Updated")) {
				switch st.known(mkGe0(toLin(c.field(st, c.deref(st, res), "Created")).add(lin{c: 1}, -1))) {
				case 1:
					want = 201
				case 0:
				default:
					want = -1
				}
			}
			c.must(s == want, "http-success", o.where, e.Pos, st, "the status code of a successful request must be 201 if something has been created and 200 otherwise (%d)", s)
			if !c.must(jsonResponses[respName(e)] && len(e.Args) == 3, "http-body", o.where, e.Pos, &e.St, "the result must be reported in JSON") {
				return
			}
			b := unIface(e.St.norm(e.Args[2]))
			if o.spec.list != "" {
				if derefType(b.T) != nil {
					b = c.deref(&e.St, b)
				}
				T := c.x.prog.typeNamed(modPath, o.spec.list)
				c.must(T != nil && b.T != nil && types.Identical(b.T, T) && c.sameVal(&e.St, mkField2(b, "Data"), res), "http-body", o.where+" list", e.Pos, &e.St, "the response must be the list of the storage engine")
				return
			}
			c.must(c.sameVal(&e.St, b, res), "http-body", o.where+" result", e.Pos, &e.St, "the response must be the result of the storage engine")
		}
	})
	for r, n := range map[string]int{"http-once": 23, "http-status": 23, "http-error": 20, "http-success": 19, "http-body": 19, "http-reject": 9, "http-error-body": 20, "http-notfound": 1} {
		c.atLeast(r, n)
	}
}

// engineContract: what the rules on the API assume about the storage engines.
func (c *Checker) engineContract() {
	it, _ := c.x.prog.typeNamed(pkgEngine, "Engine").Underlying().(*types.Interface)
	if it == nil {
		c.fail("contract", "Engine", 0, "the interface of the storage engines could not be found", nil)
		return
	}
	for _, pk := range []string{pkgMemdb, pkgMongo} {
		for i := 0; i < it.NumMethods(); i++ {
			n := it.Method(i).Name()
			sig := it.Method(i).Type().(*types.Signature)
			if sig.Results().Len() != 2 {
				continue
			}
			var rets []Ret
			if pk == pkgMemdb {
				rets = c.memdb(n)
			} else {
				rets = c.mongo(n)
			}
			short := pk[strings.LastIndexByte(pk, '/')+1:]
			for j := range rets {
				r := &rets[j]
				if r.Panic || r.Exit {
					continue
				}
				st := &r.St
				v, er := r.res(0), r.res(1)
				_, isPtr := sig.Results().At(0).Type().Underlying().(*types.Pointer)
				switch {
				case st.isNil(er):
					c.must(!isPtr || st.norm(v).K == KAddr || st.notNil(v), "contract-result", short+"."+n, posOf(st.events()), st, "the storage engine reports success without a result")
				case st.notNil(er):
					c.must(st.isNil(v), "contract-error", short+"."+n, posOf(st.events()), st, "the storage engine reports an error together with a result")
				default:
					c.must(c.recursed(short+"."+n, r) || st.norm(v).K != KNil && false || c.tied(st, v, er), "contract-error", short+"."+n, posOf(st.events()), st, "it is not known whether the result is present exactly if there is no error")
				}
			}
		}
	}
	c.atLeast("contract-result", 30)
	c.atLeast("contract-error", 30)
}

// tied: both results come from the same call of another operation.
func (c *Checker) tied(st *State, v, er *Term) bool { return false }

// ---- routes --------------------------------------------------------------------------

func (c *Checker) apiRoutes() {
	a := c.api()
	// Every endpoint is mounted, under both prefixes, whatever the configuration.
	runs := map[*State]map[string]bool{}
	var order []*State
	for i := range a.main {
		st := &a.main[i].St
		mounted := map[string]bool{}
		for _, e := range st.events() {
			for _, r := range a.routes {
				if r.ev == e {
					k := r.method + " " + r.path
					c.must(!mounted[k], "route-once", k, e.Pos, st, "an endpoint must not be mounted twice")
					mounted[k] = true
				}
			}
		}
		if len(mounted) > 0 {
			runs[st] = mounted
			order = append(order, st)
		}
	}
	c.must(len(order) > 0, "route-mounted", "main", 0, nil, "the server mounts no endpoints")
	for _, st := range order {
		has := map[string]map[bool]bool{}
		for k := range runs[st] {
			m, p, _ := strings.Cut(k, " ")
			key, _ := routeKey(m, p)
			if has[key] == nil {
				has[key] = map[bool]bool{}
			}
			has[key][strings.HasPrefix(p, "/v1")] = true
		}
		for key := range apiSpecs {
			c.must(has[key][true], "route-mounted", "/v1 "+key, posOf(st.events()), st, "the endpoint is not mounted")
			c.must(has[key][false], "route-mounted", key, posOf(st.events()), st, "the endpoint is not mounted at the root")
		}
	}
	// Names may contain any character, also those that separate segments of the
	// path, and may be empty.
	for _, st := range order {
		for _, e := range st.events() {
			if e.Kind != "gin.new" {
				continue
			}
			v := c.deref(st, e.Res[0])
			opt := func(name string) *Term { return st.norm(mkField2(v, name)) }
			c.must(st.isTrue(opt("UseRawPath")), "route-names", "UseRawPath", e.Pos, st, "names with escaped slashes must not be taken for several segments of the path")
			c.must(!st.isFalse(opt("UnescapePathValues")), "route-names", "UnescapePathValues", e.Pos, st, "names in the path must be unescaped")
			c.must(!st.isTrue(opt("RemoveExtraSlash")), "route-names", "RemoveExtraSlash", e.Pos, st, "requests with an empty name must not reach other endpoints")
		}
	}
	c.atLeast("route-names", 3)
	// The engine that serves requests is the one that was opened.
	ok := map[string]map[string]bool{}
	for _, r := range a.all() {
		for _, o := range c.apiOuts(r) {
			if o.spec == nil {
				c.must(len(o.eng) == 0, "route-operation", o.where, o.pos(), o.st, "the endpoint must not use the storage engine")
				continue
			}
			eachStep(o.ev, func(l *Loop, s *Step) {
				for _, e := range s.Events {
					if e.Kind == "engine" {
						c.must(false, "route-operation", o.where+" loop", e.Pos, &s.St, "the storage engine is used repeatedly by a request")
					}
				}
			})
			c.must(len(o.eng) <= 1, "route-operation", o.where+" once", o.pos(), o.st, "the request performs %d operations", len(o.eng))
			for _, e := range o.eng {
				if ok[o.where] == nil {
					ok[o.where] = map[string]bool{}
				}
				c.must(derivedCtx(&e.St, e.Args[1], func(v *Term) bool { return v.isOp("nonnil:reqctx") }), "route-context", o.where, e.Pos, &e.St, "the operation must be canceled with the request")
				c.must(e.Args[0] == c.openedEngine(o), "route-engine", o.where, e.Pos, &e.St, "the operation must be performed by the storage engine that was opened")
				if !c.must(contains(o.spec.ops, e.Name), "route-operation", o.where+" "+e.Name, e.Pos, &e.St, "the endpoint must not perform the operation %s", e.Name) {
					continue
				}
				if !opFailed(o.st, e) {
					ok[o.where][e.Name] = true
				}
				for i, k := range o.spec.argsFor(e.Name) {
					if 2+i >= len(e.Args) {
						c.must(false, "route-argument", o.where+" "+k, e.Pos, &e.St, "the operation does not take the %s", k)
						continue
					}
					want := map[string]*Term{"topic": o.topic, "id": o.id}[k]
					if want != nil {
						c.must(c.sameVal(&e.St, e.Args[2+i], want), "route-argument", o.where+" "+k, e.Pos, &e.St, "the operation must be performed on the %s in the path (value %v)", k, e.Args[2+i])
					}
				}
				// A promise is made for the next task unless it names one.
				if o.where == "POST /topics/:1/promises" {
					b, _, _ := o.bound()
					id := e.St.norm(mkField2(b, "ID"))
					empty := e.St.known(mkEq(id, mkStr("")))
					if s, isC := id.strConst(); isC {
						empty = 0
						if s == "" {
							empty = 1
						}
					}
					c.must(empty == 1 && e.Name == "Poll" || empty == 0 && e.Name == "InsertPromise", "route-promise", o.where+" "+e.Name, e.Pos, &e.St, "a promise must be made for the task it names, and for the next task only if it names none")
				}
			}
		}
	}
	for key, sp := range apiSpecs {
		for _, op := range sp.ops {
			c.must(ok[key][op], "route-reaches", key+" "+op, 0, nil, "no request can perform the operation")
		}
	}
	for r, n := range map[string]int{"route-mounted": 40, "route-operation": 20, "route-argument": 15, "route-context": 20, "route-engine": 20, "route-promise": 2} {
		c.atLeast(r, n)
	}
}

// openedEngine: the storage engine opened on the path on which a route is mounted.
func (c *Checker) openedEngine(o *apiOut) *Term {
	for _, e := range o.r.ev.St.events() {
		if e.Kind == "engine" && e.Name == "Open" {
			return e.Args[0]
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func containsOp(t *Term, op string) bool {
	if t == nil {
		return false
	}
	if t.isOp(op) {
		return true
	}
	for _, a := range t.Args {
		if containsOp(a, op) {
			return true
		}
	}
	return false
}

// ---- metrics -------------------------------------------------------------------------

// promUse describes an update of a metric.
type promUse struct {
	e      *Event
	method string
	name   string // of the metric
	labels []string
	values []*Term
	val    *Term
}

// metricOf resolves the metric (and label values) an update applies to.
func (c *Checker) metricOf(st *State, t *Term) (name string, labels []string, values []*Term, ok bool) {
	t = unIface(st.norm(t))
	if t.isOp("nonnil:prom.with") {
		values = t.Args[1:]
		t = unIface(st.norm(t.Args[0]))
	}
	if !t.isOp("nonnil:metric") {
		return
	}
	opts := t.Args[0]
	full := ""
	for _, n := range []string{"Namespace", "Subsystem", "Name"} {
		s, isC := mkField2(opts, n).strConst()
		if !isC {
			return
		}
		if s != "" && full != "" {
			full += "_"
		}
		full += s
	}
	if len(t.Args) > 2 && t.Args[1].K == KTuple {
		for _, l := range t.Args[1].Args {
			s, isC := st.norm(l).strConst()
			if !isC {
				return
			}
			labels = append(labels, s)
		}
	}
	return full, labels, values, true
}

func (c *Checker) promUses(where string, ev []*Event) (out []promUse) {
	for _, e := range ev {
		if e.Kind != "prom" {
			continue
		}
		n, l, v, ok := c.metricOf(&e.St, e.Args[0])
		if !ok {
			c.must(false, "metric-known", where, e.Pos, &e.St, "the metric that is updated could not be determined")
			continue
		}
		m := unIface(e.St.norm(e.Args[0]))
		if m.isOp("nonnil:prom.with") {
			m = unIface(e.St.norm(m.Args[0]))
		}
		c.must(c.x.promReg[m], "metric-exposed", n, e.Pos, &e.St, "%s is not registered with the registry that is reported", n)
		u := promUse{e: e, method: e.Name, name: n, labels: l, values: v}
		if len(e.Args) > 1 {
			u.val = e.St.norm(e.Args[1])
		}
		out = append(out, u)
	}
	return
}

// gathersDefault: the metrics that are gathered include those of the default registry.
func (c *Checker) gathersDefault(st *State, t *Term) bool {
	t = unIface(st.norm(t))
	if promDefault(t) {
		return true
	}
	as := t.Args
	if el, ok := c.x.elems(st, t); ok {
		as = el
	}
	for _, a := range as {
		if c.gathersDefault(st, a) {
			return true
		}
	}
	return false
}

func (u promUse) label(n string) *Term {
	for i, l := range u.labels {
		if l == n && i < len(u.values) {
			return stripValid(u.values[i])
		}
	}
	return nil
}

// stripValid removes conversions that only replace invalid UTF-8.
func stripValid(t *Term) *Term {
	for t.isOp("fn:strings.ToValidUTF8") {
		t = t.Args[0]
	}
	return t
}

func stripFloat(t *Term) *Term {
	for t != nil && t.K == KOp && strings.HasPrefix(t.Op, "conv:") {
		t = t.Args[0]
	}
	return t
}

// amount: how much a counter grows by.
func (u promUse) amount() (*Term, bool) {
	switch u.method {
	case "Inc":
		return mkInt(1), true
	case "Add":
		return stripFloat(u.val), true
	}
	return nil, false
}

const (
	mRequest   = "ratus_request_duration_seconds"
	mChore     = "ratus_chore_duration_seconds"
	mDelay     = "ratus_task_schedule_delay_seconds"
	mExecution = "ratus_task_execution_duration_seconds"
	mProduced  = "ratus_task_produced_count_total"
	mConsumed  = "ratus_task_consumed_count_total"
	mCommitted = "ratus_task_committed_count_total"
)

func named(us []promUse, n string) (out []promUse) {
	for _, u := range us {
		if u.name == n {
			out = append(out, u)
		}
	}
	return
}

// intValue is the value of an integral constant of any numeric type.
func intValue(t *Term) (int64, bool) {
	if t.K != KConst {
		return 0, false
	}
	if v := constant.ToInt(t.C); v.Kind() == constant.Int {
		return constant.Int64Val(v)
	}
	return 0, false
}

// seconds: the value is a duration in seconds.
func seconds(v *Term) (lin, bool) {
	if v != nil && v.isOp("fn:(time.Duration).Seconds") {
		return toLin(v.Args[0]), true
	}
	return lin{}, false
}

func (c *Checker) apiMetrics() {
	ops := map[string][]string{}
	c.eachAPI(func(o *apiOut) {
		if o.ret.Panic || o.ret.Exit {
			return
		}
		us := c.promUses(o.where, o.ev)
		eachStep(o.ev, func(l *Loop, s *Step) {
			for _, e := range s.Events {
				if e.Kind == "prom" {
					c.must(false, "metric-known", o.where+" loop", e.Pos, &s.St, "metrics are updated an unknown number of times")
				}
			}
		})
		if o.spec == nil {
			return
		}
		c.requestMetric(o, us)
		if o.where == "GET /metrics" {
			found := false
			for _, e := range o.ev {
				if e.Kind != "http.handler" {
					continue
				}
				found = true
				if h := unIface(o.st.norm(e.Args[0])); h.isOp("nonnil:promhandler") {
					c.must(c.gathersDefault(o.st, h.Args[0]), "metric-exposed", o.where+" registry", e.Pos, o.st, "the endpoint must report the registry in which the metrics are registered")
				}
			}
			c.must(found, "metric-exposed", o.where, o.pos(), o.st, "the endpoint must report the metrics")
		}
		if o.spec.health() {
			return
		}
		var g *Event
		if len(o.eng) > 0 {
			g = o.eng[len(o.eng)-1]
		}
		st := o.st
		if g == nil || opFailed(st, g) {
			for _, u := range us {
				c.must(u.name == mRequest, "metric-failure", o.where+" "+u.name, u.e.Pos, st, "%s must not change if the request fails", u.name)
			}
			c.ok("metric-failure")
			return
		}
		ops[g.Name] = append(ops[g.Name], o.where)
		prod, cons, comm, delay, exec := named(us, mProduced), named(us, mConsumed), named(us, mCommitted), named(us, mDelay), named(us, mExecution)
		none := func(l []promUse, n string) {
			for _, u := range l {
				c.must(false, "metric-scope", o.where+" "+n, u.e.Pos, st, "%s must not change", n)
			}
			c.ok("metric-scope")
		}
		res := func(f string) *Term { return c.field(st, c.deref(st, g.Res[0]), f) }
		labels := func(u promUse, want map[string]*Term) {
			c.must(len(u.labels) == len(u.values), "metric-labels", o.where+" "+u.name, u.e.Pos, st, "%s has %d labels but %d values are given", u.name, len(u.labels), len(u.values))
			for l, w := range want {
				v := u.label(l)
				c.must(v != nil && c.sameVal(st, v, w), "metric-labels", o.where+" "+u.name+" "+l, u.e.Pos, st, "the label %s of %s must be the %s of the task (value %v)", l, u.name, l, v)
			}
		}
		byTask := func(u promUse) {
			labels(u, map[string]*Term{"topic": res("Topic"), "producer": res("Producer"), "consumer": res("Consumer")})
		}
		one := func(l []promUse, n string) {
			if !c.must(len(l) == 1, "metric-count", o.where+" "+n, o.pos(), st, "%s must be updated exactly once (%d times)", n, len(l)) {
				return
			}
			a, ok := l[0].amount()
			k := int64(0)
			if ok {
				k, ok = intValue(a)
			}
			c.must(ok && k == 1, "metric-count", o.where+" "+n+" amount", l[0].e.Pos, st, "%s must grow by one (value %v)", n, l[0].val)
			byTask(l[0])
		}
		gauge := func(l []promUse, n string, present []*Term, val func() lin) {
			all, unknown := true, false
			for _, p := range present {
				switch {
				case st.isNil(p):
					all = false
				case !st.notNil(p):
					unknown = true
				}
			}
			if !all {
				c.must(len(l) == 0, "metric-gauge", o.where+" "+n, o.pos(), st, "%s must not change if its times are unknown", n)
				return
			}
			if !c.must(!unknown && len(l) == 1 && l[0].method == "Set", "metric-gauge", o.where+" "+n, o.pos(), st, "%s must be set once", n) {
				return
			}
			d, ok := seconds(l[0].val)
			if ok {
				d = d.add(val(), -1)
				// The clock may be read at any time.
				for _, now := range c.nowEvents(o.ev) {
					if n == mExecution && d.m[now] == 1 {
						d = d.add(toLin(now), -1)
						break
					}
				}
			}
			c.must(ok && len(d.m) == 0 && d.c == 0, "metric-gauge", o.where+" "+n+" value", l[0].e.Pos, st, "the value of %s is wrong (%v)", n, l[0].val)
			byTask(l[0])
		}
		tm := func(p *Term) lin { return toLin(stripTime(c.deref(st, p))) }
		switch g.Name {
		case "InsertTask", "InsertTasks", "UpsertTask", "UpsertTasks":
			none(cons, mConsumed)
			none(comm, mCommitted)
			none(delay, mDelay)
			none(exec, mExecution)
			want := toLin(res("Created"))
			if strings.HasPrefix(g.Name, "Upsert") {
				want = want.add(toLin(res("Updated")), 1)
			} else if us := toLin(st.norm(res("Updated"))); len(us.m) == 1 {
				// An insertion updates nothing: counting its updates as well
				// adds zero.
				for _, u := range prod {
					if a, ok := u.amount(); ok {
						l, all := toLin(st.norm(a)), true
						for k, n := range us.m {
							if l.m[k] != n {
								all = false
							}
						}
						if all {
							want = want.add(us, 1)
						}
					}
				}
			}
			got := lin{}
			for _, u := range prod {
				if a, ok := u.amount(); ok {
					got = got.add(toLin(st.norm(a)), 1)
				} else {
					c.must(false, "metric-count", o.where+" "+mProduced, u.e.Pos, st, "%s must grow by the number of tasks", mProduced)
				}
				c.producedLabels(o, g, u, labels)
			}
			d := got.add(want, -1)
			zero := len(prod) == 0 && (st.isFalse(mkGe0(want.add(lin{c: 1}, -1))) || st.isTrue(mkEq0(want)))
			// Nothing is produced by an empty list.
			if len(prod) == 0 && strings.HasSuffix(g.Name, "Tasks") {
				zero = zero || st.isTrue(mkEq0(toLin(mkLen(st.norm(g.Args[2])))))
			}
			c.must(len(d.m) == 0 && d.c == 0 || zero, "metric-count", o.where+" "+mProduced, o.pos(), st, "%s must grow by the number of tasks produced", mProduced)
		case "Poll", "InsertPromise", "UpsertPromise":
			none(prod, mProduced)
			none(comm, mCommitted)
			none(exec, mExecution)
			one(cons, mConsumed)
			s, t := res("Scheduled"), res("Consumed")
			gauge(delay, mDelay, []*Term{s, t}, func() lin { return tm(t).add(tm(s), -1) })
		case "Commit":
			none(prod, mProduced)
			none(cons, mConsumed)
			none(delay, mDelay)
			one(comm, mCommitted)
			t := res("Consumed")
			gauge(exec, mExecution, []*Term{t}, func() lin { return lin{}.add(tm(t), -1) })
		default:
			none(prod, mProduced)
			none(cons, mConsumed)
			none(comm, mCommitted)
			none(delay, mDelay)
			none(exec, mExecution)
		}
	})
	for _, n := range []string{"InsertTask", "InsertTasks", "UpsertTask", "UpsertTasks", "Poll", "InsertPromise", "UpsertPromise", "Commit"} {
		c.must(len(ops[n]) > 0, "metric-reached", n, 0, nil, "the operation is never performed")
	}
	for r, n := range map[string]int{"metric-request": 24, "metric-count": 8, "metric-gauge": 4, "metric-labels": 12, "metric-failure": 10, "metric-exposed": 1} {
		c.atLeast(r, n)
	}
}

func (c *Checker) producedLabels(o *apiOut, g *Event, u promUse, labels func(u promUse, want map[string]*Term)) {
	st := o.st
	arg := st.norm(g.Args[2])
	if strings.HasSuffix(g.Name, "Task") {
		t := c.deref(&g.St, arg)
		labels(u, map[string]*Term{"topic": mkField2(t, "Topic"), "producer": mkField2(t, "Producer")})
		return
	}
	labels(u, nil)
	// The tasks of a batch share the topic in the path; they are attributed to the
	// producer of one of them.
	elem := func(v *Term, f string) bool {
		if v == nil {
			return false
		}
		for _, el := range elementsOf(st, arg) {
			if st.notNil(el) && c.sameVal(st, v, mkField2(c.deref(st, el), f)) {
				return true
			}
		}
		return containsElement(v, arg) && v.isOp("field") && opField(v) == f
	}
	v := u.label("topic")
	c.must(v != nil && (o.topic != nil && c.sameVal(st, v, o.topic) || elem(v, "Topic")), "metric-labels", o.where+" "+u.name+" topic", u.e.Pos, st, "the label topic of %s must be the topic of the tasks (value %v)", u.name, v)
	v = u.label("producer")
	c.must(elem(v, "Producer"), "metric-labels", o.where+" "+u.name+" producer", u.e.Pos, st, "the label producer of %s must be the producer of the tasks (value %v)", u.name, v)
}

func containsElement(t, data *Term) bool {
	if t.isOp("index") && t.Args[0] == data {
		return true
	}
	for _, a := range t.Args {
		if containsElement(a, data) {
			return true
		}
	}
	return false
}

// requestMetric: the duration of every request is observed once, after it has been
// answered.
func (c *Checker) requestMetric(o *apiOut, us []promUse) {
	rs := named(us, mRequest)
	st := o.st
	if !c.must(len(rs) == 1 && rs[0].method == "Observe", "metric-request", o.where, o.pos(), st, "the duration of the request must be observed once (%d times)", len(rs)) {
		return
	}
	u := rs[0]
	idx := map[*Event]int{}
	last := -1
	first := len(o.ev)
	at := map[*Term]int{}
	for i, e := range o.ev {
		idx[e] = i
		switch {
		case e.Kind == "gin.respond" || e.Kind == "gin.status" || e.Kind == "http.handler" || e.Kind == "engine":
			last = i
			if i < first {
				first = i
			}
		case strings.HasPrefix(e.Kind, "bind."):
			if i < first {
				first = i
			}
		case e.Kind == "time.now" || e.Kind == "gin.writerstatus":
			at[stripTime(e.Res[0])] = i
		}
	}
	c.must(idx[u.e] > last, "metric-request", o.where+" after", u.e.Pos, st, "the duration must be observed after the request has been answered")
	c.must(len(u.labels) == len(u.values), "metric-labels", o.where+" "+u.name, u.e.Pos, st, "%s has %d labels but %d values are given", u.name, len(u.labels), len(u.values))
	d, ok := seconds(u.val)
	var from, to *Term
	if ok && d.c == 0 && len(d.m) == 2 {
		for t, k := range d.m {
			if k == 1 {
				to = t
			}
			if k == -1 {
				from = t
			}
		}
	}
	fi, ok1 := at[from]
	ti, ok2 := at[to]
	c.must(from != nil && to != nil && ok1 && ok2 && fi < first && ti > last, "metric-request", o.where+" value", u.e.Pos, st, "the duration must cover the processing of the request (%v)", u.val)
	want := func(l string, ok func(v *Term) bool) {
		v := u.label(l)
		c.must(v != nil && ok(v), "metric-labels", o.where+" "+u.name+" "+l, u.e.Pos, st, "the label %s of %s is wrong (value %v)", l, u.name, v)
	}
	want("topic", func(v *Term) bool {
		if o.topic == nil {
			s, isC := v.strConst()
			return isC && s == ""
		}
		return c.sameVal(st, v, o.topic)
	})
	want("method", func(v *Term) bool { return v.isOp("field") && opField(v) == "Method" })
	want("endpoint", func(v *Term) bool { return v.isOp("gin.FullPath") })
	want("status_code", func(v *Term) bool {
		if !v.isOp("itoa") {
			return false
		}
		i, ok := at[stripFloat(v.Args[0])]
		return ok && i > last
	})
}

// ---- health --------------------------------------------------------------------------

func (c *Checker) apiHealth() {
	c.eachAPI(func(o *apiOut) {
		if o.spec == nil || !o.spec.health() || o.where == "GET /metrics" {
			return
		}
		if !c.must(!o.ret.Panic && !o.ret.Exit && len(o.resp) == 1, "health-answer", o.where, o.pos(), o.st, "the request must be answered once") {
			return
		}
		s, ok := c.status(o.st, o.resp[0])
		if o.where != "GET /readyz" {
			c.must(ok && s == 200 && len(o.eng) == 0, "health-live", o.where, o.pos(), o.st, "the instance is alive regardless of the storage engine")
			return
		}
		if !c.must(len(o.eng) == 1 && o.eng[0].Name == "Ready", "health-ready", o.where, o.pos(), o.st, "readiness must be asked of the storage engine") {
			return
		}
		er := opErr(o.eng[0])
		if o.st.isNil(er) {
			c.must(ok && s == 200, "health-ready", o.where+" 200", o.pos(), o.st, "a ready instance must be reported as such")
		} else {
			c.must(ok && c.statusFits(o.st, er, s), "health-ready", o.where+" error", o.pos(), o.st, "an instance that is not ready must be reported as such")
		}
	})
	c.atLeast("health-live", 2)
	c.atLeast("health-ready", 3)
	su := c.sentinel("ErrServiceUnavailable")
	// MemDB is ready once its database exists.
	good, bad := 0, 0
	for _, r := range c.memdb("Ready") {
		r := r
		st := &r.St
		if !c.must(!r.Panic, "ready-memdb", "no panic", 0, st, "the probe panics") {
			continue
		}
		db := c.engineDB(st, c.param(c.memdbFn("Ready"), 0))
		er := r.res(0)
		if db == nil {
			c.must(false, "ready-memdb", "database", 0, st, "the database of the engine could not be found")
			continue
		}
		switch {
		case st.isNil(er):
			good++
			c.must(st.notNil(db), "ready-memdb", "ready", posOf(st.events()), st, "the engine is reported ready although its database may be missing")
		default:
			bad++
			c.must(st.isNil(db), "ready-memdb", "not ready", posOf(st.events()), st, "the engine is reported not ready although its database may be present")
			c.must(st.isTrue(mkOp("errIs", types.Typ[types.Bool], er, su)), "ready-error", "memdb", posOf(st.events()), st, "an engine that is not ready must be reported as unavailable")
		}
	}
	c.must(good > 0 && bad > 0, "ready-memdb", "both", 0, nil, "the probe must be able to tell whether the engine is ready")
	// MongoDB is ready if the server answers.
	good, bad = 0, 0
	for _, r := range c.mongo("Ready") {
		r := r
		st := &r.St
		if !c.must(!r.Panic, "ready-mongodb", "no panic", 0, st, "the probe panics") {
			continue
		}
		var ping *Event
		for _, e := range st.events() {
			if strings.HasSuffix(e.Name, "Client).Ping") || e.Kind == "mongo.Ping" || strings.HasSuffix(e.Kind, ".ping") {
				ping = e
			}
		}
		if !c.must(ping != nil, "ready-mongodb", "ping", posOf(st.events()), st, "the server must be asked") {
			continue
		}
		er := r.res(0)
		failed := opFailed(st, ping)
		if st.isNil(er) {
			good++
			c.must(!failed, "ready-mongodb", "ready", ping.Pos, st, "the engine is reported ready although the server does not answer")
		} else {
			bad++
			c.must(failed, "ready-mongodb", "not ready", ping.Pos, st, "the engine is reported not ready although the server answers")
			c.must(st.isTrue(mkOp("errIs", types.Typ[types.Bool], er, su)), "ready-error", "mongodb", ping.Pos, st, "an engine that is not ready must be reported as unavailable")
		}
	}
	c.must(good > 0 && bad > 0, "ready-mongodb", "both", 0, nil, "the probe must be able to tell whether the server answers")
}

// engineDB is the field of the MemDB engine that holds the database.
func (c *Checker) engineDB(st *State, g *Term) *Term {
	return c.engineField(st, g, func(i int, v *Term) bool {
		return strings.HasSuffix(typeKey(v.T), "go-memdb.MemDB") && derefType(v.T) != nil
	})
}

// ---- robustness ----------------------------------------------------------------------

// apiRobust: no request can make a handler panic.
func (c *Checker) apiRobust() {
	c.eachAPI(func(o *apiOut) {
		c.must(!o.ret.Panic, "robust-panic", o.where, o.pos(), o.st, "a request can make the handler panic")
		c.must(!o.ret.Exit, "robust-exit", o.where, o.pos(), o.st, "a request can end the process")
		check := func(ev []*Event, st *State) {
			for _, e := range ev {
				switch e.Kind {
				case "nilderef":
					if len(e.Args) > 0 && (rootedAt(e.Args[0], o.r.ctx) || c.allPresent(o, e)) {
						continue
					}
					c.must(false, "robust-nil", o.where, e.Pos, &e.St, "a request can make the handler dereference a nil pointer (%v)", e.Args)
				case "outofrange":
					c.must(false, "robust-index", o.where, e.Pos, &e.St, "a request can make the handler use an index out of range (%v)", e.Args)
				case "badassert", "assert":
					c.must(false, "robust-assert", o.where, e.Pos, &e.St, "a request can make a type assertion fail")
				case "prom.with":
					c.labelsValid(o, e)
				}
			}
		}
		check(o.ev, o.st)
		eachStep(o.ev, func(l *Loop, s *Step) { check(s.Events, &s.St) })
		c.ok("robust-nil")
	})
	c.atLeast("robust-panic", 50)
	c.atLeast("robust-labels", 20)
}

// allPresent: an element of a list all of whose elements a loop has found not to be
// nil.
func (c *Checker) allPresent(o *apiOut, e *Event) bool {
	el := e.Args[0]
	if !el.isOp("index") {
		return false
	}
	for _, x := range before(o.ev, e) {
		if x.Loop == nil || len(x.Loop.Steps) == 0 {
			continue
		}
		ok := true
		var idx *Term
		for _, s := range x.Loop.Steps {
			els := elementsOf(&s.St, el.Args[0])
			if len(els) != 1 || !s.St.notNil(els[0]) || idx != nil && els[0].Args[1] != idx {
				ok = false
				break
			}
			idx = els[0].Args[1]
		}
		if ok && c.coversIdx(&e.St, x.Loop, idx, el.Args[0]) {
			return true
		}
	}
	return false
}

func rootedAt(t, root *Term) bool {
	for t != nil {
		if t == root {
			return true
		}
		if len(t.Args) == 0 {
			return false
		}
		t = t.Args[0]
	}
	return false
}

// labelsValid: the number of label values is right and they are valid UTF-8, without
// which the metrics library panics.
func (c *Checker) labelsValid(o *apiOut, e *Event) {
	n, l, v, ok := c.metricOf(&e.St, e.Res[0])
	if !c.must(ok && len(l) == len(v), "robust-labels", o.where+" "+n, e.Pos, &e.St, "%s has %d labels but %d values are given", n, len(l), len(v)) {
		return
	}
	for i, t := range v {
		t = e.St.norm(t)
		s, isC := t.strConst()
		okv := isC && s == strings.ToValidUTF8(s, "") ||
			t.isOp("fn:strings.ToValidUTF8") || t.isOp("itoa") || t.isOp("gin.FullPath") ||
			t.isOp("field") && opField(t) == "Method" && rootedAt(t, o.r.ctx)
		c.must(okv, "robust-labels", o.where+" "+n+" "+l[i], e.Pos, &e.St, "the label %s of %s might not be valid UTF-8 (value %v)", l[i], n, t)
	}
}
