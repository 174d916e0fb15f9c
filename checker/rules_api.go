package main

// Rules over the HTTP API: what each mounted handler chain does with an arbitrary
// request.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"time"
)

// apiSpec: the storage operation behind an endpoint.
type apiSpec struct {
	ops  []string // "" for none
	args []string // kinds of the arguments after the context
	list string   // type wrapping a list result
}

var apiSpecs = map[string]apiSpec{
	"GET /topics":                   {[]string{"ListTopics"}, []string{"limit", "offset"}, "Topics"},
	"DELETE /topics":                {[]string{"DeleteTopics"}, nil, ""},
	"GET /topics/:1":                {[]string{"GetTopic"}, []string{"topic"}, ""},
	"DELETE /topics/:1":             {[]string{"DeleteTopic"}, []string{"topic"}, ""},
	"GET /topics/:1/tasks":          {[]string{"ListTasks"}, []string{"topic", "limit", "offset"}, "Tasks"},
	"POST /topics/:1/tasks":         {[]string{"InsertTasks"}, []string{"tasks"}, ""},
	"PUT /topics/:1/tasks":          {[]string{"UpsertTasks"}, []string{"tasks"}, ""},
	"DELETE /topics/:1/tasks":       {[]string{"DeleteTasks"}, []string{"topic"}, ""},
	"GET /topics/:1/tasks/:2":       {[]string{"GetTask"}, []string{"id"}, ""},
	"POST /topics/:1/tasks/:2":      {[]string{"InsertTask"}, []string{"task"}, ""},
	"PUT /topics/:1/tasks/:2":       {[]string{"UpsertTask"}, []string{"task"}, ""},
	"DELETE /topics/:1/tasks/:2":    {[]string{"DeleteTask"}, []string{"id"}, ""},
	"PATCH /topics/:1/tasks/:2":     {[]string{"Commit"}, []string{"id", "commit"}, ""},
	"GET /topics/:1/promises":       {[]string{"ListPromises"}, []string{"topic", "limit", "offset"}, "Promises"},
	"POST /topics/:1/promises":      {[]string{"Poll", "InsertPromise"}, nil, ""},
	"DELETE /topics/:1/promises":    {[]string{"DeletePromises"}, []string{"topic"}, ""},
	"GET /topics/:1/promises/:2":    {[]string{"GetPromise"}, []string{"id"}, ""},
	"POST /topics/:1/promises/:2":   {[]string{"InsertPromise"}, []string{"promise"}, ""},
	"PUT /topics/:1/promises/:2":    {[]string{"UpsertPromise"}, []string{"promise"}, ""},
	"DELETE /topics/:1/promises/:2": {[]string{"DeletePromise"}, []string{"id"}, ""},
	"GET /livez":                    {nil, nil, ""},
	"GET /healthz":                  {nil, nil, ""},
	"GET /readyz":                   {[]string{"Ready"}, nil, ""},
	"GET /metrics":                  {nil, nil, ""},
}

func (s *apiSpec) argsFor(op string) []string {
	switch {
	case s.args != nil:
		return s.args
	case op == "Poll":
		return []string{"topic", "promise"}
	case op == "InsertPromise":
		return []string{"promise"}
	}
	return nil
}

func (s *apiSpec) health() bool { return len(s.ops) == 0 || s.ops[0] == "Ready" }

// apiOut is one outcome of the handler chain of a route for an arbitrary request.
type apiOut struct {
	r         *apiRoute
	spec      *apiSpec
	where     string
	ret       *Ret
	st        *State
	ev        []*Event
	eng       []*Event // calls of the storage engine
	resp      []*Event // responses (gin.respond, gin.status)
	binds     []*Event
	proms     []*Event // updates of metrics
	topic, id *Term    // path parameters; nil if the route does not have them
}

// routeKey strips the version prefix and names parameters by position.
func routeKey(method, path string) (key string, params []string) {
	p := strings.TrimSuffix(path, "/")
	if p == "/v1" || strings.HasPrefix(p, "/v1/") {
		p = p[3:]
	}
	segs := strings.Split(p, "/")
	for i, s := range segs {
		if strings.HasPrefix(s, ":") {
			params = append(params, s[1:])
			segs[i] = fmt.Sprintf(":%d", len(params))
		}
	}
	return method + " " + strings.Join(segs, "/"), params
}

func (a *apiModel) all() []*apiRoute { return append(append([]*apiRoute{}, a.routes...), a.none...) }

func (c *Checker) apiOuts(r *apiRoute) []*apiOut {
	if r.cached != nil {
		return r.cached
	}
	key, params := routeKey(r.method, r.path)
	var out []*apiOut
	for i := range r.outs {
		o := &apiOut{r: r, ret: &r.outs[i], st: &r.outs[i].St, where: key}
		if sp, ok := apiSpecs[key]; ok {
			o.spec = &sp
		}
		if len(params) > 0 {
			o.topic = mkOp("param", types.Typ[types.String], mkStr(params[0]))
		}
		if len(params) > 1 {
			o.id = mkOp("param", types.Typ[types.String], mkStr(params[1]))
		}
		o.ev = o.st.events()
		for _, e := range o.ev {
			switch {
			case e.Kind == "engine":
				o.eng = append(o.eng, e)
			case e.Kind == "gin.respond" || e.Kind == "gin.status":
				o.resp = append(o.resp, e)
			case strings.HasPrefix(e.Kind, "bind."):
				o.binds = append(o.binds, e)
			case e.Kind == "prom":
				o.proms = append(o.proms, e)
			}
		}
		out = append(out, o)
	}
	r.cached = out
	return out
}

func (c *Checker) eachAPI(f func(o *apiOut)) {
	for _, r := range c.api().all() {
		for _, o := range c.apiOuts(r) {
			f(o)
		}
	}
}

func (o *apiOut) pos() token.Pos {
	if len(o.ev) > 0 {
		return o.ev[len(o.ev)-1].Pos
	}
	return o.r.ev.Pos
}

// bound returns the value of the request object after binding, and the error of
// the last binding that failed for a reason other than an absent body.
func (o *apiOut) bound() (b *Term, failed, empty bool) {
	eof := errGlobal("io.EOF")
	for _, e := range o.binds {
		b, _ = e.Tag.(*Term)
		switch er := e.Res[0]; {
		case er.isNilConst() || o.st.isNil(er):
		case o.st.norm(er) == eof:
			empty = true
		default:
			failed = true
		}
	}
	return
}

// tagged returns the field of a struct value by a struct tag.
func tagged(b *Term, key, name string) *Term {
	s := (*types.Struct)(nil)
	if b != nil {
		s = structOf(b.T)
	}
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		t := reflect.StructTag(s.Tag(i)).Get(key)
		for _, p := range strings.Split(t, ",") {
			if p == name {
				return mkField(b, i)
			}
		}
		if s.Field(i).Embedded() {
			if f := tagged(mkField(b, i), key, name); f != nil {
				return f
			}
		}
	}
	return nil
}

// flag is the value of a command line option.
func (c *Checker) flag(name string) *Term {
	for i := range c.api().main {
		for _, e := range c.api().main[i].St.events() {
			if e.Kind != "args" {
				continue
			}
			for _, v := range e.Res {
				if f := tagged(v, "arg", name); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// ---- validation --------------------------------------------------------------------

// req is what the engine must be able to rely on about a field: "" if it holds.
type req struct {
	field string
	ok    func(k *reqCtx) string
}

type reqCtx struct {
	c         *Checker
	st        *State
	ev        []*Event
	v, b      *Term // the value handed over, and the one in the request
	topic, id *Term
}

func (k *reqCtx) f(n string) *Term  { return k.st.norm(mkField2(k.v, n)) }
func (k *reqCtx) bf(n string) *Term { return k.st.norm(mkField2(k.b, n)) }

func (k *reqCtx) empty(t *Term) int {
	t = k.st.norm(t)
	if s, ok := t.strConst(); ok {
		if s == "" {
			return 1
		}
		return 0
	}
	return k.st.known(mkEq(t, mkStr("")))
}

func hasNUL(st *State, t *Term) int {
	t = st.norm(t)
	if s, ok := t.strConst(); ok {
		if strings.Contains(s, "\x00") {
			return 1
		}
		return 0
	}
	return st.known(mkOp("contains", types.Typ[types.Bool], t, mkStr("\x00")))
}

func (k *reqCtx) name(n string, param *Term, match, need bool) string {
	v, b := k.f(n), k.bf(n)
	if !k.c.sameVal(k.st, v, b) && !(param != nil && k.empty(b) == 1 && k.c.sameVal(k.st, v, param)) {
		return fmt.Sprintf("must be the one in the request (value %v)", v)
	}
	if match && param != nil && !k.c.sameVal(k.st, v, param) && k.empty(param) != 1 {
		return "must be known to be the one in the path"
	}
	if !need {
		if param != nil && k.empty(b) != 0 && k.empty(param) != 1 && !k.c.sameVal(k.st, v, param) {
			return "must default to the one in the path"
		}
		return ""
	}
	if k.empty(v) != 0 {
		return "must be known not to be empty"
	}
	if hasNUL(k.st, v) != 0 {
		return "must be known to contain no null character"
	}
	return ""
}

func (k *reqCtx) stateRange(v *Term) string {
	lo, hi := k.c.stateConst("TaskStatePending"), k.c.stateConst("TaskStateArchived")
	l := toLin(k.st.norm(v))
	if !k.st.isTrue(mkGe0(l.add(lin{c: lo}, -1))) || !k.st.isTrue(mkGe0(lin{c: hi}.add(l, -1))) {
		return fmt.Sprintf("must be known to be a valid state (value %v)", v)
	}
	return ""
}

func (k *reqCtx) now(v *Term, plus *Term) bool {
	if derefType(v.T) != nil && !isTime(v.T) {
		if !k.st.notNil(v) && v.K != KAddr {
			return false
		}
		v = k.st.norm(k.c.deref(k.st, v))
	}
	l := toLin(stripTime(v))
	if plus != nil {
		l = l.add(toLin(k.st.norm(plus)), -1)
	}
	for _, n := range k.c.nowEvents(k.ev) {
		d := l.add(toLin(n), -1)
		if len(d.m) == 0 && d.c == 0 {
			return true
		}
	}
	return false
}

// instant: a time that is the one in the request if there is one, the current time
// plus a duration of the request if there is one, and otherwise absent or now.
func (k *reqCtx) instant(n, dur string, deflt func(v *Term) string) string {
	v, b := k.f(n), k.bf(n)
	switch k.st.known(mkIsNil(b)) {
	case 0:
		if !k.c.sameVal(k.st, v, b) {
			return "must be the one in the request"
		}
		return ""
	case 1:
	default:
		// Undecided: handed over as it is, which is right if it may be absent.
		if k.c.sameVal(k.st, v, b) && deflt(mkNil(nil)) == "" && (dur == "" || k.empty(k.bf(dur)) == 1) {
			return ""
		}
		return "is set whether or not the request specifies it"
	}
	if dur != "" {
		d := k.bf(dur)
		switch k.empty(d) {
		case 0:
			if k.st.known(mkOp("durOK", types.Typ[types.Bool], d)) != 1 || !k.now(v, mkOp("parsedur", nil, d)) {
				return fmt.Sprintf("must be the current time plus the duration in %s", dur)
			}
			return ""
		case 1:
		default:
			return fmt.Sprintf("is set whether or not the request specifies %s", dur)
		}
	}
	return deflt(v)
}

func reqName(n string, need bool) req {
	return req{n, func(k *reqCtx) string {
		if n == "Topic" {
			return k.name(n, k.topic, false, need)
		}
		return k.name(n, k.id, true, need)
	}}
}

func reqSame(n string) req {
	return req{n, func(k *reqCtx) string {
		if !k.c.sameVal(k.st, k.f(n), k.bf(n)) {
			return fmt.Sprintf("must be the one in the request (value %v)", k.f(n))
		}
		return ""
	}}
}

func nowDefault(k *reqCtx) func(v *Term) string {
	return func(v *Term) string {
		if v.K == KNil || !k.now(v, nil) {
			return "must be the current time by default"
		}
		return ""
	}
}

func (c *Checker) taskReqs() []req {
	rs := []req{
		reqName("ID", true),
		reqName("Topic", true),
		{"State", func(k *reqCtx) string {
			if !k.c.sameVal(k.st, k.f("State"), k.bf("State")) {
				return "must be the one in the request"
			}
			return k.stateRange(k.f("State"))
		}},
		{"Produced", func(k *reqCtx) string { return k.instant("Produced", "", nowDefault(k)) }},
		{"Scheduled", func(k *reqCtx) string { return k.instant("Scheduled", "Defer", nowDefault(k)) }},
		{"Defer", func(k *reqCtx) string { return isEmptyStr(k.st, k.f("Defer"), nil) }},
	}
	return append(rs, c.sameRest("Task", rs)...)
}

// sameRest: every other field of a type is handed over as it is in the request.
func (c *Checker) sameRest(typ string, rs []req, skip ...string) (out []req) {
	s := structOf(c.x.prog.typeNamed(modPath, typ))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		found := false
		for _, r := range rs {
			found = found || r.field == n
		}
		for _, k := range skip {
			found = found || k == n
		}
		if !found {
			out = append(out, reqSame(n))
		}
	}
	return
}

func (c *Checker) promiseReqs() []req {
	rs := []req{
		reqName("ID", false),
		{"Deadline", func(k *reqCtx) string {
			return k.instant("Deadline", "Timeout", func(v *Term) string {
				if t, ok := c.x.prog.constString(modPath, "DefaultTimeout"); ok {
					if d, err := time.ParseDuration(t); err == nil && d > 0 && k.now(v, mkInt(int64(d))) {
						return ""
					}
				}
				return "must be the current time plus the default timeout"
			})
		}},
	}
	return append(rs, c.sameRest("Promise", rs, "Timeout")...)
}

func (c *Checker) commitReqs() []req {
	rs := []req{
		{"Topic", func(k *reqCtx) string {
			if !k.c.sameVal(k.st, k.f("Topic"), k.bf("Topic")) {
				return "must be the one in the request"
			}
			if hasNUL(k.st, k.f("Topic")) != 0 {
				return "must be known to contain no null character"
			}
			return ""
		}},
		{"State", func(k *reqCtx) string {
			v, b := k.f("State"), k.bf("State")
			if v.K != KAddr && !k.st.notNil(v) {
				return "must be present"
			}
			x := k.c.deref(k.st, v)
			switch k.st.known(mkIsNil(b)) {
			case 0:
				if !k.c.sameVal(k.st, x, k.c.deref(k.st, b)) {
					return "must be the one in the request"
				}
			case 1:
				if n, ok := k.st.norm(x).intConst(); !ok || n != k.c.stateConst("TaskStateCompleted") {
					return "must be completed by default"
				}
			default:
				return "is set whether or not the request specifies it"
			}
			return k.stateRange(x)
		}},
		{"Scheduled", func(k *reqCtx) string {
			return k.instant("Scheduled", "Defer", func(v *Term) string {
				if !k.st.isNil(v) {
					return "must be absent by default"
				}
				return ""
			})
		}},
	}
	return append(rs, c.sameRest("Commit", rs, "Defer")...)
}

func (c *Checker) requireAll(rule, where string, e *Event, k *reqCtx, rs []req) {
	for _, r := range rs {
		msg := r.ok(k)
		c.must(msg == "", rule, where+" "+r.field, e.Pos, k.st, "field %s handed to the storage engine %s", r.field, msg)
	}
}

// elements lists the pointers to elements of a list of the request that a state
// knows about.
func elementsOf(st *State, data *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t == nil || d > 8 {
			return
		}
		if t.isOp("index") && t.Args[0] == data {
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
			return
		}
		for _, a := range t.Args {
			rec(a, d+1)
		}
	}
	for _, f := range st.facts.list {
		rec(f.t, 0)
	}
	st.heap.diff(Heap{}, func(a, b *Obj) {
		for _, o := range []*Obj{a, b} {
			if o != nil && o.Lazy != nil {
				rec(o.Lazy, 0)
			}
		}
	})
	return
}

// listElements checks the elements of a list handed to the engine: each requirement
// is established by a loop over all of them, and nothing undoes it.
func (c *Checker) listElements(rule string, o *apiOut, e *Event, data *Term, rs []req) {
	st := &e.St
	arg := st.norm(e.Args[2])
	same := c.sameVal(st, arg, data)
	if !same {
		none := st.isNil(data) || st.isTrue(mkEq0(toLin(mkLen(data))))
		c.must(none && st.isTrue(mkEq0(toLin(mkLen(arg)))), rule, o.where+" list", e.Pos, st, "the tasks handed to the storage engine must be those in the request")
		return
	}
	c.ok(rule)
	if st.isTrue(mkEq0(toLin(mkLen(data)))) {
		c.ok(rule)
		return
	}
	type pass struct {
		l    *Loop
		step *Step
		els  []*Term
	}
	var loops [][]pass
	for _, x := range before(o.ev, e) {
		if x.Loop == nil {
			continue
		}
		var ps []pass
		for _, s := range x.Loop.Steps {
			if els := elementsOf(&s.St, data); len(els) > 0 {
				ps = append(ps, pass{x.Loop, s, els})
			}
		}
		loops = append(loops, ps)
	}
	kctx := func(s *Step, p *Term) *reqCtx {
		b := pristine(p)
		var v *Term
		if s.St.notNil(p) {
			v = c.deref(&s.St, p)
		} else {
			v = b
		}
		return &reqCtx{c: c, st: &s.St, ev: append(append([]*Event{}, before(o.ev, e)...), s.Events...), v: v, b: b, topic: o.topic}
	}
	holds := func(r *req, ps []pass, k int) bool {
		if k < len(loops) && len(ps) == 0 {
			return false
		}
		var idx *Term
		for _, p := range ps {
			if len(p.els) != 1 || idx != nil && p.els[0].Args[1] != idx {
				return false
			}
			idx = p.els[0].Args[1]
			if !p.step.St.notNil(p.els[0]) {
				return false
			}
			if r != nil && r.ok(kctx(p.step, p.els[0])) != "" {
				return false
			}
		}
		return len(ps) > 0 && len(ps) == len(ps[0].l.Steps) && c.coversIdx(st, ps[0].l, idx, data)
	}
	present := req{"element", func(k *reqCtx) string { return "" }}
	for _, r := range append([]req{present}, rs...) {
		ok := false
		for i, ps := range loops {
			if holds(&r, ps, i) {
				ok = true
			}
		}
		msg := "is not known to satisfy its requirement for every element of the list"
		for _, ps := range loops {
			for _, p := range ps {
				for _, el := range p.els {
					if !p.step.St.notNil(el) || r.field == "element" {
						continue
					}
					k := kctx(p.step, el)
					if !c.sameVal(k.st, k.f(r.field), k.bf(r.field)) {
						if m := r.ok(k); m != "" {
							ok, msg = false, m
						}
					}
				}
			}
		}
		// Nothing may be changed one element at a time after the loops either.
		for _, el := range elementsOf(st, data) {
			if r.field == "element" || !st.notNil(el) {
				continue
			}
			k := &reqCtx{c: c, st: st, ev: o.ev, v: c.deref(st, el), b: pristine(el), topic: o.topic}
			v, b := k.f(r.field), k.bf(r.field)
			if !c.sameVal(st, v, b) && !c.loopCell(o.ev, v) {
				if m := r.ok(k); m != "" {
					ok, msg = false, m
				}
			}
		}
		c.must(ok, rule, o.where+" "+r.field, e.Pos, st, "%s of the tasks handed to the storage engine %s", r.field, msg)
	}
}

// loopCell: the value was left behind by a loop.
func (c *Checker) loopCell(ev []*Event, v *Term) bool {
	for _, e := range ev {
		if e.Loop != nil {
			for _, l := range e.Loop.Cells {
				if containsTerm(v, l.Sym) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Checker) apiValidation() {
	task, promise, commit := c.taskReqs(), c.promiseReqs(), c.commitReqs()
	c.eachAPI(func(o *apiOut) {
		if o.spec == nil || len(o.spec.ops) == 0 || o.ret.Panic || o.ret.Exit {
			return
		}
		b, failed, empty := o.bound()
		for _, e := range o.eng {
			st := &e.St
			c.must(!failed, "valid-bind", o.where, e.Pos, st, "a request that could not be decoded must be rejected")
			args := o.spec.argsFor(e.Name)
			for i, kind := range args {
				if 2+i >= len(e.Args) {
					continue
				}
				arg := st.norm(e.Args[2+i])
				k := &reqCtx{c: c, st: st, ev: o.ev, b: b, topic: o.topic, id: o.id}
				switch kind {
				case "task", "promise", "commit":
					if b == nil || arg.K != KAddr && !st.notNil(arg) {
						c.must(false, "valid-"+kind, o.where, e.Pos, st, "the %s handed to the storage engine must be the one in the request", kind)
						continue
					}
					k.v = c.deref(st, arg)
					switch kind {
					case "task":
						c.must(!empty, "valid-body", o.where, e.Pos, st, "a request without a body must be rejected")
						c.requireAll("valid-task", o.where, e, k, task)
					case "promise":
						c.must(c.boundFrom(o, e, "bind.json") && c.boundFrom(o, e, "bind.query"), "valid-promise", o.where+" sources", e.Pos, st, "promises must be read from the body and the query parameters of the request")
						c.requireAll("valid-promise", o.where, e, k, promise)
					case "commit":
						c.requireAll("valid-commit", o.where, e, k, commit)
					}
				case "tasks":
					c.must(!empty, "valid-body", o.where, e.Pos, st, "a request without a body must be rejected")
					c.listElements("valid-tasks", o, e, mkField2(b, "Data"), task)
				case "limit":
					c.pageArg("valid-limit", o, e, arg, tagged(b, "form", "limit"), c.flag("--pagination-max-limit"), true)
				case "offset":
					c.pageArg("valid-offset", o, e, arg, tagged(b, "form", "offset"), c.flag("--pagination-max-offset"), false)
				}
			}
		}
		// Requests are only rejected for a reason.
		if len(o.eng) == 0 && o.spec.argsFor(o.spec.ops[0]) != nil {
			c.must(c.invalid(o, b, failed, empty), "valid-accept", o.where, o.pos(), o.st, "the request is rejected although nothing is known to be wrong with it")
		}
	})
	for r, n := range map[string]int{"valid-task": 2, "valid-tasks": 2, "valid-promise": 2, "valid-commit": 1, "valid-limit": 3, "valid-offset": 3, "valid-accept": 4, "valid-bind": 9} {
		c.atLeast(r, n)
	}
}

// boundFrom: the request was decoded from a source before the event, into the
// same kind of value.
func (c *Checker) boundFrom(o *apiOut, before *Event, kind string) bool {
	for _, e := range o.ev {
		if e == before {
			return false
		}
		if e.Kind == kind && len(e.Args) > 1 {
			if s := structOf(derefType(unIface(e.St.norm(e.Args[1])).T)); s != nil {
				return true
			}
		}
	}
	return false
}

func (c *Checker) pageArg(rule string, o *apiOut, e *Event, arg, b, max *Term, limit bool) {
	st := &e.St
	what := strings.TrimPrefix(rule, "valid-")
	if b == nil || max == nil {
		c.must(false, rule, o.where, e.Pos, st, "the %s parameter of the request or its maximum could not be found", what)
		return
	}
	a := toLin(st.norm(arg))
	c.must(st.isTrue(mkGe0(a)), rule, o.where+" negative", e.Pos, st, "the %s must be known not to be negative", what)
	c.must(st.isTrue(mkGe0(toLin(st.norm(max)).add(a, -1))), rule, o.where+" maximum", e.Pos, st, "the %s must be known not to exceed the configured maximum", what)
	if c.sameVal(st, arg, b) && (!limit || st.isFalse(mkEq0(toLin(b)))) {
		c.ok(rule)
		return
	}
	ok := false
	if limit && st.isTrue(mkEq0(toLin(b))) {
		if n, isC := c.x.prog.constInt(modPath, "DefaultLimit"); isC && n > 0 {
			d := lin{c: n}
			if k, isK := st.norm(arg).intConst(); isK && k == n {
				ok = true // not above the maximum, as checked
			}
			ok = ok || c.sameVal(st, arg, max) && st.isTrue(mkGe0(d.add(toLin(st.norm(max)), -1)))
		}
	}
	c.must(ok, rule, o.where+" value", e.Pos, st, "the %s must be the one in the request or the default (value %v)", what, arg)
}

// invalid: the facts of the path include a reason to reject the request.
func (c *Checker) invalid(o *apiOut, b *Term, failed, empty bool) bool {
	if failed {
		return true
	}
	st := o.st
	k := &reqCtx{c: c, st: st, ev: o.ev, v: b, b: b, topic: o.topic, id: o.id}
	nonneg := func(l lin) bool { return st.isTrue(mkGe0(l)) }
	neg := func(t *Term) bool { return st.isFalse(mkGe0(toLin(st.norm(t)))) }
	badState := func(t *Term) bool {
		l := toLin(st.norm(t))
		other := true
		for k := c.stateConst("TaskStatePending"); k <= c.stateConst("TaskStateArchived"); k++ {
			other = other && st.isFalse(mkEq0(l.add(lin{c: k}, -1)))
		}
		return other || st.isFalse(mkGe0(l.add(lin{c: c.stateConst("TaskStatePending")}, -1))) || st.isFalse(mkGe0(lin{c: c.stateConst("TaskStateArchived")}.add(l, -1)))
	}
	badDur := func(t *Term) bool { return st.known(mkOp("durOK", types.Typ[types.Bool], st.norm(t))) == 0 }
	task := func(k *reqCtx, id *Term) bool {
		f := k.bf
		nul := func(t *Term) bool { return t != nil && hasNUL(st, t) == 1 }
		differ := id != nil && k.empty(id) != 1 && k.empty(f("ID")) == 0 && st.isFalse(mkEq(f("ID"), st.norm(id)))
		return k.empty(f("ID")) == 1 && (id == nil || k.empty(id) == 1) || differ ||
			k.empty(f("Topic")) == 1 && (k.topic == nil || k.empty(k.topic) == 1) ||
			nul(f("ID")) || nul(f("Topic")) ||
			id != nil && k.empty(f("ID")) == 1 && nul(id) || k.empty(f("Topic")) == 1 && nul(k.topic) ||
			badState(f("State")) || badDur(f("Defer"))
	}
	for _, kind := range o.spec.argsFor(o.spec.ops[0]) {
		switch kind {
		case "task":
			if empty || task(k, o.id) {
				return true
			}
		case "tasks":
			if empty {
				return true
			}
			data := mkField2(b, "Data")
			for _, el := range elementsOf(st, data) {
				if st.isNil(el) {
					return true
				}
				if st.notNil(el) && task(&reqCtx{c: c, st: st, b: pristine(el), topic: o.topic}, nil) {
					return true
				}
			}
		case "promise":
			if o.id != nil && k.empty(o.id) != 1 && k.empty(k.bf("ID")) == 0 && st.isFalse(mkEq(k.bf("ID"), st.norm(o.id))) {
				return true
			}
			if badDur(k.bf("Timeout")) {
				return true
			}
		case "commit":
			if hasNUL(st, k.bf("Topic")) == 1 || badDur(k.bf("Defer")) {
				return true
			}
			if s := k.bf("State"); st.notNil(s) && badState(c.deref(st, s)) {
				return true
			}
		case "limit", "offset":
			v, max := tagged(b, "form", kind), c.flag("--pagination-max-"+kind)
			if v == nil || max == nil {
				continue
			}
			if neg(v) || st.isFalse(mkGe0(toLin(st.norm(max)).add(toLin(st.norm(v)), -1))) {
				return true
			}
			// The default is out of range if the maximum is.
			if kind == "limit" && st.isTrue(mkEq0(toLin(st.norm(v)))) && neg(max) {
				return true
			}
			_ = nonneg
		}
	}
	return false
}
