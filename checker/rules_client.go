package main

// Rules over the Go client: what each exported method of Client sends for
// arbitrary arguments, and what it makes of an arbitrary response.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// clientOps names the storage operation behind methods whose name differs.
var clientOps = map[string]string{"PatchTask": "Commit", "PostPromises": "Poll", "GetReadiness": "Ready", "GetLiveness": "-"}

var clientMethods = []string{
	"ListTopics", "DeleteTopics", "GetTopic", "DeleteTopic",
	"ListTasks", "InsertTasks", "UpsertTasks", "DeleteTasks",
	"GetTask", "InsertTask", "UpsertTask", "DeleteTask", "PatchTask",
	"ListPromises", "PostPromises", "DeletePromises",
	"GetPromise", "InsertPromise", "UpsertPromise", "DeletePromise",
	"GetLiveness", "GetReadiness",
}

type cliOut struct {
	name  string
	fn    *ssa.Function
	recv  *Term
	ctx   *Term
	args  []*Term // parameters after the context
	ret   *Ret
	st    *State
	ev    []*Event
	sends []*Event
	err   *Term
	val   *Term // nil if the method has no result besides the error
}

func (o *cliOut) pos() token.Pos {
	if len(o.ev) > 0 {
		return o.ev[len(o.ev)-1].Pos
	}
	return o.fn.Pos()
}

func (c *Checker) clientOuts(name string, f func(o *cliOut)) {
	fn := c.x.prog.method(modPath, "Client", name)
	if fn == nil {
		c.fail("entry", "Client."+name, 0, "exported method not found", nil)
		return
	}
	rets := c.explore("Client."+name, fn, nil)
	n := fn.Signature.Results().Len()
	ok := false
	for i := range rets {
		r := &rets[i]
		o := &cliOut{name: name, fn: fn, ret: r, st: &r.St, ev: r.St.events()}
		for j := range fn.Params {
			p := c.param(fn, j)
			switch {
			case j == 0:
				o.recv = p
			case j == 1:
				o.ctx = p
			default:
				o.args = append(o.args, p)
			}
		}
		for _, e := range o.ev {
			if e.Kind == "http.do" {
				o.sends = append(o.sends, e)
			}
		}
		if r.Panic || r.Exit {
			c.fail("client-total", name, o.pos(), "the call may panic or end the process", o.st)
			continue
		}
		if n == 1 {
			o.err = r.V
		} else {
			o.err, o.val = r.res(n-1), r.res(0)
		}
		o.err = o.st.norm(o.err)
		if o.st.isNil(o.err) {
			ok = true
		}
		f(o)
	}
	c.must(ok, "client-can-succeed", name, fn.Pos(), nil, "no call of %s can succeed", name)
}

// urlSeg is one segment of the path of a request.
type urlSeg []*Term

// splitURL splits a URL term into path segments and query parameters.
func splitURL(u *Term) (segs []urlSeg, query map[string][]*Term, hasQuery bool, bad string) {
	parts := []*Term{u}
	if u.K == KConcat {
		parts = u.Args
	}
	query = map[string][]*Term{}
	segs = []urlSeg{nil}
	key, inVal := "", false
	for _, p := range parts {
		s, ok := p.strConst()
		if !ok {
			switch {
			case !hasQuery:
				segs[len(segs)-1] = append(segs[len(segs)-1], p)
			case inVal:
				query[key] = append(query[key], p)
			default:
				bad = "the name of a query parameter is not constant"
			}
			continue
		}
		for _, ch := range s {
			switch {
			case !hasQuery && ch == '?':
				hasQuery = true
			case !hasQuery && ch == '/':
				segs = append(segs, nil)
			case !hasQuery:
				segs[len(segs)-1] = appendChar(segs[len(segs)-1], ch)
			case ch == '&':
				key, inVal = "", false
			case ch == '=' && !inVal:
				inVal = true
				if _, dup := query[key]; dup {
					bad = "a query parameter occurs twice"
				}
				query[key] = nil
			case inVal:
				query[key] = appendChar(query[key], ch)
			default:
				key += string(ch)
			}
		}
	}
	return
}

func appendChar(s []*Term, ch rune) []*Term {
	if n := len(s); n > 0 {
		if q, ok := s[n-1].strConst(); ok {
			return append(s[:n-1:n-1], mkStr(q+string(ch)))
		}
	}
	return append(s, mkStr(string(ch)))
}

func (s urlSeg) literal() (string, bool) {
	switch len(s) {
	case 0:
		return "", true
	case 1:
		return s[0].strConst()
	}
	return "", false
}

// escaped recognises a string made safe for a path segment, such that neither
// a path separator, a query separator nor a plus sign of it survives.
func escaped(t *Term) *Term {
	rep := func(t *Term, from string) (*Term, string, bool) {
		if t.isOp("fn:strings.ReplaceAll") && len(t.Args) == 3 {
			a, ok1 := t.Args[1].strConst()
			b, ok2 := t.Args[2].strConst()
			return t.Args[0], b, ok1 && ok2 && a == from
		}
		return nil, "", false
	}
	if in, by, ok := rep(t, "+"); ok && (by == "%2B" || by == "%2b") && in.isOp("fn:net/url.PathEscape") {
		return in.Args[0]
	}
	// QueryEscape writes spaces as plus signs, and escapes those of the string.
	if in, by, ok := rep(t, "+"); ok && by == "%20" && in.isOp("fn:net/url.QueryEscape") {
		return in.Args[0]
	}
	return nil
}

// matchRoute finds the mounted endpoint a request reaches.
func (c *Checker) matchRoute(method string, segs []urlSeg) (r *apiRoute, params []urlSeg) {
	best := -1
	for _, q := range c.api().routes {
		if q.method != method {
			continue
		}
		ps := strings.Split(q.path, "/")
		if len(ps) != len(segs) {
			continue
		}
		ok, score := true, 0
		var cap []urlSeg
		for i, p := range ps {
			if strings.HasPrefix(p, ":") {
				cap = append(cap, segs[i])
				continue
			}
			if l, isLit := segs[i].literal(); !isLit || l != p {
				ok = false
				break
			}
			score++
		}
		if ok && score > best {
			best, r, params = score, q, cap
		}
	}
	return
}

// jsonOf returns the value whose JSON encoding a request body reads.
func (c *Checker) jsonOf(o *cliOut, body *Term) *Term {
	b := unIface(o.st.norm(body))
	for _, e := range o.ev {
		if e.Kind == "call" && len(e.Res) == 1 && o.st.norm(e.Res[0]) == b && len(e.Args) >= 1 {
			switch e.Name {
			case "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "bytes.NewBufferString":
				b = o.st.norm(e.Args[0])
			}
		}
	}
	// A buffer that the value was encoded into, and nothing else was written to.
	var enc *Event
	for _, e := range o.ev {
		if kindIn(e, "text.write", "text.reset") && len(e.Args) > 0 && o.st.norm(e.Args[0]) == b {
			return nil
		}
		if e.Kind != "json.encode" || opFailed(o.st, e) {
			continue
		}
		w := o.st.norm(e.Args[0])
		if w.isOp("nonnil:json.enc") && unIface(o.st.norm(w.Args[0])) == b {
			if enc != nil {
				return nil
			}
			enc = e
		}
	}
	if enc != nil {
		return enc.Args[1]
	}
	for b.isOp("conv") || b.isOp("string") || b.isOp("bytes") {
		b = b.Args[0]
	}
	if b.isOp("nonnil:json") {
		return b.Args[0]
	}
	return nil
}

// clientBy returns the i-th argument of a type class.
func (o *cliOut) by(class string, i int) *Term {
	for _, a := range o.args {
		ok := false
		switch class {
		case "string":
			ok = isStringy(a.T)
		case "int":
			ok = isIntish(a.T)
		case "ptr":
			ok = derefType(a.T) != nil
		case "slice":
			_, ok = a.T.Underlying().(*types.Slice)
		}
		if ok {
			if i == 0 {
				return a
			}
			i--
		}
	}
	return nil
}

// clientRequests decides what every method sends.
func (c *Checker) clientRequests() {
	known := map[string]bool{}
	for _, n := range clientMethods {
		known[n] = true
		c.clientOuts(n, func(o *cliOut) { c.clientSend(o) })
	}
	for _, r := range []string{"client-one-request", "client-endpoint", "client-context", "client-arguments", "client-refuse"} {
		c.atLeast(r, 20)
	}
	c.atLeast("client-body", 7)
	c.atLeast("client-page", 6)
	// Every documented operation must be reachable from the client.
	for k, sp := range apiSpecs {
		for _, op := range sp.ops {
			n := op
			for a, b := range clientOps {
				if b == op {
					n = a
				}
			}
			c.must(known[n], "client-complete", k+" "+op, 0, nil, "no method of the client is known to perform %s", op)
		}
	}
}

func (c *Checker) clientSend(o *cliOut) {
	n := o.name
	if !c.must(len(o.sends) <= 1, "client-one-request", n, o.pos(), o.st, "one call sends %d requests", len(o.sends)) {
		return
	}
	for _, s := range segs(o.ret, map[*Step]bool{}) {
		if s.Step == nil {
			continue
		}
		for _, e := range s.Ev {
			c.must(!strings.HasPrefix(e.Kind, "http."), "client-one-request", n, e.Pos, s.St, "requests may be sent repeatedly")
		}
	}
	if len(o.sends) == 0 {
		c.clientRefused(o)
		return
	}
	d := o.sends[0]
	st := &d.St
	// The request sent is the one built from the arguments.
	var nr *Event
	for _, e := range o.ev {
		if e.Kind == "http.newrequest" && len(e.Res) == 2 && st.norm(e.Res[0]) == st.norm(d.Args[1]) {
			nr = e
		}
	}
	cl := mkField2(pristine(o.recv), "client")
	c.must(st.norm(d.Args[0]) == st.norm(cl), "client-endpoint", n+".client", d.Pos, st, "the request is not sent by the client's own HTTP client")
	if !c.must(nr != nil, "client-endpoint", n+".request", d.Pos, st, "the request sent is not one that was built by this call") {
		return
	}
	c.must(sameLife(st, nr.Args[0], func(v *Term) bool { return v == st.norm(o.ctx) }), "client-context", n, nr.Pos, st, "the request does not carry the context of the caller (%v)", nr.Args[0])
	method, ok := st.norm(nr.Args[1]).strConst()
	if !c.must(ok, "client-endpoint", n+".method", nr.Pos, st, "the method of the request is not constant") {
		return
	}
	sg, query, _, bad := splitURL(st.norm(nr.Args[2]))
	if !c.must(bad == "", "client-endpoint", n+".url", nr.Pos, st, "%s", bad) {
		return
	}
	r, params := c.matchRoute(method, sg)
	if !c.must(r != nil, "client-endpoint", n, nr.Pos, st, "no mounted endpoint matches %s %v", method, nr.Args[2]) {
		return
	}
	key, _ := routeKey(r.method, r.path)
	spec, ok := apiSpecs[key]
	op := nonEmpty(clientOps[n], n)
	found := op == "-" && key == "GET /livez"
	for _, p := range spec.ops {
		found = found || p == op
	}
	if !c.must(ok && found, "client-endpoint", n, nr.Pos, st, "the request reaches %s, which does not perform %s", key, op) {
		return
	}
	// Names are the arguments, escaped.
	var body *Term
	for _, a := range spec.argsFor(op) {
		switch a {
		case "topic":
			c.segIs(o, nr, "topic", params, 0, o.by("string", 0))
		case "id":
			c.segIs(o, nr, "id", params, 1, o.by("string", 0))
		case "tasks":
			body = o.by("slice", 0)
		case "task", "promise", "commit":
			body = o.by("ptr", 0)
			if a != "commit" && len(params) > 1 && body != nil {
				c.segIs(o, nr, "id", params, 1, mkField2(pristine(body), "ID"))
			}
		}
		if (a == "task" || a == "tasks") && len(params) > 0 {
			l, lit := params[0].literal()
			c.must(lit && l == "" || a == "task" && body != nil && len(params[0]) == 1 && escaped(params[0][0]) != nil && c.sameVal(st, escaped(params[0][0]), mkField2(pristine(body), "Topic")),
				"client-arguments", n+".topic", nr.Pos, st, "the topic of the path is not that of the task")
		}
	}
	c.ok("client-arguments")
	// Query.
	want := map[string]*Term{}
	for _, a := range spec.argsFor(op) {
		switch a {
		case "limit":
			want[a] = o.by("int", 0)
		case "offset":
			want[a] = o.by("int", 1)
		}
	}
	for k, w := range want {
		v := query[k]
		c.must(len(v) == 1 && w != nil && numText(v[0]) == st.norm(w), "client-page", n+"."+k, nr.Pos, st, "query parameter %s is not the %s of the caller (%v)", k, k, v)
	}
	for k := range query {
		c.must(want[k] != nil, "client-page", n+"."+k, nr.Pos, st, "undocumented query parameter %q", k)
	}
	// Body.
	b := st.norm(nr.Args[3])
	if body == nil {
		c.must(b.isNilConst() || st.isNil(b), "client-body", n, nr.Pos, st, "the request carries a body")
		return
	}
	v := c.jsonOf(o, b)
	if !c.must(v != nil, "client-body", n, nr.Pos, st, "the body is not the JSON encoding of the argument (%v)", b) {
		return
	}
	v = unIface(st.norm(v))
	if _, isSlice := body.T.Underlying().(*types.Slice); isSlice {
		s := v
		if derefType(v.T) != nil {
			s = c.deref(st, v)
		}
		f := tagged(s, "json", "data")
		c.must(f != nil && c.sameVal(st, f, body), "client-body", n, nr.Pos, st, "the body does not list the given tasks (%v)", v)
		return
	}
	c.must(c.sameVal(st, v, body), "client-body", n, nr.Pos, st, "the body is not the argument (%v)", v)
	c.must(!c.storedTo(o, body), "client-body", n+".argument", nr.Pos, st, "the argument of the caller is changed")
}

// storedTo: the call writes to the object behind a pointer argument.
func (c *Checker) storedTo(o *cliOut, p *Term) bool {
	T := structOf(derefType(p.T))
	if T == nil {
		return false
	}
	v := c.deref(o.st, p)
	for i := 0; i < T.NumFields(); i++ {
		if o.st.norm(mkField(v, i)) != o.st.norm(mkField(pristine(p), i)) {
			return true
		}
	}
	return false
}

func numText(t *Term) *Term {
	for t.isOp("fn:net/url.QueryEscape") || t.isOp("fn:net/url.PathEscape") {
		t = t.Args[0]
	}
	if t.isOp("itoa") || t.isOp("fn:strconv.Itoa") {
		return t.Args[0]
	}
	return nil
}

func (c *Checker) segIs(o *cliOut, e *Event, what string, params []urlSeg, i int, want *Term) {
	st := &e.St
	if !c.must(i < len(params) && want != nil, "client-arguments", o.name+"."+what, e.Pos, st, "the path does not name the %s", what) {
		return
	}
	s := params[i]
	if !c.must(len(s) == 1 && escaped(s[0]) != nil, "client-arguments", o.name+"."+what, e.Pos, st, "the %s is not placed in the path escaped (%v)", what, s) {
		return
	}
	c.must(c.sameVal(st, escaped(s[0]), want), "client-arguments", o.name+"."+what, e.Pos, st, "the path names %v instead of the given %s", escaped(s[0]), what)
	// A path that ends with an empty name refers to the collection.
	if i == 1 || len(params) == 1 && strings.Count(e.St.norm(e.Args[2]).String(), "?") == 0 {
		u := st.norm(e.Args[2])
		if u.K == KConcat && u.Args[len(u.Args)-1] == s[0] {
			c.must(c.notEmpty(st, s[0], u), "client-refuse", o.name, e.Pos, st, "a request with an empty name is sent, which refers to the whole collection")
		}
	}
}

// notEmpty: the last part of the URL is known not to be empty.
func (c *Checker) notEmpty(st *State, s, u *Term) bool {
	if st.isFalse(mkOp("fn:strings.HasSuffix", types.Typ[types.Bool], u, mkStr("/"))) {
		return true
	}
	for _, t := range []*Term{s, escaped(s)} {
		if st.isFalse(mkEq(t, mkStr(""))) || st.isFalse(mkEq0(toLin(mkLen(t)))) {
			return true
		}
	}
	return false
}

func (c *Checker) emptyName(st *State, o *cliOut) bool {
	for _, l := range st.facts.list {
		if l.truth && l.t.isOp("fn:strings.HasSuffix") {
			if s, ok := l.t.Args[1].strConst(); ok && s == "/" {
				u := st.norm(l.t.Args[0])
				if u.K == KConcat {
					if e := escaped(u.Args[len(u.Args)-1]); e != nil {
						return true
					}
				}
			}
		}
	}
	var names []*Term
	for _, a := range o.args {
		if isStringy(a.T) {
			names = append(names, a)
		}
		if structOf(derefType(a.T)) != nil {
			if f := mkField2(pristine(a), "ID"); f != nil {
				names = append(names, f)
			}
		}
	}
	for _, a := range names {
		if st.isTrue(mkEq(a, mkStr(""))) || st.isTrue(mkEq0(toLin(mkLen(a)))) {
			return true
		}
	}
	return false
}

// clientRefused: calls that send nothing must report why.
func (c *Checker) clientRefused(o *cliOut) {
	if !c.must(o.st.notNil(o.err), "client-refuse", o.name+".silent", o.pos(), o.st, "the call reports success without sending a request") {
		return
	}
	for _, e := range o.ev {
		if kindIn(e, "json.marshal", "json.encode", "http.newrequest") && opFailed(o.st, e) {
			c.ok("client-refuse")
			return
		}
	}
	if !c.must(c.emptyName(o.st, o), "client-refuse", o.name+".dropped", o.pos(), o.st, "a request that could be sent is not sent") {
		return
	}
	c.must(c.errClass(o.st, o.err) == "ErrBadRequest", "client-refuse", o.name+".class", o.pos(), o.st, "an empty name is not reported as a bad request")
}

// ---- responses --------------------------------------------------------------------

func (c *Checker) clientResponses() {
	for _, n := range clientMethods {
		c.clientOuts(n, func(o *cliOut) { c.clientResult(o) })
	}
	c.atLeast("client-failure", 100)
	c.atLeast("client-result", 20)
	c.atLeast("client-status", 100)
	c.atLeast("client-close", 100)
}

// readFailed: the response could not be read or decoded.
func (c *Checker) readFailed(o *cliOut) bool {
	for _, e := range o.ev {
		if kindIn(e, "json.decode", "json.unmarshal", "io.readall") && opFailed(o.st, e) {
			return true
		}
	}
	return false
}

var statusClass = map[int64]string{400: "ErrBadRequest", 404: "ErrNotFound", 409: "ErrConflict", 499: "ErrClientClosedRequest", 500: "ErrInternalServerError", 503: "ErrServiceUnavailable"}

func (c *Checker) clientResult(o *cliOut) {
	n, st := o.name, o.st
	success := st.isNil(o.err)
	c.trusting(st, "client-result", n)
	c.must(success || st.notNil(o.err), "client-failure", n, o.pos(), st, "it cannot be told whether the call succeeded")
	for _, e := range o.ev {
		if kindIn(e, "json.marshal", "json.encode", "http.newrequest", "http.do", "json.decode", "json.unmarshal", "io.readall") && opFailed(st, e) {
			c.must(!success, "client-failure", n+"."+e.Kind, e.Pos, st, "a failure of %s is not reported", e.Name)
			if e.Kind == "http.do" {
				er := st.norm(opErr(e))
				c.must(er == o.err || st.isTrue(mkOp("errIs", types.Typ[types.Bool], o.err, er)), "client-failure", n+".cause", e.Pos, st, "the error of a failed request is replaced by another")
			}
		}
	}
	if !success && o.val != nil {
		c.must(st.isNil(o.val), "client-failure", n+".result", o.pos(), st, "a failed call returns a result")
	}
	if len(o.sends) != 1 || opFailed(st, o.sends[0]) {
		c.must(!success, "client-failure", n+".sent", o.pos(), st, "the call succeeds without a response")
		return
	}
	d := o.sends[0]
	res := st.norm(d.Res[0])
	rv := pristine(res)
	code, body := mkField2(rv, "StatusCode"), st.norm(mkField2(rv, "Body"))
	// The body is closed.
	closed := false
	after := false
	for _, e := range o.ev {
		if e == d {
			after = true
		}
		if after && e.Kind == "call" && strings.HasSuffix(e.Name, ").Close") && len(e.Args) > 0 && st.norm(e.Args[0]) == body {
			closed = true
		}
		if closed && kindIn(e, "json.decode", "io.readall") {
			c.fail("client-close", n, e.Pos, "the body of the response is read after it was closed", st)
		}
	}
	c.must(closed, "client-close", n, d.Pos, st, "the body of the response is not closed")
	// Status.
	isErr := mkGe0(toLin(code).add(lin{}, 1).add(toLin(mkInt(400)), -1))
	switch {
	case st.isFalse(isErr):
		c.ok("client-status")
	case st.isTrue(isErr):
		c.must(!success, "client-status", n+".success", o.pos(), st, "a response with an error status is taken for a success")
	case !success && c.readFailed(o):
		c.ok("client-status")
	default:
		c.fail("client-status", n, o.pos(), "the status of the response is not examined", st)
	}
	var dec *Event
	for _, e := range o.ev {
		if kindIn(e, "json.decode", "json.unmarshal") && c.decodesBody(st, e, body) {
			c.must(dec == nil, "client-result", n+".once", e.Pos, st, "the body of the response is decoded twice")
			dec = e
		}
	}
	if success && o.val != nil {
		if !c.must(dec != nil && !opFailed(st, dec), "client-result", n, o.pos(), st, "the result is not decoded from the response") {
			return
		}
		got := c.deref(st, unIface(dec.Args[1]))
		if _, isSlice := o.val.T.Underlying().(*types.Slice); isSlice || o.fn.Signature.Results().At(0).Type().Underlying() != nil && isSliceT(o.fn.Signature.Results().At(0).Type()) {
			f := tagged(got, "json", "data")
			c.must(f != nil && c.sameVal(st, f, o.val), "client-result", n, o.pos(), st, "the result is not the list in the response (%v)", o.val)
			return
		}
		c.must(st.notNil(o.val) && c.sameVal(st, c.deref(st, o.val), got) && c.allDecoded(got), "client-result", n, o.pos(), st, "the result is not the response (%v)", o.val)
		return
	}
	if success {
		c.ok("client-result")
		return
	}
	if st.isFalse(isErr) {
		// Failed although the server reported success: only if the response
		// could not be decoded.
		c.must(c.readFailed(o), "client-failure", n+".rejected", o.pos(), st, "a successful response is reported as a failure")
		return
	}
	// Error response: classified by the code of its message.
	if dec == nil || opFailed(st, dec) {
		c.ok("client-status")
		return
	}
	got := c.deref(st, unIface(dec.Args[1]))
	obj := tagged(got, "json", "error")
	cd, msg := tagged(obj, "json", "code"), tagged(obj, "json", "message")
	if !c.must(cd != nil && msg != nil, "client-status", n+".message", dec.Pos, st, "the error message of the server is not decoded") {
		return
	}
	c.errFromCode(st, "client-status", n, o.pos(), cd, msg, o.err)
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// allDecoded: the value is entirely what was decoded.
func (c *Checker) allDecoded(v *Term) bool {
	for v.isOp("field") {
		v = v.Args[0]
	}
	if v.K == KStruct {
		for i := range v.Args {
			if !c.allDecoded(v.Args[i]) {
				return false
			}
		}
		return len(v.Args) > 0
	}
	return strings.HasPrefix(v.Op, "in:decoded")
}

func (c *Checker) decodesBody(st *State, e *Event, body *Term) bool {
	d := st.norm(e.Args[0])
	if e.Kind == "json.unmarshal" {
		return d.isOp("nonnil:readall") && unIface(st.norm(d.Args[0])) == unIface(body)
	}
	return d.isOp("nonnil:json.dec") && unIface(st.norm(d.Args[0])) == unIface(body)
}

// errFromCode: the error made of a code and a message is of the class of the
// code and carries the message.
func (c *Checker) errFromCode(st *State, rule, where string, pos token.Pos, code, msg, err *Term) {
	classes := map[string]bool{}
	n := 0
	for k, s := range statusClass {
		switch st.known(mkEq0(toLin(code).add(toLin(mkConst(constInt(k), code.T)), -1))) {
		case 1:
			classes = map[string]bool{s: true}
			n = -100
		case 0:
		default:
			classes[s] = true
		}
		n++
	}
	got := c.errClass(st, err)
	c.must(got != "nil" && got != "unknown", rule, where+".lost", pos, st, "an error response is not reported")
	var names []string
	for s := range classes {
		names = append(names, s)
	}
	sort.Strings(names)
	switch {
	case n < 0:
		c.must(classes[got], rule, where+"."+names[0], pos, st, "a response with the code of %s is reported as %s", names[0], got)
	case len(classes) == 0:
		c.must(got == "other", rule, where+".unknown", pos, st, "a response with an unknown code is reported as %s", got)
	default:
		c.fail(rule, where+".undetermined", pos, fmt.Sprintf("codes of %v are not told apart", names), st)
	}
	txt := st.norm(c.errText(st, err))
	s := ""
	if got != "other" {
		if t := c.sentinel(got); t != nil {
			s, _ = c.errText(st, t).strConst()
		}
	}
	trim := mkOp("fn:strings.TrimPrefix", types.Typ[types.String], st.norm(msg), mkStr(s))
	okT := txt == st.norm(msg) || txt == mkConcat(mkStr(s), trim) ||
		s != "" && txt == mkStr(s) && (st.isTrue(mkEq0(toLin(mkLen(trim)))) || st.isTrue(mkEq(trim, mkStr(""))))
	if !okT && txt.K == KConcat {
		// Any text that contains the whole message.
		for _, p := range txt.Args {
			okT = okT || p == st.norm(msg)
		}
	}
	c.must(okT, rule, where+".text", pos, st, "the message of the server is lost (%v)", txt)
}

// errText is the text of an error value.
func (c *Checker) errText(st *State, e *Term) *Term {
	e = st.norm(e)
	switch {
	case e.isOp("errnew"), e.isOp("errorf"):
		return e.Args[0]
	}
	return mkOp("errtext", types.Typ[types.String], e)
}

// ---- NewClient and its transport ----------------------------------------------------

func (c *Checker) clientTransport() {
	pk := c.x.prog.pkg(modPath)
	fn := pk.Func("NewClient")
	rets := c.explore("NewClient", fn, nil)
	okSeen := 0
	for i := range rets {
		r := &rets[i]
		st := &r.St
		if r.Panic || r.Exit {
			continue
		}
		er := st.norm(r.res(1))
		if !st.isNil(er) {
			c.must(st.notNil(er) && st.isNil(r.res(0)), "client-new", "error", fn.Pos(), st, "a failed call returns a client or no error")
			continue
		}
		okSeen++
		o := c.param(fn, 0)
		ov := pristine(o)
		hc := c.deref(st, mkField2(c.deref(st, r.res(0)), "client"))
		c.must(c.sameVal(st, mkField2(hc, "Timeout"), mkField2(ov, "Timeout")), "client-new", "timeout", fn.Pos(), st, "the timeout of the client is not the configured one")
		tr := st.norm(mkField2(hc, "Transport"))
		if !c.must(tr.K == KIface, "client-new", "transport", fn.Pos(), st, "the transport of the client is not the custom one (%v)", tr) {
			continue
		}
		var parse *Term
		for _, l := range st.facts.list {
			if l.truth && l.t.isOp("isnil") && l.t.Args[0].isOp("fn:net/url.Parse.1") {
				parse = l.t.Args[0]
			}
		}
		if !c.must(parse != nil && c.sameVal(st, parse.Args[0], mkField2(ov, "Origin")), "client-new", "origin", fn.Pos(), st, "the origin is not known to be valid") {
			continue
		}
		c.roundTrip(r, tr, parse, ov)
	}
	c.must(okSeen > 0, "client-new", "can-succeed", fn.Pos(), nil, "no client can be created")
	c.atLeast("client-new", 4)
	c.atLeast("client-transport", 30)
	c.atLeast("client-headers", 4)
}

// roundTrip analyses the transport of a new client for an arbitrary request.
func (c *Checker) roundTrip(r *Ret, tr, parse, ov *Term) {
	st := r.St
	T := tr.T
	if T == nil || types.IsInterface(T) {
		T = tr.Args[0].T
	}
	fn := c.x.prog.methodOf(T, c.x.prog.pkg(modPath).Pkg, "RoundTrip")
	if !c.must(fn != nil, "client-transport", "method", 0, &st, "no method RoundTrip on %v", T) {
		return
	}
	c.x.paths, c.x.limit = 0, false
	req := c.x.named("request", fn.Signature.Params().At(0).Type())
	st.assume(mkIsNil(req), false)
	url0 := mkField2(pristine(req), "URL")
	st.assume(mkIsNil(url0), false)
	mark := len(st.events())
	outs := c.x.callFn(st, fn, []*Term{tr.Args[0], req}, nil, nil, nil)
	c.entries["RoundTrip"] = len(outs)
	c.limits("RoundTrip", fn.Pos())
	for i := range outs {
		o := &outs[i]
		s := &o.St
		if o.Panic || o.Exit {
			c.fail("client-transport", "panic", fn.Pos(), "sending a request may panic", s)
			continue
		}
		var inner []*Event
		ev := s.events()
		if mark > len(ev) {
			mark = len(ev)
		}
		for _, e := range ev[mark:] {
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".RoundTrip") {
				inner = append(inner, e)
			}
		}
		for _, sg := range segs(o, map[*Step]bool{}) {
			if sg.Step != nil {
				for _, e := range sg.Ev {
					c.must(!strings.HasSuffix(e.Name, ".RoundTrip"), "client-transport", "repeat", e.Pos, sg.St, "a request may be sent repeatedly")
				}
			}
		}
		if !c.must(len(inner) == 1, "client-transport", "once", fn.Pos(), s, "the request is sent %d times", len(inner)) {
			continue
		}
		e := inner[0]
		es := &e.St
		// A copy of the request is as good as the request.
		sent := es.norm(e.Args[1])
		c.must(sent == es.norm(req) || sent.K == KAddr, "client-transport", "request", e.Pos, es, "another request is sent")
		if sent.K == KNil {
			continue
		}
		c.must(s.norm(o.res(0)) == s.norm(e.Res[0]) && s.norm(o.res(1)) == s.norm(e.Res[1]), "client-transport", "response", e.Pos, s, "the response is not that of the request")
		// The request is unchanged except for its origin.
		rt := structOf(derefType(req.T))
		rv := c.deref(es, sent)
		url1 := es.norm(mkField2(rv, "URL"))
		if url1.K == KNil {
			c.fail("client-transport", "URL", e.Pos, "the request has no URL", es)
			continue
		}
		for i := 0; i < rt.NumFields(); i++ {
			if n := rt.Field(i).Name(); sent != es.norm(req) && (n == "URL" && url1.K == KAddr || n == "ctx" && es.norm(mkField(rv, i)) == mkOp("nonnil:reqctx", nil, es.norm(req))) {
				continue
			}
			c.must(es.norm(mkField(rv, i)) == es.norm(mkField(pristine(req), i)), "client-transport", rt.Field(i).Name(), e.Pos, es, "field %s of the request is changed", rt.Field(i).Name())
		}
		ut := structOf(derefType(url0.T))
		uv := c.deref(es, url1)
		for i := 0; i < ut.NumFields(); i++ {
			f := ut.Field(i).Name()
			v, old := es.norm(mkField(uv, i)), es.norm(mkField(pristine(url0), i))
			if f != "Scheme" && f != "Host" {
				c.must(v == old, "client-transport", "URL."+f, e.Pos, es, "field %s of the URL is changed", f)
				continue
			}
			want := c.parsedField(es, parse, f)
			if !c.must(want != nil, "client-transport", "origin."+f, e.Pos, es, "the %s of the origin is not used", strings.ToLower(f)) {
				continue
			}
			empty := es.known(mkEq0(toLin(mkLen(want))))
			switch {
			case v == es.norm(want):
				c.ok("client-transport")
			case empty == 1 && v == old:
				c.ok("client-transport")
			default:
				c.fail("client-transport", "URL."+f, e.Pos, fmt.Sprintf("the %s of the URL is %v instead of that of the origin", strings.ToLower(f), v), es)
			}
		}
		c.headerRules(o, ev[mark:], e, req, ov)
	}
}

// parsedField: the field of the URL parsed from the origin.
func (c *Checker) parsedField(st *State, parse *Term, f string) *Term {
	T := c.x.prog.typeNamed("net/url", "URL")
	if T == nil {
		return nil
	}
	p := mkOp("fn:net/url.Parse.0", types.NewPointer(T), parse.Args...)
	return st.norm(mkField2(pristine(p), f))
}

// headerRules: every configured header is set unless the request has it.
func (c *Checker) headerRules(o *Ret, ev []*Event, inner *Event, req, ov *Term) {
	st := &inner.St
	hdr := st.norm(mkField2(pristine(req), "Header"))
	conf := st.norm(mkField2(ov, "Headers"))
	nloop := 0
	isSet := func(e *Event) bool {
		return e.Kind == "call" && (e.Name == "(net/http.Header).Set" || e.Name == "(net/http.Header).Add" || e.Name == "(net/http.Header).Del")
	}
	asked := map[*Term]*Event{} // last inquiry for a header
	var loops []*Event          // that set the configured headers
	for _, e := range ev {
		if e == inner {
			break
		}
		if e.Kind == "header.get" && st.norm(e.Args[0]) == hdr {
			asked[st.norm(e.Args[1])] = e
		}
		if isSet(e) && st.norm(e.Args[0]) == hdr {
			// The default must not take the place of a configured header.
			a := asked[st.norm(e.Args[1])]
			late := len(loops) > 0 && a != nil && precedes(ev, loops[len(loops)-1], a)
			c.must(late || st.isNil(conf) || c.hasHeader(&e.St, conf, e.Args[1]) == 0, "client-headers", "default", e.Pos, &e.St, "a default is set before the configured headers are")
			k, ok := e.Args[1].strConst()
			absent := c.hasHeader(&e.St, hdr, e.Args[1]) == 0
			c.must(e.Name == "(net/http.Header).Set" && ok && k == "User-Agent" && absent, "client-headers", "extra", e.Pos, &e.St, "header %v of the request is changed", e.Args[1])
		}
		if e.Loop == nil || e.St.isNil(conf) {
			continue
		}
		for _, s := range e.Loop.Steps {
			sets := 0
			for _, se := range s.Events {
				if isSet(se) && se.St.norm(se.Args[0]) == hdr {
					sets++
					okv := len(se.Args) == 3 && se.Name == "(net/http.Header).Set" && se.Args[2].isOp("mapget") && se.St.norm(se.Args[2].Args[0]) == conf && se.St.norm(se.Args[2].Args[1]) == se.St.norm(se.Args[1])
					c.must(okv, "client-headers", "value", se.Pos, &se.St, "a header is not set to its configured value (%v)", se.Args)
					absent := c.hasHeader(&se.St, hdr, se.Args[1]) == 0
					c.must(absent, "client-headers", "present", se.Pos, &se.St, "a header that the request already has is replaced")
				}
			}
			if k := rangeKey(s, conf); k != nil {
				nloop++
				if len(loops) == 0 || loops[len(loops)-1] != e {
					loops = append(loops, e)
				}
				c.must(sets == 1 || c.hasHeader(&s.St, hdr, k) == 1, "client-headers", "missing", e.Pos, &s.St, "a configured header is not set")
			}
		}
	}
	c.must(nloop > 0 || st.isNil(conf) || st.isTrue(mkEq0(toLin(mkLen(conf)))), "client-headers", "all", inner.Pos, st, "the configured headers are not set")
}

// rangeKey is the key an iteration over the map visits.
func rangeKey(s *Step, m *Term) *Term {
	for _, e := range s.Events {
		if e.Kind == "map.next" && s.St.norm(e.Args[0]) == m && s.St.isTrue(e.Res[0]) {
			return e.Res[1]
		}
	}
	return nil
}

// hasHeader: 1 if the request is known to have the header, 0 if it is known not to.
func (c *Checker) hasHeader(st *State, hdr, k *Term) int {
	for _, l := range st.facts.list {
		if l.t.isOp("maphas") && st.norm(l.t.Args[0]) == hdr && st.norm(l.t.Args[1]) == st.norm(k) {
			if l.truth {
				return 1
			}
			return 0
		}
	}
	if g := mkOp("fn:(net/http.Header).Get", types.Typ[types.String], hdr, k); st.isTrue(mkEq(g, mkStr(""))) {
		return 0
	} else if st.isFalse(mkEq(g, mkStr(""))) {
		return 1
	}
	return -1
}

// trusting: an answer without an optional value must not make the client panic.
func (c *Checker) trusting(st *State, rule, where string) {
	for _, e := range st.events() {
		if e.Kind == "nilderef" {
			c.fail(rule, where+".nil", e.Pos, "an answer of the server can make the client panic", &e.St)
		}
	}
}
