package main

// Rules over the MongoDB engine: what each command sent to the server selects and
// changes, and how its outcome is reported. The server's semantics of a single
// command (atomicity, matching, sorting) are assumptions.

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Checker) mongoFn(name string) *ssa.Function {
	return c.x.prog.method(pkgMongo, "Engine", name)
}

func (c *Checker) mongo(name string) []Ret {
	c.x.opaque[pkgNonce+".Generate"] = true
	return c.method(pkgMongo, "Engine", name)
}

// bent is an entry of a BSON document built by the code.
type bent struct {
	key string
	val *Term
}

type bdoc []bent

func (d bdoc) get(k string) *Term {
	for _, e := range d {
		if e.key == k {
			return e.val
		}
	}
	return nil
}

func (d bdoc) String() string {
	var s []string
	for _, e := range d {
		s = append(s, fmt.Sprintf("%s: %v", e.key, e.val))
	}
	return "{" + strings.Join(s, ", ") + "}"
}

// doc reads a document (bson.D, bson.M) from the heap at a command.
func (c *Checker) doc(st *State, t *Term) (bdoc, bool) {
	if t == nil {
		return nil, false
	}
	t = st.norm(unIface(t))
	var out bdoc
	add := func(k, v *Term) bool {
		s, ok := st.norm(k).strConst()
		if !ok {
			return false
		}
		out = append(out, bent{s, v})
		return true
	}
	switch t.K {
	case KSlice:
		el, ok := c.x.elems(st, t)
		if !ok {
			return nil, false
		}
		for _, e := range el {
			e = st.norm(e)
			if !add(mkField2(e, "Key"), mkField2(e, "Value")) {
				return nil, false
			}
		}
		return out, true
	case KMap:
		o := c.x.cell(st, t)
		if o == nil || o.Val == nil || o.Val.K != KNil {
			return nil, false
		}
		for _, e := range o.Ent {
			if !add(e.K, e.V) {
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

// bval is the value that gets encoded: interfaces and pointers are looked through.
func (c *Checker) bval(st *State, t *Term) *Term {
	t = st.norm(unIface(t))
	if derefType(t.T) != nil && t.K != KNil {
		if st.isNil(t) {
			return mkNil(nil)
		}
		return st.norm(c.deref(st, t))
	}
	return t
}

// mcmd is a command sent to the server.
type mcmd struct {
	e      *Event
	op     string
	st     State  // contents at the time of the command, knowledge at the end of the path
	out    string // ok, none (no document), err, unknown
	err    *Term
	res    *Term
	filter bdoc
	fok    bool
	upd    *Term
	opts   map[string]*Term
	prior  []*mcmd // commands before
}

var mongoWrites = map[string]bool{"FindOneAndUpdate": true, "FindOneAndReplace": true, "FindOneAndDelete": true, "InsertOne": true, "InsertMany": true, "UpdateOne": true, "UpdateByID": true, "UpdateMany": true, "ReplaceOne": true, "DeleteOne": true, "DeleteMany": true, "BulkWrite": true}

func (m *mcmd) write() bool { return mongoWrites[m.op] }

func (c *Checker) mcmds(s Seg) (out []*mcmd) {
	for _, e := range s.Ev {
		if e.Kind == "mongo.drop" {
			out = append(out, &mcmd{e: e, op: "Drop", st: State{heap: e.St.heap, facts: s.St.facts}, out: "unknown"})
			continue
		}
		if e.Kind != "mongo" {
			continue
		}
		m := &mcmd{e: e, op: e.Name, out: "unknown", opts: map[string]*Term{}, prior: out[:len(out):len(out)]}
		m.st = State{heap: e.St.heap, facts: s.St.facts}
		m.res = e.Res[0]
		if len(e.Res) > 1 {
			m.err = e.Res[len(e.Res)-1]
		} else {
			for _, d := range s.Ev {
				if d.Kind == "mongo.decode" && s.St.norm(d.Args[0]) == s.St.norm(m.res) {
					m.err = d.Res[0]
					m.res = mkOp("doc", nil, s.St.norm(m.res))
				}
			}
		}
		if m.err != nil {
			switch er := s.St.norm(m.err); {
			case s.St.isNil(er):
				m.out = "ok"
			case er == errGlobal(mgo+".ErrNoDocuments"):
				m.out = "none"
			case s.St.notNil(er):
				m.out = "err"
			}
		}
		if len(e.Args) > 2 {
			m.filter, m.fok = c.doc(&m.st, e.Args[2])
			if len(e.Args) > 4 {
				m.upd = e.Args[3]
			}
			c.options(m, e.Args[len(e.Args)-1])
		}
		out = append(out, m)
	}
	return
}

// options merges the options passed to a command.
func (c *Checker) options(m *mcmd, t *Term) {
	el, ok := c.x.elems(&m.st, m.st.norm(t))
	if !ok {
		if m.st.norm(t).K != KNil {
			m.opts["?"] = t
		}
		return
	}
	for _, p := range el {
		p = m.st.norm(p)
		if p.K == KNil {
			continue
		}
		c.optFields(m, p)
	}
}

func (c *Checker) optFields(m *mcmd, p *Term) {
	v := c.deref(&m.st, p)
	S := structOf(derefType(p.T))
	if S == nil {
		m.opts["?"] = p
		return
	}
	for i := 0; i < S.NumFields(); i++ {
		f := m.st.norm(mkField(v, i))
		if f.K == KNil || m.st.isNil(f) {
			continue
		}
		m.opts[S.Field(i).Name()] = c.bval(&m.st, f)
	}
}

// isEmptyList: a list without elements that is not nil.
func (c *Checker) isEmptyList(st *State, v *Term) bool {
	el, ok := c.x.elems(st, v)
	return ok && len(el) == 0 && v.K != KNil
}

// opt is the value of an option, nil if it is not set.
func (m *mcmd) opt(n string) *Term { return m.opts[n] }

func (m *mcmd) optInt(n string) (int64, bool) {
	if t := m.opts[n]; t != nil {
		return t.intConst()
	}
	return 0, false
}

// off: a boolean option is not set or false.
func (m *mcmd) off(n string) bool {
	t := m.opts[n]
	if t == nil {
		return true
	}
	b, ok := m.st.norm(t).boolConst()
	return ok && !b
}

func (m *mcmd) on(n string) bool {
	t := m.opts[n]
	if t == nil {
		return false
	}
	b, ok := m.st.norm(t).boolConst()
	return ok && b
}

// key is the name of a field in stored documents.
func (c *Checker) key(typ, field string) string {
	S := structOf(c.x.prog.typeNamed(modPath, typ))
	for i := 0; S != nil && i < S.NumFields(); i++ {
		if S.Field(i).Name() == field {
			k := strings.Split(reflect.StructTag(S.Tag(i)).Get("bson"), ",")[0]
			if k == "" {
				k = strings.ToLower(field)
			}
			return k
		}
	}
	return "?"
}

func (c *Checker) tkey(field string) string { return c.key("Task", field) }

// cond is what a filter must require of a field.
type cond func(m *mcmd, v *Term) bool

func (c *Checker) eqc(want *Term) cond {
	return func(m *mcmd, v *Term) bool {
		if want == nil {
			return false
		}
		w := c.bval(&m.st, want)
		b := c.bval(&m.st, v)
		return w.K != KNil && (c.sameVal(&m.st, b, w) || c.sameVal(&m.st, c.looked(m, b), w))
	}
}

// looked: a field of a document that was looked up by that field has the value
// that was looked for.
func (c *Checker) looked(m *mcmd, v *Term) *Term {
	if len(v.Args) == 0 || !v.Args[0].isOp("doc") {
		return v
	}
	T := structOf(c.x.taskType())
	for _, p := range m.prior {
		if p.op != "FindOne" || p.out != "ok" || !p.fok || c.docTerm(p) != v.Args[0] {
			continue
		}
		for i := 0; i < T.NumFields(); i++ {
			k := c.tkey(T.Field(i).Name())
			if e := p.filter.get(k); mkField(c.docTerm(p), i) == v && e != nil && c.projects(p, k) {
				if _, op := c.doc(&p.st, e); !op {
					return c.bval(&p.st, e)
				}
			}
		}
	}
	return v
}

// opc: a comparison operator with the current time.
func (c *Checker) nowc(ev []*Event, ops ...string) cond {
	return func(m *mcmd, v *Term) bool {
		d, ok := c.doc(&m.st, v)
		if !ok || len(d) != 1 {
			return false
		}
		for _, o := range ops {
			if d[0].key == o {
				return c.isNow(before(ev, m.e))(&m.st, c.bval(&m.st, d[0].val), nil) == ""
			}
		}
		return false
	}
}

func before(ev []*Event, e *Event) (out []*Event) {
	for _, x := range ev {
		if x == e {
			return
		}
		out = append(out, x)
	}
	return
}

// matches: the filter requires exactly the given conditions; extra conditions
// are accepted where extra says so.
func (c *Checker) matches(m *mcmd, want map[string]cond, extra func(k string, v *Term) bool) string {
	if !m.fok {
		return "the filter is not a document the analysis can read"
	}
	seen := map[string]bool{}
	for _, e := range m.filter {
		if seen[e.key] {
			if c.bval(&m.st, m.filter.get(e.key)) == c.bval(&m.st, e.val) {
				continue
			}
			return fmt.Sprintf("the filter requires %s twice", e.key)
		}
		seen[e.key] = true
		if w := want[e.key]; w != nil {
			if !w(m, e.val) {
				return fmt.Sprintf("the filter requires the wrong value of %s: %v", e.key, c.bval(&m.st, e.val))
			}
			continue
		}
		if extra == nil || !extra(e.key, e.val) {
			return fmt.Sprintf("the filter requires %s: %v", e.key, c.bval(&m.st, e.val))
		}
	}
	for k := range want {
		if !seen[k] {
			return "the filter does not require " + k
		}
	}
	return ""
}

// peeks: successful lookups of a single document before a command.
func peeks(cs []*mcmd, m *mcmd) (out []*mcmd) {
	for _, p := range cs {
		if p == m {
			break
		}
		if p.op == "FindOne" && p.out == "ok" {
			out = append(out, p)
		}
	}
	return
}

// peeked: the condition repeats a field of a document looked up before.
func (c *Checker) peeked(cs []*mcmd, m *mcmd, ok func(p *mcmd) bool) func(k string, v *Term) bool {
	return func(k string, v *Term) bool {
		for _, p := range peeks(cs, m) {
			if !ok(p) {
				continue
			}
			T := structOf(c.x.taskType())
			for i := 0; i < T.NumFields(); i++ {
				if c.key("Task", T.Field(i).Name()) != k || !c.projects(p, k) {
					continue
				}
				if c.sameVal(&m.st, c.bval(&m.st, v), c.bval(&m.st, mkField(c.docTerm(p), i))) {
					return true
				}
			}
		}
		return false
	}
}

func (c *Checker) docTerm(p *mcmd) *Term { return mkOp("doc", c.x.taskType(), p.res.Args[0]) }

// projects: the lookup delivers the field.
func (c *Checker) projects(p *mcmd, key string) bool {
	pr := p.opt("Projection")
	if pr == nil {
		return true
	}
	d, ok := c.doc(&p.st, pr)
	if !ok {
		return false
	}
	inc, exc := false, false
	for _, e := range d {
		v := c.bval(&p.st, e.val)
		on := false
		if n, ok := v.intConst(); ok {
			on = n != 0
		} else if b, ok := v.boolConst(); ok {
			on = b
		}
		if e.key == key {
			return on
		}
		if e.key != "_id" {
			inc, exc = inc || on, exc || !on
		}
	}
	if key == "_id" {
		return true
	}
	return exc && !inc
}

// usesPeeked: fields of a looked-up document that the path relies on are delivered.
func (c *Checker) peekedFields(where string, s Seg, cs []*mcmd) {
	T := structOf(c.x.taskType())
	for _, p := range cs {
		if p.op != "FindOne" || p.opt("Projection") == nil {
			continue
		}
		for i := 0; i < T.NumFields(); i++ {
			f := mkField(c.docTerm(p), i)
			used := false
			for _, l := range s.St.facts.list {
				used = used || containsTerm(l.t, f)
			}
			if used {
				k := c.tkey(T.Field(i).Name())
				c.must(c.projects(p, k), "mongo-projection", where, p.e.Pos, s.St, "the decision uses %s, which the lookup does not deliver", k)
			}
		}
	}
}

// onCollection: the command is sent to the collection of the engine.
func (c *Checker) onCollection(where string, m *mcmd) {
	a := m.st.norm(m.e.Args[0])
	if a.isOp("indexview") {
		a = a.Args[0]
	}
	ok := a.isOp("field") && a.Args[0].isOp("deref") && strings.HasSuffix(typeKey(a.Args[0].Args[0].T), "mongodb.Engine")
	c.must(ok, "mongo-collection", where, m.e.Pos, &m.st, "the command is not sent to the collection of the engine: %v", a)
}

// setOnly: the update is exactly {$set: {...}}.
func (c *Checker) setOnly(rule, where string, m *mcmd) (bdoc, bool) {
	d, ok := c.doc(&m.st, m.upd)
	if !c.must(ok && len(d) == 1 && d[0].key == "$set", rule, where, m.e.Pos, &m.st, "the update does something else than setting fields: %v", d) {
		return nil, false
	}
	s, ok := c.doc(&m.st, d[0].val)
	if !c.must(ok, rule, where, m.e.Pos, &m.st, "the fields set by the update are not known") {
		return nil, false
	}
	return s, true
}

// setsExactly compares the fields set by an update with a specification.
func (c *Checker) setsExactly(rule, where string, m *mcmd, spec fieldSpec) {
	s, ok := c.setOnly(rule, where, m)
	if !ok {
		return
	}
	keys := map[string]string{}
	for f := range spec {
		keys[c.tkey(f)] = f
	}
	seen := map[string]bool{}
	for _, e := range s {
		f := keys[e.key]
		if !c.must(f != "" && !seen[e.key], rule, where+"."+e.key, m.e.Pos, &m.st, "the update sets %s, which must not change (or twice)", e.key) {
			continue
		}
		seen[e.key] = true
		msg := spec[f](&m.st, c.bval(&m.st, e.val), nil)
		c.must(msg == "", rule, where+"."+f, m.e.Pos, &m.st, "field %s of the stored task %s (value %v)", f, msg, c.bval(&m.st, e.val))
	}
	for _, f := range sortedKeys(spec) {
		c.must(seen[c.tkey(f)], rule, where+"."+f, m.e.Pos, &m.st, "the update does not set %s", f)
	}
}

func sortedKeys(m fieldSpec) []string {
	var out []string
	for _, n := range []string{"ID", "Topic", "State", "Nonce", "Producer", "Consumer", "Produced", "Scheduled", "Consumed", "Deadline", "Payload"} {
		if m[n] != nil {
			out = append(out, n)
		}
	}
	return out
}

// same: values of pointers, for values that may be stored as such.
func (c *Checker) isSameB(w *Term) func(st *State, v, base *Term) string {
	return func(st *State, v, base *Term) string {
		if w == nil {
			return "must be known"
		}
		x := c.bval(st, w)
		if x.K == KNil && v.K == KNil || st.norm(w) == v || c.sameVal(st, v, x) {
			return ""
		}
		return fmt.Sprintf("must be %v", x)
	}
}

// rawErrors: the property under which a method must not leak the error of the driver
// for a missing document.
var rawErrors = map[string]string{"Poll": "C02", "Commit": "C04", "InsertPromise": "C01", "UpsertPromise": "C01"}

// mongoOutcomes visits all outcomes with the commands of their own segment, after
// the rules common to all methods.
func (c *Checker) mongoOutcomes(name string, f func(r *Ret, s Seg, class string, cs []*mcmd)) {
	where := "mongodb.Engine." + name
	seen := map[*Step]bool{}
	rets := c.mongo(name)
	c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
		for i, s := range segs(r, seen) {
			cs := c.mcmds(s)
			for _, m := range cs {
				if m.op != "RunCommand" {
					c.onCollection(where, m)
				}
			}
			c.peekedFields(where, s, cs)
			if i > 0 {
				// Repetition: nothing may have been changed by the abandoned attempt.
				for _, m := range cs {
					if m.write() {
						c.must(m.out == "none", "mongo-retry", where, m.e.Pos, s.St, "the operation is repeated although the command may have been applied")
					}
				}
				f(r, s, "retry", cs)
				continue
			}
			if class == "unknown" && c.recursed(where, r) {
				for _, m := range cs {
					if m.write() {
						c.must(m.out == "none" || c.falls(s, m), "mongo-retry", where, m.e.Pos, s.St, "the operation is repeated although the command may have been applied")
					}
				}
				class = "retry"
			}
			if class != "nil" && class != "retry" && rawErrors[name] == c.id {
				failed := false
				for _, m := range cs {
					failed = failed || m.out != "ok" && m.out != "none"
				}
				c.must(failed || anyFailed(s.St, notMongo(s.Ev)) || class == "ErrNotFound" || class == "ErrConflict", "mongo-error", where, posOf(s.Ev), s.St, "the operation reports %s although no command failed", class)
				c.must(s.St.norm(errRes(r)) != errGlobal(mgo+".ErrNoDocuments"), "mongo-error", where, posOf(s.Ev), s.St, "the error of the driver is returned when no document matches")
			}
			f(r, s, class, cs)
		}
	})
}

func notMongo(ev []*Event) (out []*Event) {
	for _, e := range ev {
		if !strings.HasPrefix(e.Kind, "mongo") {
			out = append(out, e)
		}
	}
	return out
}

// recursed: the results are those of the same operation on the same arguments.
func (c *Checker) recursed(where string, r *Ret) bool {
	st := &r.St
	er := st.norm(errRes(r))
	for _, e := range st.events() {
		if e.Kind != "recurse" || len(e.Res) == 0 || st.norm(e.Res[len(e.Res)-1]) != er {
			continue
		}
		ok := true
		for i, v := range e.Res {
			ok = ok && st.norm(r.res(i)) == st.norm(v)
		}
		outer, _ := e.Tag.(*Frame)
		ok = ok && outer != nil && len(outer.args) == len(e.Args)
		for i := range e.Args {
			ok = ok && st.norm(outer.args[i]) == st.norm(e.Args[i])
		}
		return c.must(ok, "mongo-retry", where, e.Pos, st, "the operation is repeated with other arguments")
	}
	return false
}

// falls: the command failed in a way that leads to the fallback.
func (c *Checker) falls(s Seg, m *mcmd) bool {
	if m.out != "err" {
		return false
	}
	for _, l := range s.St.facts.list {
		if l.truth && containsTerm(l.t, s.St.norm(m.err)) && l.t.K == KOp && strings.HasSuffix(l.t.Op, "HasErrorCode") {
			return true
		}
	}
	return false
}

func mongoWhere(n string) string { return "mongodb.Engine." + n }

// finalWrite: on success exactly the last write was applied; on failure none was.
func (c *Checker) finalWrite(rule, where string, r *Ret, s Seg, class string, cs []*mcmd) *mcmd {
	var last *mcmd
	for _, m := range cs {
		if !m.write() {
			continue
		}
		if class == "nil" {
			if last != nil {
				c.must(last.out == "none" || last.out == "err", rule, where, last.e.Pos, s.St, "the operation is applied more than once")
			}
			last = m
		} else {
			c.must(m.out != "ok", rule, where, m.e.Pos, s.St, "a command that was applied is reported as a failure")
		}
	}
	if class != "nil" {
		return nil
	}
	if !c.must(last != nil && last.out == "ok", rule, where, posOf(s.Ev), s.St, "success is reported although no command was applied") {
		return nil
	}
	return last
}

// returnsDoc: the result is the document delivered by the command.
func (c *Checker) returnsDoc(rule, where string, r *Ret, s Seg, m *mcmd, typ string) {
	v := s.St.norm(r.res(0))
	if !c.must(s.St.notNil(v), rule, where, m.e.Pos, s.St, "a successful call returns nothing") {
		return
	}
	got := c.deref(s.St, v)
	want := mkOp("doc", c.x.prog.typeNamed(modPath, typ), m.res.Args[0])
	c.must(c.sameVal(s.St, got, want), rule, where, m.e.Pos, s.St, "the result is not the document delivered by the command: %v", got)
	pr := m.opt("Projection")
	c.must(pr == nil, rule, where, m.e.Pos, s.St, "the result lacks fields of the document")
}

// otherError: an error that is not one of the promised ones stems from a command.
func (c *Checker) otherError(where string, s Seg, class string) {
	if class == "other" {
		c.must(anyFailed(s.St, s.Ev), "mongo-error", where, posOf(s.Ev), s.St, "an error is returned although no command failed")
	}
}

func (c *Checker) mongoParam(name, typ string) *Term { return c.ptrParam(c.mongoFn(name), typ) }

// ---- claims ---------------------------------------------------------------------

func (c *Checker) exactID(id *Term) map[string]cond {
	return map[string]cond{c.tkey("ID"): c.eqc(id)}
}

func plainLookup(m *mcmd) bool {
	n, _ := m.optInt("Skip")
	return m.opt("?") == nil && (m.opt("Skip") == nil || n == 0) && m.opt("Min") == nil && m.opt("Max") == nil
}

func (c *Checker) pollFilter(ev []*Event, topic *Term) map[string]cond {
	return map[string]cond{
		c.tkey("State"):     c.eqc(c.state("TaskStatePending")),
		c.tkey("Topic"):     c.eqc(topic),
		c.tkey("Scheduled"): c.nowc(ev, "$lte"),
	}
}

// claimCommand: the command that makes a task active is one conditional update.
func (c *Checker) updateCommand(rule, where string, m *mcmd) bool {
	ok := c.must(m.op == "FindOneAndUpdate", rule, where, m.e.Pos, &m.st, "the task is not updated by one conditional command that returns it, but by %s", m.op)
	ok = ok && c.must(m.off("Upsert") && m.opt("?") == nil, rule, where, m.e.Pos, &m.st, "the command may create a task")
	n, set := m.optInt("ReturnDocument")
	return ok && c.must(set && n == 1, rule, where, m.e.Pos, &m.st, "the command returns the task as it was before the update")
}

func (c *Checker) mongoClaim(name string, pending bool) {
	where := mongoWhere(name)
	p := c.mongoParam(name, "Promise")
	pid := mkField2(pristine(p), "ID")
	topic := c.strParam(c.mongoFn(name), 0)
	pend := c.tkey("State")
	c.mongoOutcomes(name, func(r *Ret, s Seg, class string, cs []*mcmd) {
		exact := func(q *mcmd) bool {
			return name != "Poll" && plainLookup(q) && c.matches(q, c.exactID(pid), nil) == "" ||
				name == "Poll" && plainLookup(q) && c.matches(q, c.pollFilter(s.all(), topic), nil) == ""
		}
		for _, m := range cs {
			if !m.write() || !c.updateCommand("mongo-claim", where, m) {
				continue
			}
			want := c.exactID(pid)
			if name == "Poll" {
				want = c.pollFilter(s.all(), topic)
			}
			if pending {
				want[pend] = c.eqc(c.state("TaskStatePending"))
			}
			msg := c.matches(m, want, c.peeked(cs, m, exact))
			c.must(msg == "", "mongo-claim", where, m.e.Pos, s.St, "a task may be claimed that must not be: %s", msg)
		}
		if class == "retry" {
			return
		}
		w := c.finalWrite("mongo-claim", where, r, s, class, cs)
		if w != nil {
			c.returnsDoc("mongo-claim", where, r, s, w, "Task")
		}
		c.otherError(where, s, class)
		if name == "Poll" {
			c.must(class != "ErrConflict", "mongo-conflict", where, posOf(s.Ev), s.St, "a poll reports a conflict")
			return
		}
		if n := len(cs); class != "nil" && n > 0 && cs[n-1].out == "none" && exact(cs[n-1]) {
			c.must(class == "ErrNotFound", "mongo-notfound", where, posOf(s.Ev), s.St, "a missing task is reported as %s", class)
		}
		switch class {
		case "ErrNotFound":
			ok := false
			for _, m := range cs {
				ok = ok || m.out == "none" && exact(m)
			}
			c.must(ok, "mongo-notfound", where, posOf(s.Ev), s.St, "not-found is reported although the task may exist")
		case "ErrConflict":
			ok := false
			for i, m := range cs {
				if m.op == "FindOne" && m.out == "ok" && exact(m) {
					st := s.St.known(mkEq(mkField2(c.docTerm(m), "State"), c.state("TaskStatePending")))
					ok = ok || st == 0 && c.projects(m, pend)
					for j, w := range cs {
						// A conditional update missed the task before or after it was seen.
						ok = ok || w.write() && w.out == "none" && j != i
					}
				}
			}
			c.must(ok && pending, "mongo-conflict", where, posOf(s.Ev), s.St, "a conflict is reported although the task may be pending or not exist")
		}
	})
}

func (c *Checker) mongoPollOrder() {
	where := mongoWhere("Poll")
	topic := c.strParam(c.mongoFn("Poll"), 0)
	c.mongoOutcomes("Poll", func(r *Ret, s Seg, class string, cs []*mcmd) {
		sorted := func(m *mcmd) bool {
			so := m.opt("Sort")
			if so == nil {
				return false
			}
			d, ok := c.doc(&m.st, so)
			if !ok || len(d) == 0 {
				return false
			}
			n, ok := c.bval(&m.st, d[0].val).intConst()
			return d[0].key == c.tkey("Scheduled") && ok && n == 1
		}
		full := func(m *mcmd) bool {
			return plainLookup(m) && c.matches(m, c.pollFilter(s.all(), topic), nil) == ""
		}
		for _, m := range cs {
			if !m.write() {
				continue
			}
			if full(m) {
				c.must(sorted(m), "mongo-order", where, m.e.Pos, s.St, "the candidates are not ordered by schedule")
				continue
			}
			// Pinned to a document chosen by a lookup with the full query.
			ok := false
			for _, p := range peeks(cs, m) {
				id := m.filter.get(c.tkey("ID"))
				if full(p) && sorted(p) && id != nil && c.projects(p, c.tkey("ID")) && c.sameVal(&m.st, c.bval(&m.st, id), mkField2(c.docTerm(p), "ID")) {
					ok = true
				}
			}
			c.must(ok, "mongo-order", where, m.e.Pos, s.St, "the claimed task is not the first one by schedule among the due tasks of the topic: %v", m.filter)
		}
		if class == "ErrNotFound" {
			ok := false
			for _, m := range cs {
				ok = ok || m.out == "none" && full(m)
			}
			c.must(ok, "mongo-notfound", where, posOf(s.Ev), s.St, "not-found is reported although a due task may exist")
		}
	})
}

func (c *Checker) mongoClaimFields(name string) {
	where := mongoWhere(name)
	p := c.mongoParam(name, "Promise")
	pv := pristine(p)
	c.mongoOutcomes(name, func(r *Ret, s Seg, class string, cs []*mcmd) {
		for _, m := range cs {
			if !m.write() {
				continue
			}
			c.setsExactly("mongo-claim-fields", where, m, fieldSpec{
				"State":    isConstInt(c.stateConst("TaskStateActive")),
				"Nonce":    c.isFreshNonce(before(s.all(), m.e)),
				"Consumer": c.isSameB(mkField2(pv, "Consumer")),
				"Consumed": c.isNow(before(s.all(), m.e)),
				"Deadline": c.isSameB(mkField2(pv, "Deadline")),
			})
		}
	})
}

// ---- commits ----------------------------------------------------------------------

func (c *Checker) mongoCommitGuard() {
	where := mongoWhere("Commit")
	id := c.strParam(c.mongoFn("Commit"), 0)
	m0 := pristine(c.mongoParam("Commit", "Commit"))
	mn := mkField2(m0, "Nonce")
	nk := c.tkey("Nonce")
	c.mongoOutcomes("Commit", func(r *Ret, s Seg, class string, cs []*mcmd) {
		empty := s.St.known(mkEq(mn, mkStr("")))
		exact := func(q *mcmd) bool { return plainLookup(q) && c.matches(q, c.exactID(id), nil) == "" }
		for _, m := range cs {
			if !m.write() || !c.updateCommand("mongo-commit", where, m) {
				continue
			}
			want := c.exactID(id)
			if empty != 1 {
				want[nk] = c.eqc(mn)
			}
			msg := c.matches(m, want, c.peeked(cs, m, exact))
			c.must(msg == "", "mongo-nonce", where, m.e.Pos, s.St, "a commit may be applied to a task it must not touch, or not to its task: %s", msg)
			if set, ok := c.setOnly("mongo-nonce-cleared", where, m); ok {
				v := set.get(nk)
				c.must(v != nil && isEmptyStr(&m.st, c.bval(&m.st, v), nil) == "", "mongo-nonce-cleared", where, m.e.Pos, s.St, "the nonce stays valid after the commit")
			}
		}
		if class == "retry" {
			return
		}
		w := c.finalWrite("mongo-commit", where, r, s, class, cs)
		if w != nil {
			c.returnsDoc("mongo-commit", where, r, s, w, "Task")
		}
		c.otherError(where, s, class)
		if n := len(cs); class != "nil" && n > 0 && cs[n-1].out == "none" && exact(cs[n-1]) {
			c.must(class == "ErrNotFound", "mongo-notfound", where, posOf(s.Ev), s.St, "a missing task is reported as %s", class)
		}
		switch class {
		case "ErrNotFound":
			ok := false
			for _, m := range cs {
				ok = ok || m.out == "none" && exact(m)
			}
			c.must(ok, "mongo-notfound", where, posOf(s.Ev), s.St, "not-found is reported although the task may exist")
		case "ErrConflict":
			ok := false
			for i, m := range cs {
				if m.op != "FindOne" || m.out != "ok" || !exact(m) {
					continue
				}
				ok = ok || c.projects(m, nk) && s.St.known(mkEq(mn, mkField2(c.docTerm(m), "Nonce"))) == 0 && empty == 0
				for j, w := range cs {
					ok = ok || j != i && w.write() && w.out == "none" && (j > i || empty == 0)
				}
			}
			c.must(ok, "mongo-conflict", where, posOf(s.Ev), s.St, "a conflict is reported although the nonce may match or the task may not exist")
		}
	})
}

func (c *Checker) mongoCommitFields() {
	where := mongoWhere("Commit")
	p := c.mongoParam("Commit", "Commit")
	m0 := pristine(p)
	c.mongoOutcomes("Commit", func(r *Ret, s Seg, class string, cs []*mcmd) {
		for _, m := range cs {
			if !m.write() {
				continue
			}
			spec := fieldSpec{"Nonce": isEmptyStr}
			for _, f := range []string{"Topic", "State", "Scheduled", "Payload"} {
				v := mkField2(m0, f)
				given := -1
				if f == "Topic" {
					if k := s.St.known(mkEq(v, mkStr(""))); k >= 0 {
						given = 1 - k
					}
				} else if k := s.St.known(mkIsNil(v)); k >= 0 {
					given = 1 - k
				}
				if !c.must(given >= 0, "mongo-commit-fields", where+"."+f, m.e.Pos, s.St, "the update does not depend on whether the commit specifies %s", f) {
					given = 1
				}
				if given == 1 {
					spec[f] = c.isSameB(v)
				}
			}
			c.setsExactly("mongo-commit-fields", where, m, spec)
		}
	})
}

// ---- recovery, retention, release ---------------------------------------------------

func (c *Checker) releaseUpdate(rule, where string, m *mcmd, many bool, want map[string]cond) {
	op := "UpdateOne"
	if many {
		op = "UpdateMany"
	}
	if !c.must(m.op == op || !many && m.op == "UpdateMany", rule, where, m.e.Pos, &m.st, "the tasks are not updated by one %s command but by %s", op, m.op) {
		return
	}
	c.must(m.off("Upsert") && m.opt("?") == nil, rule, where, m.e.Pos, &m.st, "the command may create a task")
	msg := c.matches(m, want, nil)
	c.must(msg == "", rule, where, m.e.Pos, &m.st, "the command does not select exactly the tasks concerned: %s", msg)
	c.setsExactly(rule, where, m, c.releaseSpec())
}

func (c *Checker) oneCommand(rule, where string, s Seg, class string, cs []*mcmd) *mcmd {
	if !c.must(len(cs) == 1, rule, where, posOf(s.Ev), s.St, "%d commands are sent instead of one", len(cs)) {
		return nil
	}
	m := cs[0]
	switch class {
	case "nil":
		c.must(m.out == "ok", "mongo-error", where, m.e.Pos, s.St, "a failed command is reported as success")
	case "ErrNotFound", "ErrConflict":
	default:
		c.must(m.out == "err" && c.carries(s.St, s.Ev, m), "mongo-error", where, m.e.Pos, s.St, "an error is reported although the command succeeded")
	}
	return m
}

func (c *Checker) carries(st *State, ev []*Event, m *mcmd) bool { return anyFailed(st, ev) }

func (c *Checker) mongoRecovery() {
	where := mongoWhere("Chore")
	c.mongoOutcomes("Chore", func(r *Ret, s Seg, class string, cs []*mcmd) {
		m := c.oneCommand("mongo-recover", where, s, class, cs)
		if m == nil {
			return
		}
		c.releaseUpdate("mongo-recover", where, m, true, map[string]cond{
			c.tkey("State"):    c.eqc(c.state("TaskStateActive")),
			c.tkey("Deadline"): c.nowc(s.all(), "$lt", "$lte"),
		})
	})
}

func (c *Checker) mongoRelease() {
	for _, name := range []string{"DeletePromise", "DeletePromises"} {
		where := mongoWhere(name)
		arg := c.strParam(c.mongoFn(name), 0)
		f := "ID"
		if name == "DeletePromises" {
			f = "Topic"
		}
		c.mongoOutcomes(name, func(r *Ret, s Seg, class string, cs []*mcmd) {
			m := c.oneCommand("mongo-release", where, s, class, cs)
			if m == nil {
				return
			}
			c.releaseUpdate("mongo-release", where, m, f == "Topic", map[string]cond{
				c.tkey("State"): c.eqc(c.state("TaskStateActive")),
				c.tkey(f):       c.eqc(arg),
			})
			c.must(class == "nil" || class == "other", "mongo-error", where, m.e.Pos, s.St, "unexpected error %s", class)
			if class == "nil" {
				c.resultCount("mongo-release-count", where, s.St, r, m, "Deleted", "ModifiedCount", "MatchedCount")
			}
		})
	}
}

// resultCount: a counter of the result is one of the counters of the command.
func (c *Checker) resultCount(rule, where string, st *State, r *Ret, m *mcmd, field string, from ...string) {
	v := st.norm(r.res(0))
	if !c.must(st.notNil(v), rule, where, m.e.Pos, st, "a successful call returns nothing") {
		return
	}
	got := st.norm(c.field(st, c.deref(st, v), field))
	ok := false
	for _, f := range from {
		ok = ok || got == st.norm(c.field(st, pristine(st.norm(m.res)), f))
	}
	c.must(ok, rule, where, m.e.Pos, st, "the reported number is not that of the command: %v", got)
}

// ---- retention and indexes --------------------------------------------------------

// mindex is an index created on the collection.
type mindex struct {
	name    string
	keys    bdoc
	partial bdoc
	ttl     *Term
	st      State
	m       *mcmd
	sub     *Ret
	other   []string
}

// indexModel reads an index model.
func (c *Checker) indexModel(m *mcmd, v *Term) (ix mindex, ok bool) {
	ix.m, ix.st = m, m.st
	keys, ok := c.doc(&m.st, mkField2(v, "Keys"))
	if !ok {
		return ix, false
	}
	ix.keys = keys
	o := m.st.norm(mkField2(v, "Options"))
	if o.K == KNil {
		return ix, true
	}
	tmp := &mcmd{st: m.st, opts: map[string]*Term{}}
	c.optFields(tmp, o)
	for k, v := range tmp.opts {
		switch k {
		case "Name":
			ix.name, _ = v.strConst()
		case "PartialFilterExpression":
			if ix.partial, ok = c.doc(&m.st, v); !ok {
				return ix, false
			}
		case "ExpireAfterSeconds":
			ix.ttl = v
		case "Unique", "Sparse":
			if !tmp.off(k) {
				ix.other = append(ix.other, k)
			}
		case "?":
			return ix, false
		}
	}
	return ix, true
}

// indexes lists the indexes that a run of Open creates, including those created by
// functions it starts.
func (c *Checker) indexes(s Seg, f func(ix mindex, s Seg)) {
	var rec func(s Seg)
	rec = func(s Seg) {
		for _, m := range c.mcmds(s) {
			switch m.op {
			case "CreateOne":
				if ix, ok := c.indexModel(m, m.st.norm(m.e.Args[2])); ok {
					f(ix, s)
				} else {
					c.must(false, "mongo-index", "mongodb.Engine.Open", m.e.Pos, s.St, "an index is created in a way that is not known")
				}
			case "CreateMany":
				el, ok := c.x.elems(&m.st, m.st.norm(m.e.Args[2]))
				c.must(ok, "mongo-index", "mongodb.Engine.Open", m.e.Pos, s.St, "the list of indexes is not known")
				for _, v := range el {
					if ix, ok := c.indexModel(m, m.st.norm(v)); ok {
						f(ix, s)
					} else {
						c.must(false, "mongo-index", "mongodb.Engine.Open", m.e.Pos, s.St, "an index is created in a way that is not known")
					}
				}
			}
		}
		for _, e := range s.Ev {
			for i := range e.Sub {
				r := &e.Sub[i]
				rec(Seg{Ev: r.St.events(), St: &r.St, Ret: r})
			}
		}
	}
	rec(s)
}

func constStr(t *Term) string {
	if t == nil || t.K != KConst {
		return "?"
	}
	if t.C.Kind() == constant.String {
		return constant.StringVal(t.C)
	}
	return t.C.ExactString()
}

func (ix mindex) sig(c *Checker) string {
	var k, p []string
	for _, e := range ix.keys {
		k = append(k, e.key+":"+constStr(c.bval(&ix.st, e.val)))
	}
	for _, e := range ix.partial {
		p = append(p, e.key+"="+constStr(c.bval(&ix.st, e.val)))
	}
	return strings.Join(k, ",") + " where " + strings.Join(p, ",")
}

func (c *Checker) mongoRetention() {
	where := mongoWhere("Open")
	disabled := func(s *State) int {
		return s.known(c.openConfig(s, "--mongodb-disable-index-creation"))
	}
	want := c.tkey("Consumed") + ":1 where " + c.tkey("State") + "=" + fmt.Sprint(c.stateConst("TaskStateCompleted"))
	n := 0
	c.mongoOutcomes("Open", func(r *Ret, s Seg, class string, cs []*mcmd) {
		if class != "nil" || s.Loop != nil {
			return
		}
		found := 0
		c.indexes(s, func(ix mindex, q Seg) {
			if ix.ttl == nil {
				return
			}
			c.must(ix.sig(c) == want, "mongo-ttl", where, ix.m.e.Pos, q.St, "tasks other than completed ones would expire, or by another time: %s", ix.sig(c))
			c.must(c.ttlSeconds(&ix.st, ix.ttl), "mongo-ttl", where, ix.m.e.Pos, q.St, "the expiry is not the configured retention period: %v", ix.ttl)
			found++
		})
		n += found
		c.must(found > 0 || disabled(s.St) == 1, "mongo-ttl", where, posOf(s.Ev), s.St, "the engine is opened without an index that expires completed tasks")
		// The group must be waited for and its error returned: checked by the error rule below.
	})
	c.must(n > 0, "mongo-ttl", where, 0, nil, "no index expires completed tasks")
	// The outcomes of creating the expiring index.
	seen := map[*Event]bool{}
	c.mongoOutcomes("Open", func(r *Ret, s Seg, class string, cs []*mcmd) {
		var rec func(s Seg, ret *Ret)
		rec = func(s Seg, ret *Ret) {
			cs := c.mcmds(s)
			for i, m := range cs {
				if !kindIn(&Event{Kind: m.op}, "CreateOne", "CreateMany") || m.out != "err" || ret == nil {
					continue
				}
				er := c.errClass(&ret.St, errRes(ret))
				if er != "nil" {
					c.ok("mongo-index-error")
					continue
				}
				// Success although the index could not be created: it must exist with
				// another period, which has been changed.
				ok := false
				for _, k := range cs[i+1:] {
					ok = ok || c.collMod(s, m, k)
				}
				c.must(ok, "mongo-index-error", where, m.e.Pos, s.St, "the failure to create an index is not reported")
			}
			for _, e := range s.Ev {
				if len(e.Sub) == 0 || seen[e] {
					continue
				}
				seen[e] = true
				for i := range e.Sub {
					q := &e.Sub[i]
					rec(Seg{Ev: q.St.events(), St: &q.St, Ret: q}, q)
				}
			}
		}
		rec(s, s.Ret)
	})
	c.atLeast("mongo-index-error", 2)
}

func (c *Checker) openConfig(st *State, name string) *Term {
	fn := c.mongoFn("Open")
	g := c.param(fn, 0)
	cfg := mkField2(pristine(g), "config")
	T := structOf(c.x.prog.typeNamed(pkgMongo, "Engine"))
	for i := 0; i < T.NumFields(); i++ {
		if typeKey(T.Field(i).Type()) == "*"+pkgMongo+".Config" {
			cfg = mkField(pristine(g), i)
		}
	}
	return option(st, pristine(st.norm(cfg)), name)
}

// ttlSeconds: the configured retention period in whole seconds.
func (c *Checker) ttlSeconds(st *State, v *Term) bool {
	v = st.norm(v)
	p := c.openConfig(st, "--mongodb-retention-period")
	for v.K == KOp && strings.HasPrefix(v.Op, "conv") && len(v.Args) == 1 {
		v = st.norm(v.Args[0])
	}
	return v.K == KOp && len(v.Args) > 0 && st.norm(v.Args[0]) == p && (strings.HasSuffix(v.Op, "Seconds") || v.Op == "/" && isInt(v.Args[1], 1000000000))
}

// collMod: the period of the existing index is changed to the configured one.
func (c *Checker) collMod(s Seg, m, k *mcmd) bool {
	if k.op != "RunCommand" || k.out == "err" || k.out == "unknown" {
		return false
	}
	// Only a conflict of options permits it.
	conflict := false
	for _, l := range s.St.facts.list {
		if l.truth && strings.Contains(l.t.String(), "IndexOptionsConflict") || l.truth && strings.Contains(l.t.String(), "85") && strings.Contains(l.t.String(), "Code") {
			conflict = containsTerm(l.t, s.St.norm(m.err))
		}
	}
	d := k.filter
	if !conflict || len(d) == 0 || d[0].key != "collMod" {
		return false
	}
	ixd, ok := c.doc(&k.st, d.get("index"))
	if !ok {
		return false
	}
	ttl := ixd.get("expireAfterSeconds")
	if ttl == nil || !c.ttlSeconds(&k.st, c.bval(&k.st, ttl)) {
		return false
	}
	if ks, ok := c.doc(&k.st, ixd.get("keyPattern")); ok {
		return len(ks) == 1 && ks[0].key == c.tkey("Consumed")
	}
	return ixd.get("name") != nil
}

// ---- plain reads and writes ----------------------------------------------------------

func (c *Checker) listParam(name string) *Term {
	fn := c.mongoFn(name)
	if fn == nil {
		return nil
	}
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			return c.param(fn, i)
		}
	}
	return nil
}

// bulkModels visits the write models of a bulk write, each with the element of the
// list it was made for, after checking that there is one for every element.
func (c *Checker) bulkModels(rule, where string, s Seg, m *mcmd, els []*Term, ts *Term, f func(st *State, typ string, model, el *Term)) bool {
	typ := func(v *Term) string {
		if T := derefType(v.T); T != nil {
			k := typeKey(T)
			return k[strings.LastIndexByte(k, '.')+1:]
		}
		return "?"
	}
	a := m.st.norm(m.e.Args[2])
	if el, ok := c.x.elems(&m.st, a); ok {
		if !c.must(els != nil && len(el) == len(els), rule, where, m.e.Pos, s.St, "the bulk write has %d operations for another number of tasks", len(el)) {
			return false
		}
		for i, v := range el {
			v = unIface(m.st.norm(v))
			if !c.must(v.K == KAddr, rule, where, m.e.Pos, s.St, "an operation of the bulk write is missing") {
				return false
			}
			f(&m.st, typ(v), v, els[i])
		}
		return true
	}
	if ts == nil {
		return c.must(false, rule, where, m.e.Pos, s.St, "the operations of the bulk write are not known")
	}
	for _, e := range before(s.Ev, m.e) {
		l := e.Loop
		if l == nil || len(l.Steps) == 0 {
			continue
		}
		// The phi that accumulates the list, if it is appended to.
		acc := -1
		vars := append(append([]LoopVar{}, l.Phis...), l.Cells...)
		for i, v := range vars {
			if v.Sym == a {
				if el, ok := c.x.elems(&l.Entry, l.Entry.norm(v.Init)); ok && len(el) == 0 || l.Entry.norm(v.Init).K == KNil {
					acc = i
				}
			}
		}
		ok, hit := true, false
		var idx *Term
		type item struct {
			st    *State
			model *Term
			el    *Term
		}
		var items []item
		for _, st := range l.Steps {
			var model, at *Term
			if acc >= 0 {
				next := append(append([]*Term{}, st.Next...), st.NextC...)[acc]
				next = st.St.norm(next)
				if next.isOp("append") && len(next.Args) == 2 && next.Args[0] == vars[acc].Sym {
					model = unIface(st.St.norm(next.Args[1]))
					hit = true
				}
			} else {
				for _, x := range st.Events {
					if x.Kind == "storeelem" && x.Args[0] == a {
						hit = true
						if model != nil {
							ok = false
						}
						model, at = unIface(st.St.norm(x.Args[2])), st.St.norm(x.Args[1])
					}
				}
			}
			if model == nil || model.K != KAddr {
				ok = false
				continue
			}
			el := c.elementIn(&st.St, model, ts)
			if el == nil || at != nil && toLin(at).add(toLin(el.Args[1]), -1).c != 0 || at != nil && len(toLin(at).add(toLin(el.Args[1]), -1).m) != 0 || idx != nil && el.Args[1] != idx {
				ok = false
				continue
			}
			idx = el.Args[1]
			items = append(items, item{&st.St, model, el})
		}
		if !hit {
			continue
		}
		ok = ok && idx != nil && c.coversIdx(s.St, l, idx, ts)
		if acc < 0 {
			n := s.St.norm(c.x.lenOf(&m.st, a))
			ok = ok && s.St.entailsEq(toLin(n).add(toLin(mkLen(ts)), -1))
		}
		if !c.must(ok, rule, where, m.e.Pos, s.St, "the bulk write does not have exactly one operation for every element of the list") {
			return false
		}
		for _, it := range items {
			f(it.st, typ(it.model), it.model, it.el)
		}
		return true
	}
	return c.must(false, rule, where, m.e.Pos, s.St, "the bulk write is not built from the elements of the list")
}

// elementIn finds the element of the list that a write model refers to.
func (c *Checker) elementIn(st *State, model, ts *Term) *Term {
	v := c.deref(st, model)
	S := structOf(derefType(model.T))
	var out *Term
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t == nil || out != nil || d > 12 {
			return
		}
		if t.isOp("index") && t.Args[0] == ts {
			out = t
			return
		}
		for _, a := range t.Args {
			rec(a, d+1)
		}
	}
	for i := 0; S != nil && i < S.NumFields(); i++ {
		f := st.norm(unIface(mkField(v, i)))
		rec(f, 0)
		if d, ok := c.doc(st, f); ok {
			for _, e := range d {
				rec(c.bval(st, e.val), 0)
			}
		}
	}
	return out
}

// modelIs: a write model does what is expected for the element.
func (c *Checker) modelIs(rule, where string, m *mcmd, st *State, typ string, model, el *Term, want string) {
	if !c.must(typ == want, rule, where, m.e.Pos, st, "the task is not written by a %s but by a %s", want, typ) {
		return
	}
	v := c.deref(st, model)
	id := mkField2(pristine(el), "ID")
	if want != "InsertOneModel" {
		tmp := &mcmd{e: m.e, op: want, st: *st}
		tmp.filter, tmp.fok = c.doc(st, c.field(st, v, "Filter"))
		msg := c.matches(tmp, c.exactID(id), nil)
		c.must(msg == "", rule, where, m.e.Pos, st, "the operation concerns another task: %s", msg)
	}
	switch want {
	case "InsertOneModel":
		c.must(c.isElement(st, c.field(st, v, "Document"), el), rule, where, m.e.Pos, st, "the inserted document is not the given task: %v", c.field(st, v, "Document"))
	case "ReplaceOneModel":
		c.must(c.isElement(st, c.field(st, v, "Replacement"), el), rule, where, m.e.Pos, st, "the replacement is not the given task: %v", c.field(st, v, "Replacement"))
		up, ok := c.bval(st, c.field(st, v, "Upsert")).boolConst()
		c.must(ok && up, rule, where, m.e.Pos, st, "tasks that do not exist are not created")
	}
}

// isElement: the document is the task as given.
func (c *Checker) isElement(st *State, d, el *Term) bool {
	d = st.norm(unIface(d))
	if d == st.norm(el) {
		return true
	}
	return d.K != KNil && c.sameVal(st, c.bval(st, d), pristine(el))
}

// dupOnly: the path establishes that every failure of the bulk write was caused by
// a duplicate key.
func (c *Checker) dupOnly(s Seg, m *mcmd) bool {
	st := s.St
	er := st.norm(m.err)
	ex := mkOp("assert:"+mgo+".BulkWriteException", c.x.prog.typeNamed(mgo, "BulkWriteException"), er)
	if st.known(mkOp("typeis:"+mgo+".BulkWriteException", types.Typ[types.Bool], er)) != 1 && st.known(mkOp("errAs:"+mgo+".BulkWriteException", types.Typ[types.Bool], er)) != 1 {
		return false
	}
	if !st.isNil(mkField2(ex, "WriteConcernError")) {
		return false
	}
	we := mkField2(ex, "WriteErrors")
	for _, e := range s.Ev {
		l := e.Loop
		if l == nil || len(l.Steps) == 0 {
			continue
		}
		good := true
		var idx *Term
		for _, stp := range l.Steps {
			found := false
			for _, f := range stp.St.facts.list {
				if !f.truth || !f.t.isOp("isdup") {
					continue
				}
				v := f.t.Args[0]
				if v.isOp("field") {
					v = v.Args[0]
				}
				if v.isOp("index") && v.Args[0] == we && (idx == nil || idx == v.Args[1]) {
					found, idx = true, v.Args[1]
				}
			}
			good = good && (found || ruledOut(st, l, stp))
		}
		if good && idx != nil && c.coversIdx(st, l, idx, we) {
			return true
		}
	}
	return false
}

// ruledOut: a variable of the loop remembers that the iteration happened, and the
// path behind the loop knows that it did not.
func ruledOut(st *State, l *Loop, bad *Step) bool {
	vars := append(append([]LoopVar{}, l.Phis...), l.Cells...)
	next := func(s *Step, i int) *Term {
		return s.St.norm(append(append([]*Term{}, s.Next...), s.NextC...)[i])
	}
	for i, v := range vars {
		if v.Sym == nil || v.Sym.T == nil {
			continue
		}
		if b, ok := v.Sym.T.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			is := st.known(v.Sym)
			if is < 0 {
				continue
			}
			set, all := mkBool(is == 0), true
			for _, s := range l.Steps {
				n := next(s, i)
				all = all && (n == set || s != bad && (n == v.Sym || n.K == KConst && s.St.known(v.Sym) == is))
			}
			if all {
				return true
			}
		}
		if isIntish(v.Sym.T) && st.isFalse(mkGe0(toLin(v.Sym).add(toLin(v.Init), -1).add(lin{c: 1}, -1))) {
			all := true
			for _, s := range l.Steps {
				d := toLin(next(s, i)).add(toLin(v.Sym), -1)
				all = all && len(d.m) == 0 && d.c >= 0 && (s != bad || d.c > 0)
			}
			if all {
				return true
			}
		}
	}
	return false
}

func (c *Checker) counter(st *State, r *Ret, f string) lin {
	return toLin(st.norm(c.field(st, c.deref(st, r.res(0)), f)))
}

// ofCmd: the number is the sum of the given counters of the command, and possibly
// of others that are zero.
func (c *Checker) ofCmd(st *State, m *mcmd, l lin, need, zero []string) bool {
	res := pristine(st.norm(m.res))
	l = lin{c: l.c, m: l.m}
	for _, n := range need {
		l = l.add(toLin(st.norm(c.field(st, res, n))), -1)
	}
	for _, n := range zero {
		t := st.norm(c.field(st, res, n))
		if l.m[t] == 1 {
			l = l.add(toLin(t), -1)
		}
	}
	return len(l.m) == 0 && l.c == 0
}

func (c *Checker) mongoInsertions() {
	// A single new task.
	{
		where := mongoWhere("InsertTask")
		t := c.mongoParam("InsertTask", "Task")
		c.mongoOutcomes("InsertTask", func(r *Ret, s Seg, class string, cs []*mcmd) {
			m := c.oneCommand("mongo-insert", where, s, class, cs)
			if m == nil || !c.must(m.op == "InsertOne", "mongo-insert", where, m.e.Pos, s.St, "the task is not inserted by one command but by %s", m.op) {
				return
			}
			c.must(c.isElement(&m.st, m.e.Args[2], t), "mongo-insert", where, m.e.Pos, s.St, "the inserted document is not the given task")
			dup := s.St.known(mkOp("isdup", types.Typ[types.Bool], s.St.norm(m.err)))
			switch class {
			case "nil":
				cr, up := c.counter(s.St, r, "Created"), c.counter(s.St, r, "Updated")
				c.must(len(cr.m) == 0 && cr.c == 1 && len(up.m) == 0 && up.c == 0, "mongo-insert-count", where, m.e.Pos, s.St, "the creation is counted incorrectly")
			case "ErrConflict":
				c.must(dup == 1, "mongo-insert-conflict", where, m.e.Pos, s.St, "a conflict is reported although the identifier may not be taken")
			case "other":
				c.must(dup == 0, "mongo-insert-conflict", where, m.e.Pos, s.St, "a taken identifier is not reported as a conflict")
			default:
				c.must(false, "mongo-error", where, m.e.Pos, s.St, "unexpected error %s", class)
			}
		})
	}
	for _, name := range []string{"InsertTasks", "UpsertTasks", "UpsertTask"} {
		c.mongoBulk(name)
	}
	c.atLeast("mongo-bulk", 12)
}

func (c *Checker) mongoBulk(name string) {
	where := mongoWhere(name)
	ts := c.listParam(name)
	t := c.mongoParam(name, "Task")
	var els []*Term
	if ts == nil {
		els = []*Term{t}
	}
	c.mongoOutcomes(name, func(r *Ret, s Seg, class string, cs []*mcmd) {
		if s.Loop != nil {
			c.must(len(cs) == 0, "mongo-bulk", where, posOf(s.Ev), s.St, "tasks are written one by one, not in one bulk write")
			return
		}
		if !c.must(class == "nil" || class == "other", "mongo-error", where, posOf(s.Ev), s.St, "unexpected error %s", class) {
			return
		}
		if ts != nil && s.St.isTrue(mkEq0(toLin(mkLen(ts)))) && len(cs) == 0 {
			cr, up := c.counter(s.St, r, "Created"), c.counter(s.St, r, "Updated")
			c.must(class == "nil" && len(cr.m)+len(up.m) == 0 && cr.c == 0 && up.c == 0, "mongo-bulk", where, posOf(s.Ev), s.St, "an empty list of tasks is not accepted, or counted incorrectly")
			return
		}
		c.otherError(where, s, class)
		for _, m := range cs {
			if m.op == "BulkWrite" && ts != nil {
				c.must(s.St.known(mkEq0(toLin(mkLen(ts)))) == 0, "mongo-bulk", where, m.e.Pos, s.St, "a bulk write without any operations, which fails, may be requested for an empty list of tasks")
			}
		}
		// What each command does.
		var eff []*mcmd
		kind := map[*mcmd]string{}
		for _, m := range cs {
			switch m.op {
			case "ReplaceOne":
				msg := ""
				if t == nil {
					msg = "a single task is replaced"
				} else {
					msg = c.matches(m, c.exactID(mkField2(pristine(t), "ID")), nil)
				}
				c.must(msg == "", "mongo-bulk", where, m.e.Pos, s.St, "the operation concerns another task: %s", msg)
				c.must(t != nil && c.isElement(&m.st, m.upd, t), "mongo-bulk", where, m.e.Pos, s.St, "the replacement is not the given task")
				c.must(m.on("Upsert"), "mongo-bulk", where, m.e.Pos, s.St, "tasks that do not exist are not created")
				kind[m] = "ReplaceOneModel"
			case "BulkWrite":
				want := ""
				c.bulkModels("mongo-bulk", where, s, m, els, ts, func(st *State, typ string, model, el *Term) {
					if want == "" {
						want = typ
						allowed := typ == "InsertOneModel" || name != "InsertTasks" && (typ == "ReplaceOneModel" || typ == "DeleteOneModel")
						c.must(allowed, "mongo-bulk", where, m.e.Pos, st, "the tasks are written by %s", typ)
					}
					c.modelIs("mongo-bulk", where, m, st, typ, model, el, want)
				})
				kind[m] = want
				if want == "InsertOneModel" {
					c.must(m.opt("Ordered") != nil && m.off("Ordered"), "mongo-bulk", where, m.e.Pos, s.St, "the first duplicate prevents the insertion of the remaining tasks")
				}
			default:
				c.must(false, "mongo-bulk", where, m.e.Pos, s.St, "unexpected command %s", m.op)
			}
			if class == "nil" && m.out == "err" {
				ok := c.falls(s, m) && m != cs[len(cs)-1] || kind[m] == "InsertOneModel" && c.dupOnly(s, m)
				c.must(ok, "mongo-error", where, m.e.Pos, s.St, "a failed command is reported as success")
			}
			if m.out == "ok" || class == "nil" && kind[m] == "InsertOneModel" {
				eff = append(eff, m)
			}
		}
		if class != "nil" {
			// Only duplicates are ignored, and those always.
			return
		}
		cr, up := c.counter(s.St, r, "Created"), c.counter(s.St, r, "Updated")
		bad := func(m *mcmd) {
			c.must(false, "mongo-bulk-count", where, m.e.Pos, s.St, "created and updated tasks are counted incorrectly: %v and %v", cr.term(nil), up.term(nil))
		}
		n := lin{c: 1}
		if ts != nil {
			n = toLin(mkLen(ts))
		}
		switch {
		case len(eff) == 1 && name == "InsertTasks" && kind[eff[0]] == "InsertOneModel":
			m := eff[0]
			if c.ofCmd(s.St, m, cr, []string{"InsertedCount"}, []string{"UpsertedCount"}) && c.ofCmd(s.St, m, up, nil, []string{"ModifiedCount", "MatchedCount"}) {
				c.ok("mongo-bulk-count")
			} else {
				bad(m)
			}
		case len(eff) == 1 && name != "InsertTasks" && kind[eff[0]] == "ReplaceOneModel":
			m := eff[0]
			if c.ofCmd(s.St, m, cr, []string{"UpsertedCount"}, []string{"InsertedCount"}) && (c.ofCmd(s.St, m, up, []string{"ModifiedCount"}, nil) || c.ofCmd(s.St, m, up, []string{"MatchedCount"}, nil)) {
				c.ok("mongo-bulk-count")
			} else {
				bad(m)
			}
		case len(eff) == 2 && name != "InsertTasks" && kind[eff[0]] == "DeleteOneModel" && kind[eff[1]] == "InsertOneModel":
			m := eff[0]
			rest := n.add(toLin(s.St.norm(c.field(s.St, pristine(s.St.norm(m.res)), "DeletedCount"))), -1)
			d := cr.add(rest, -1)
			e := stripConv(d)
			if (len(d.m) == 0 && d.c == 0 || e) && c.ofCmd(s.St, m, up, []string{"DeletedCount"}, nil) {
				c.ok("mongo-bulk-count")
			} else {
				bad(m)
			}
		default:
			var ks []string
			for _, m := range eff {
				ks = append(ks, kind[m])
			}
			c.must(false, "mongo-bulk", where, posOf(s.Ev), s.St, "success is reported although the tasks were not stored: %v", ks)
		}
	})
}

// stripConv: the difference vanishes up to integer conversions of the same value.
func stripConv(d lin) bool {
	sum := lin{c: d.c}
	for t, k := range d.m {
		for isConv(t) {
			t = t.Args[0]
		}
		sum = sum.add(toLin(t), k)
	}
	return len(sum.m) == 0 && sum.c == 0
}

func (c *Checker) mongoDeletions() {
	for _, d := range []struct{ name, field, op string }{{"DeleteTopics", "", "DeleteMany"}, {"DeleteTopic", "Topic", "DeleteMany"}, {"DeleteTasks", "Topic", "DeleteMany"}, {"DeleteTask", "ID", "DeleteOne"}} {
		where := mongoWhere(d.name)
		want := map[string]cond{}
		if d.field != "" {
			want[c.tkey(d.field)] = c.eqc(c.strParam(c.mongoFn(d.name), 0))
		}
		c.mongoOutcomes(d.name, func(r *Ret, s Seg, class string, cs []*mcmd) {
			m := c.oneCommand("mongo-delete", where, s, class, cs)
			if m == nil {
				return
			}
			c.must(m.op == d.op || d.field == "ID" && m.op == "DeleteMany", "mongo-delete", where, m.e.Pos, s.St, "the tasks are not deleted by one %s command but by %s", d.op, m.op)
			msg := c.matches(m, want, nil)
			c.must(msg == "", "mongo-delete", where, m.e.Pos, s.St, "the command does not delete exactly the tasks named: %s", msg)
			c.must(class == "nil" || class == "other", "mongo-error", where, m.e.Pos, s.St, "unexpected error %s", class)
			if class == "nil" {
				c.resultCount("mongo-delete-count", where, s.St, r, m, "Deleted", "DeletedCount")
			}
		})
	}
}

func (c *Checker) mongoReads() {
	for _, d := range []struct{ name, typ string }{{"GetTask", "Task"}, {"GetPromise", "Promise"}} {
		where := mongoWhere(d.name)
		want := c.exactID(c.strParam(c.mongoFn(d.name), 0))
		if d.typ == "Promise" {
			want[c.tkey("State")] = c.eqc(c.state("TaskStateActive"))
			for _, f := range []string{"ID", "Consumer", "Deadline"} {
				c.must(c.key("Promise", f) == c.tkey(f), "mongo-read", where, 0, nil, "promises are read from other fields than those stored: %s", f)
			}
		}
		c.mongoOutcomes(d.name, func(r *Ret, s Seg, class string, cs []*mcmd) {
			m := c.oneCommand("mongo-read", where, s, class, cs)
			if m == nil || !c.must(m.op == "FindOne", "mongo-read", where, m.e.Pos, s.St, "unexpected command %s", m.op) {
				return
			}
			msg := c.matches(m, want, nil)
			c.must(msg == "" && plainLookup(m), "mongo-read", where, m.e.Pos, s.St, "the command does not look up exactly what was named: %s", msg)
			switch class {
			case "nil":
				c.returnsDoc("mongo-read", where, r, s, m, d.typ)
			case "ErrNotFound":
				c.must(m.out == "none", "mongo-notfound", where, m.e.Pos, s.St, "not-found is reported although the record may exist")
			case "other":
				c.must(m.out != "none", "mongo-notfound", where, m.e.Pos, s.St, "a missing record is not reported as such")
			default:
				c.must(false, "mongo-error", where, m.e.Pos, s.St, "unexpected error %s", class)
			}
		})
	}
	where := mongoWhere("GetTopic")
	topic := c.strParam(c.mongoFn("GetTopic"), 0)
	c.mongoOutcomes("GetTopic", func(r *Ret, s Seg, class string, cs []*mcmd) {
		m := c.oneCommand("mongo-read", where, s, class, cs)
		if m == nil || !c.must(m.op == "CountDocuments", "mongo-read", where, m.e.Pos, s.St, "unexpected command %s", m.op) {
			return
		}
		msg := c.matches(m, map[string]cond{c.tkey("Topic"): c.eqc(topic)}, nil)
		c.must(msg == "" && plainLookup(m) && m.opt("Limit") == nil, "mongo-read", where, m.e.Pos, s.St, "the command does not count exactly the tasks of the topic: %s", msg)
		zero := s.St.known(mkEq0(toLin(s.St.norm(m.res))))
		switch class {
		case "nil":
			v := c.deref(s.St, r.res(0))
			c.must(c.sameVal(s.St, c.field(s.St, v, "Name"), topic) && c.field(s.St, v, "Count") == s.St.norm(m.res), "mongo-read", where, m.e.Pos, s.St, "the topic is reported incorrectly")
			c.must(zero == 0, "mongo-notfound", where, m.e.Pos, s.St, "a topic without tasks is reported as existing")
		case "ErrNotFound":
			c.must(m.out == "ok" && zero == 1, "mongo-notfound", where, m.e.Pos, s.St, "not-found is reported although the topic may exist")
		}
	})
}

func isInt(t *Term, want int64) bool {
	n, ok := t.intConst()
	return ok && n == want
}

// cursorLoop: the listing is collected in a loop over the cursor of the command: it
// starts empty, every iteration adds the document that it has decoded into an object
// of its own, and it ends only when there are no more documents and no error.
func (c *Checker) cursorLoop(where string, s Seg, m *mcmd, v *Term) bool {
	st, cur := s.St, s.St.norm(m.res)
	for _, e := range s.Ev {
		if e.Loop == nil {
			continue
		}
		l := e.Loop
		at := -1
		vars := append(append([]LoopVar{}, l.Phis...), l.Cells...)
		for i, p := range vars {
			if p.Sym == v {
				at = i
			}
		}
		if at < 0 {
			continue
		}
		in := st.norm(vars[at].Init)
		c.must(!in.isNilConst() && mkLen(in) == mkInt(0), "mongo-page", where, l.Pos, st, "the listing does not start as an empty list")
		for _, sp := range l.Steps {
			nv := append(append([]*Term{}, sp.Next...), sp.NextC...)[at]
			nv = sp.St.norm(nv)
			nexts, ok := 0, false
			var doc *Term
			for _, x := range sp.Events {
				switch x.Kind {
				case "mongo.next":
					nexts++
					ok = sp.St.norm(x.Args[0]) == cur && sp.St.isTrue(x.Res[0])
					doc = x.Res[0]
				case "mongo.decoded":
					c.must(sp.St.isNil(x.Res[0]), "mongo-error", where, x.Pos, &sp.St, "a record that cannot be decoded is passed over")
				}
			}
			if !c.must(nexts == 1 && ok && nv.isOp("append") && len(nv.Args) == 2 && nv.Args[0] == v, "mongo-page", where, l.Pos, &sp.St, "not every record delivered by the command is added to the listing") {
				continue
			}
			p := sp.St.norm(nv.Args[1])
			if !c.must(p.K == KAddr && l.Entry.heap.get(p.Obj) == nil, "mongo-page", where, l.Pos, &sp.St, "the listed records share one object") {
				continue
			}
			d := sp.St.norm(c.x.load(&sp.St, p))
			c.must(d.isOp("doc") && len(d.Args) == 2 && sp.St.norm(d.Args[0]) == cur && d.Args[1] == doc, "mongo-page", where, l.Pos, &sp.St, "a listed record is not the one delivered by the command: %v", d)
		}
		end, checked := false, false
		for _, x := range s.Ev {
			switch {
			case x.Kind == "mongo.next" && st.norm(x.Args[0]) == cur:
				end = st.isFalse(x.Res[0])
				checked = false
			case x.Kind == "mongo.curerr" && st.norm(x.Args[0]) == cur:
				checked = st.isNil(x.Res[0])
			}
		}
		c.must(end, "mongo-page", where, l.Pos, st, "the listing may end before all records have been delivered")
		c.must(checked, "mongo-error", where, l.Pos, st, "a failure to read the records is reported as success")
		return true
	}
	return false
}

// ---- listings ---------------------------------------------------------------------

func (c *Checker) mongoPages() {
	for _, d := range []struct {
		name string
		want map[string]cond
	}{
		{"ListTasks", map[string]cond{c.tkey("Topic"): c.eqc(c.strParam(c.mongoFn("ListTasks"), 0))}},
		{"ListPromises", map[string]cond{c.tkey("Topic"): c.eqc(c.strParam(c.mongoFn("ListPromises"), 0)), c.tkey("State"): c.eqc(c.state("TaskStateActive"))}},
		{"ListTopics", nil},
	} {
		where := mongoWhere(d.name)
		limit, offset := c.intParam(c.mongoFn(d.name), 0), c.intParam(c.mongoFn(d.name), 1)
		c.mongoOutcomes(d.name, func(r *Ret, s Seg, class string, cs []*mcmd) {
			if s.Loop != nil && len(cs) == 0 || !c.must(len(cs) == 1 && s.Loop == nil, "mongo-page", where, posOf(s.Ev), s.St, "%d commands are sent instead of one", len(cs)) {
				return
			}
			m := cs[0]
			is := func(v, want *Term) bool {
				if v == nil {
					return false
				}
				v = c.bval(&m.st, v)
				for isConv(v) {
					v = v.Args[0]
				}
				return v == m.st.norm(want)
			}
			c.otherError(where, s, class)
			c.must(class == "nil" || class == "other", "mongo-error", where, m.e.Pos, s.St, "unexpected error %s", class)
			if d.want != nil {
				if !c.must(m.op == "Find", "mongo-page", where, m.e.Pos, s.St, "unexpected command %s", m.op) {
					return
				}
				msg := c.matches(m, d.want, nil)
				c.must(msg == "", "mongo-page", where, m.e.Pos, s.St, "the command does not list exactly the records of the topic: %s", msg)
				c.must(is(m.opt("Limit"), limit) && is(m.opt("Skip"), offset), "mongo-page", where, m.e.Pos, s.St, "the page is not the requested one: limit %v, skip %v", m.opt("Limit"), m.opt("Skip"))
				c.must(m.opt("Projection") == nil && m.opt("?") == nil, "mongo-page", where, m.e.Pos, s.St, "the records are listed incompletely")
			} else {
				c.topicPipeline(where, s, m, is, limit, offset)
			}
			if class != "nil" {
				return
			}
			c.must(m.out == "ok", "mongo-error", where, m.e.Pos, s.St, "a failed command is reported as success")
			v := s.St.norm(r.res(0))
			if c.cursorLoop(where, s, m, v) {
				return
			}
			read := false
			for _, e := range s.Ev {
				if e.Kind == "mongo.all" && s.St.norm(e.Args[0]) == s.St.norm(m.res) {
					read = true
					c.must(s.St.isNil(opErr(e)), "mongo-error", where, e.Pos, s.St, "a failure to read the records is reported as success")
				}
			}
			// A list that is missing because there are no records may be replaced.
			docs := mkOp("docs", v.T, s.St.norm(m.res))
			if v == docs && s.St.notNil(v) || v.K != KNil && c.isEmptyList(s.St, v) && s.St.isNil(docs) {
				v = mkOp("nonnil:docs", v.T, s.St.norm(m.res))
			}
			c.must(read && v.isOp("nonnil:docs") && v.Args[0] == s.St.norm(m.res), "mongo-page", where, m.e.Pos, s.St, "the result is not the list of records delivered by the command, or not a list if there are none: %v", v)
		})
	}
}

func (c *Checker) topicPipeline(where string, s Seg, m *mcmd, is func(v, want *Term) bool, limit, offset *Term) {
	if !c.must(m.op == "Aggregate", "mongo-page", where, m.e.Pos, s.St, "unexpected command %s", m.op) {
		return
	}
	el, ok := c.x.elems(&m.st, m.st.norm(unIface(m.e.Args[2])))
	var keys []string
	ok2, skips := ok, false
	for _, p := range el {
		d, ok := c.doc(&m.st, p)
		if !ok || len(d) != 1 {
			ok2 = false
			continue
		}
		k := d[0].key
		switch k {
		case "$group":
			g, ok := c.doc(&m.st, d[0].val)
			id := ""
			if v := g.get("_id"); ok && v != nil {
				id, _ = c.bval(&m.st, v).strConst()
			}
			ok2 = ok2 && id == "$"+c.tkey("Topic") && c.key("Topic", "Name") == "_id"
		case "$skip":
			ok2 = ok2 && is(d[0].val, offset)
			skips = true
		case "$limit":
			ok2 = ok2 && is(d[0].val, limit)
		case "$sort":
			continue
		}
		keys = append(keys, k)
	}
	want := "$group $skip $limit"
	if !skips && m.st.isFalse(mkGe0(toLin(offset).add(lin{c: 1}, -1))) {
		want = "$group $limit" // nothing to skip
	}
	c.must(ok2 && strings.Join(keys, " ") == want, "mongo-page", where, m.e.Pos, s.St, "the command does not list the requested page of the topics: %v", keys)
}
