package main

// Rules over the MemDB engine.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Checker) memdbFn(name string) *ssa.Function {
	return c.x.prog.method(pkgMemdb, "Engine", name)
}

func (c *Checker) memdb(name string) []Ret {
	c.needSchema()
	c.x.opaque[pkgNonce+".Generate"] = true
	return c.method(pkgMemdb, "Engine", name)
}

// Ins is a record written to the database.
type Ins struct {
	e    *Event
	seg  Seg
	txn  *Term
	obj  *Term // pointer passed to Insert
	val  *Term // its contents
	base *Term // pointer to the task it was derived from (record or request)
	ri   *RecInfo
}

// rawBase finds the pointer whose pointee the field was copied from.
func rawBase(f *Term) *Term {
	if f.isOp("field") && f.Args[0].isOp("deref") {
		return f.Args[0].Args[0]
	}
	return nil
}

func pristine(p *Term) *Term { return mkOp("deref", derefType(p.T), p) }

func (c *Checker) inserts(s Seg) (out []Ins) {
	for _, e := range s.Ev {
		if e.Kind != "txn.insert" || !e.St.isFalseErr(opErr(e)) && s.Ret == nil && false {
			continue
		}
		if e.Kind != "txn.insert" {
			continue
		}
		st := e.St
		o := unIface(st.norm(e.Args[2]))
		in := Ins{e: e, seg: s, txn: st.norm(e.Args[0]), obj: o}
		if derefType(o.T) != nil && o.K != KNil {
			in.val = c.x.load(&st, o)
			in.base = c.baseOf(&st, in.val)
			if in.base != nil {
				in.ri = c.x.recs[in.base]
			}
		}
		out = append(out, in)
	}
	return
}

func (c *Checker) baseOf(st *State, val *Term) *Term {
	id := mkField2(val, "ID")
	if b := rawBase(id); b != nil {
		return st.norm(b)
	}
	for r := range c.x.recs {
		if st.notNil(r) && c.sameVal(st, id, mkField2(pristine(r), "ID")) {
			return r
		}
	}
	return nil
}

func (s *State) isFalseErr(e *Term) bool { return e == nil || s.isNil(e) }

// opFailed: the operation is known to have failed on this path.
func opFailed(st *State, e *Event) bool {
	er := opErr(e)
	return er != nil && !st.isNil(er)
}

// fieldSpec maps the fields that may differ from the base to a predicate that
// explains what is wrong ("" if nothing).
type fieldSpec map[string]func(st *State, v, base *Term) string

func (c *Checker) checkFields(rule string, in Ins, where string, spec fieldSpec) bool {
	st := in.e.St
	T := structOf(c.x.taskType())
	if in.val == nil || in.base == nil {
		return c.must(false, rule, where, in.e.Pos, &st, "the stored object is not derived from a task")
	}
	ok := true
	b := pristine(in.base)
	for i := 0; i < T.NumFields(); i++ {
		n := T.Field(i).Name()
		v, bv := st.norm(mkField(in.val, i)), mkField(b, i)
		if f := spec[n]; f != nil {
			if msg := f(&st, v, bv); msg != "" {
				ok = c.must(false, rule, where+"."+n, in.e.Pos, &st, "field %s of the stored task %s (value %v)", n, msg, v)
			} else {
				c.ok(rule)
			}
			continue
		}
		// What is never stored may be cleared.
		if z, _ := v.strConst(); v.K == KConst && z == "" && reflect.StructTag(T.Tag(i)).Get("bson") == "-" {
			c.ok(rule)
			continue
		}
		if !c.sameVal(&st, v, bv) {
			ok = c.must(false, rule, where+"."+n, in.e.Pos, &st, "field %s of the stored task must not change (value %v)", n, v)
		} else {
			c.ok(rule)
		}
	}
	return ok
}

func isConstInt(want int64) func(st *State, v, base *Term) string {
	return func(st *State, v, base *Term) string {
		if n, ok := st.norm(v).intConst(); ok && n == want {
			return ""
		}
		return fmt.Sprintf("must be %d", want)
	}
}

func (c *Checker) stateConst(name string) int64 {
	k, ok := c.x.prog.pkg(modPath).Members[name].(*ssa.NamedConst)
	if !ok {
		return -999
	}
	return k.Value.Int64()
}

func isEmptyStr(st *State, v, base *Term) string {
	if s, ok := st.norm(v).strConst(); ok && s == "" {
		return ""
	}
	if st.isTrue(mkEq(v, mkStr(""))) {
		return ""
	}
	return "must be cleared"
}

// isFreshNonce: the result of a nonce generation that happened in the segment.
func (c *Checker) isFreshNonce(ev []*Event) func(st *State, v, base *Term) string {
	return func(st *State, v, base *Term) string {
		v = st.norm(v)
		for _, e := range ev {
			if e.Kind == "call" && e.Name == pkgNonce+".Generate" && len(e.Res) == 1 && st.norm(e.Res[0]) == v {
				if n, ok := st.norm(e.Args[0]).intConst(); ok && n >= 8 {
					return ""
				}
				return "must be a nonce of sufficient length"
			}
		}
		return "must be a newly generated nonce"
	}
}

// isNow: a (pointer to a) time read from the clock during the call.
func (c *Checker) isNow(ev []*Event) func(st *State, v, base *Term) string {
	return func(st *State, v, base *Term) string {
		v = st.norm(v)
		if derefType(v.T) != nil && !isTime(v.T) {
			if v.K == KNil {
				return "must be the current time"
			}
			v = st.norm(c.deref(st, v))
		}
		v = stripTime(v)
		for _, e := range ev {
			if e.Kind == "time.now" && stripTime(e.Res[0]) == v {
				return ""
			}
		}
		return "must be the current time"
	}
}

func (c *Checker) isSame(w *Term) func(st *State, v, base *Term) string {
	return func(st *State, v, base *Term) string {
		if w != nil && c.sameVal(st, v, w) {
			return ""
		}
		return fmt.Sprintf("must be %v", w)
	}
}

func (c *Checker) claimSpec(ev []*Event, p *Term) fieldSpec {
	pv := pristine(p)
	return fieldSpec{
		"State":    isConstInt(c.stateConst("TaskStateActive")),
		"Nonce":    c.isFreshNonce(ev),
		"Consumer": c.isSame(mkField2(pv, "Consumer")),
		"Consumed": c.isNow(ev),
		"Deadline": c.isSame(mkField2(pv, "Deadline")),
	}
}

func (c *Checker) releaseSpec() fieldSpec {
	return fieldSpec{"State": isConstInt(c.stateConst("TaskStatePending")), "Nonce": isEmptyStr}
}

// allEvents: own events of a segment plus, for iterations, those before the loop.
func (s Seg) all() []*Event {
	if s.Loop == nil {
		return s.Ev
	}
	return append(append([]*Event{}, s.Loop.Entry.events()...), s.Ev...)
}

// ---- transaction discipline -----------------------------------------------------

var memdbMutators = []string{"Chore", "Poll", "Commit", "DeleteTopics", "DeleteTopic", "InsertTasks", "UpsertTasks", "DeleteTasks", "InsertTask", "UpsertTask", "DeleteTask", "DeletePromises", "InsertPromise", "UpsertPromise", "DeletePromise"}
var memdbReaders = []string{"ListTopics", "GetTopic", "ListTasks", "GetTask", "ListPromises", "GetPromise"}

func isTxnOp(e *Event) bool {
	return kindIn(e, "txn.first", "txn.get", "txn.lowerbound", "txn.getreverse", "txn.reverselowerbound", "txn.insert", "txn.delete", "txn.deleteall")
}

func isTxnMod(e *Event) bool { return kindIn(e, "txn.insert", "txn.delete", "txn.deleteall") }

// modsIn: modifications made on a trail, including those of its loops.
func modsIn(ev []*Event) (out []*Event) {
	for _, e := range ev {
		if isTxnMod(e) {
			out = append(out, e)
		}
	}
	eachStep(ev, func(l *Loop, s *Step) {
		for _, e := range s.Events {
			if isTxnMod(e) {
				out = append(out, e)
			}
		}
	})
	return
}

func errRes(r *Ret) *Term {
	if r.V == nil {
		return nil
	}
	if r.V.K == KTuple {
		return r.V.Args[len(r.V.Args)-1]
	}
	return r.V
}

// txnRules: atomicity of one engine method.
func (c *Checker) txnRules(name string, mutator bool) {
	where := "memdb.Engine." + name
	rets := c.memdb(name)
	seen := map[*Step]bool{}
	for i := range rets {
		r := &rets[i]
		st := &r.St
		ev := st.events()
		if r.Panic || r.Exit {
			continue
		}
		class := c.errClass(st, errRes(r))
		ended := map[*Term]string{}
		var commits []*Event
		writes := 0
		for _, e := range ev {
			switch e.Kind {
			case "txn.begin":
				ended[e.Res[0]] = ""
				if w, ok := e.St.norm(e.Args[1]).boolConst(); ok && w {
					writes++
				}
			case "txn.commit":
				ended[e.St.norm(e.Args[0])] = "commit"
				commits = append(commits, e)
			case "txn.abort":
				ended[e.St.norm(e.Args[0])] = "abort"
			}
		}
		for _, e := range ev {
			if e.Kind == "txn.begin" {
				if w, ok := e.St.norm(e.Args[1]).boolConst(); !ok || w {
					c.must(ended[e.Res[0]] != "", "txn-ended", where, e.Pos, st, "a write transaction is neither committed nor aborted on a path; every later write blocks")
				}
			}
		}
		if mutator {
			c.must(writes <= 1, "txn-single", where, posOf(ev), st, "the operation is split over several write transactions")
		}
		mods := modsIn(ev)
		for _, e := range mods {
			t := e.St.norm(e.Args[0])
			if class == "nil" {
				c.must(ended[t] == "commit", "txn-committed", where, e.Pos, st, "the operation succeeds without committing its changes")
			}
		}
		// A failed operation must fail the call and must not be committed.
		for j, e := range ev {
			if isTxnOp(e) && opFailed(st, e) {
				c.must(class != "nil", "txn-error", where, e.Pos, st, "the failure of a database operation is reported as success")
				for _, k := range ev[j:] {
					if k.Kind == "txn.commit" && k.St.norm(k.Args[0]) == e.St.norm(e.Args[0]) {
						c.must(false, "txn-error", where, e.Pos, st, "the transaction is committed after one of its operations failed")
					}
				}
			} else if isTxnOp(e) {
				c.ok("txn-error")
			}
		}
		if class != "nil" && len(mods) > 0 && len(commits) > 0 {
			// Only an error that arose after the commit may be returned.
			after := false
			for _, e := range ev {
				if e == commits[0] {
					after = true
				}
				if after {
					for _, v := range e.Res {
						if st.norm(v) == st.norm(errRes(r)) && !v.isNilConst() {
							class = "post-commit"
						}
					}
				}
			}
			if n := c.errTaint(ev, commits[0], st.norm(errRes(r))); n {
				class = "post-commit"
			}
			c.must(class == "post-commit", "txn-error", where, commits[0].Pos, st, "the operation reports a failure although its changes were committed")
		}
		for _, s := range segs(r, seen) {
			for _, e := range s.Ev {
				switch e.Kind {
				case "txn.useafterend":
					c.must(false, "txn-use", where, e.Pos, s.St, "a transaction is used after it ended")
				case "txn.readonly":
					c.must(false, "txn-use", where, e.Pos, s.St, "a read-only transaction is used for a modification")
				case "badindex":
					c.must(false, "txn-use", where, e.Pos, s.St, "index lookup always fails: %s", e.Name)
				}
				if isTxnOp(e) {
					c.ok("txn-use")
					if s.Step != nil && opFailed(s.St, e) {
						c.must(false, "txn-error", where, e.Pos, s.St, "the failure of a database operation is ignored and the iteration continues")
					}
				}
			}
			c.storedRules(where, r, s)
		}
	}
}

func posOf(ev []*Event) token.Pos {
	for _, e := range ev {
		if e.Pos.IsValid() {
			return e.Pos
		}
	}
	return 0
}

// errTaint: the error wraps a value produced after the given event.
func (c *Checker) errTaint(ev []*Event, from *Event, er *Term) bool {
	var after bool
	for _, e := range ev {
		if e == from {
			after = true
		}
		if !after {
			continue
		}
		for _, v := range e.Res {
			if v != nil && !v.isNilConst() && v.K == KSym && containsTerm(er, v) {
				return true
			}
		}
	}
	return false
}

func containsTerm(t, v *Term) bool {
	if t == nil {
		return false
	}
	if t == v {
		return true
	}
	for _, a := range t.Args {
		if containsTerm(a, v) {
			return true
		}
	}
	return false
}

// storedRules: stored records are private copies.
func (c *Checker) storedRules(where string, r *Ret, s Seg) {
	for _, in := range c.inserts(s) {
		if opFailed(s.St, in.e) {
			continue
		}
		st := in.e.St
		if n, ok := st.norm(in.e.Args[1]).strConst(); !ok || c.x.schema == nil || c.x.schema.Tables[n] == nil {
			c.must(false, "stored-copy", where, in.e.Pos, &st, "record inserted into an unknown table")
		}
		tk := ""
		if in.obj.T != nil {
			tk = typeKey(derefType(in.obj.T))
		}
		if !c.must(in.obj.K == KAddr && tk == modPath+".Task", "stored-copy", where, in.e.Pos, &st, "the stored object is not a private copy of a task: %v", in.obj) {
			continue
		}
		o1 := st.heap.get(in.obj.Obj)
		o2 := s.St.heap.get(in.obj.Obj)
		c.must(o1 != nil && o2 != nil && o1.Val == o2.Val, "stored-copy", where, in.e.Pos, s.St, "the stored object is modified after it was inserted")
		if s.Ret != nil {
			c.must(!c.reaches(s.St, r.V, in.obj), "stored-copy", where, in.e.Pos, s.St, "the stored object is handed out to the caller")
		}
	}
	// Lists of records stay within the operation.
	if s.Ret != nil {
		for _, e := range s.Ev {
			if e.Loop == nil {
				continue
			}
			for _, p := range e.Loop.Phis {
				cl := c.x.collected[p.Sym]
				if cl == nil {
					continue
				}
				for _, f := range cl.from {
					if f.st.facts.norm(unIface(f.elem)) == f.st.facts.norm(f.rec) {
						c.must(!c.reaches(s.St, r.V, p.Sym), "stored-immutable", where, e.Pos, s.St, "stored records are handed out to the caller")
					}
				}
			}
		}
	}
	// Records read from the database are never modified or handed out.
	for _, e := range s.Ev {
		if !kindIn(e, "iter.next", "iter.cur", "txn.first") {
			continue
		}
		rec := unIface(e.Res[0])
		if c.x.recs[rec] == nil {
			continue
		}
		v := c.deref(s.St, rec)
		c.must(v == pristine(rec), "stored-immutable", where, e.Pos, s.St, "a stored record is modified in place")
		if s.Ret != nil {
			c.must(!c.reaches(s.St, r.V, rec), "stored-immutable", where, e.Pos, s.St, "a stored record is handed out to the caller")
		} else {
			for _, nv := range append(append([]*Term{}, s.Step.Next...), s.Step.NextC...) {
				if nv.isOp("append") && c.x.collected[nv.Args[0]] != nil {
					continue // see above
				}
				c.must(!appends(nv, rec), "stored-immutable", where, e.Pos, s.St, "a stored record is handed out to the caller")
			}
		}
	}
}

func appends(v, rec *Term) bool {
	if v == nil || !v.isOp("append") {
		return false
	}
	for _, a := range v.Args[1:] {
		if unIface(a) == rec {
			return true
		}
	}
	return false
}

// reaches: the value is, or directly contains, the pointer.
func (c *Checker) reaches(st *State, v, p *Term) bool {
	if v == nil {
		return false
	}
	v = st.norm(v)
	if v == p {
		return true
	}
	switch v.K {
	case KTuple, KIface, KStruct, KArray:
		for _, a := range v.Args {
			if c.reaches(st, a, p) {
				return true
			}
		}
	case KSlice:
		if el, ok := c.x.elems(st, v); ok {
			for _, a := range el {
				if c.reaches(st, a, p) {
					return true
				}
			}
		}
	}
	if v.K == KAddr {
		if o := st.heap.get(v.Obj); o != nil && o.Val != nil && o.Val.K == KStruct {
			return c.reaches(st, o.Val, p)
		}
	}
	if v.isOp("append") || v.isOp("slice") {
		for _, a := range v.Args {
			if c.reaches(st, a, p) {
				return true
			}
		}
	}
	return false
}

// sameTxn: the record the decision was based on was read in the transaction
// that stores the result.
func (c *Checker) sameTxn(rule, where string, in Ins) bool {
	st := in.e.St
	return c.must(in.ri != nil && (in.ri.Txn == nil || st.norm(in.ri.Txn) == in.txn), rule, where, in.e.Pos, &st, "the task was not read in the transaction that modifies it")
}

// ---- claims ------------------------------------------------------------------------

// successes splits the outcomes of a method.
func (c *Checker) eachOutcome(name string, rets []Ret, f func(r *Ret, st *State, class string, ev []*Event)) {
	good := false
	for i := range rets {
		r := &rets[i]
		if r.Panic || r.Exit {
			c.must(!r.Panic, "no-panic", name, 0, &r.St, "the operation panics")
			continue
		}
		class := c.errClass(&r.St, errRes(r))
		if class == "nil" {
			good = true
		}
		ev := r.St.events()
		for _, e := range ev {
			if e.Kind == "badindex" {
				c.must(false, "index", name, e.Pos, &r.St, "an index lookup always fails: %s", e.Name)
			}
		}
		f(r, &r.St, class, ev)
	}
	if len(rets) > 1 {
		c.must(good, "can-succeed", name, 0, nil, "the operation never succeeds")
	}
}

// claimed returns the single record inserted on a successful outcome.
func (c *Checker) oneInsert(rule, where string, r *Ret) *Ins {
	ins := c.inserts(Seg{Ev: r.St.events(), St: &r.St, Ret: r})
	n := 0
	eachStep(r.St.events(), func(l *Loop, s *Step) { n += len(c.inserts(Seg{Ev: s.Events, St: &s.St, Step: s, Loop: l})) })
	mods := len(modsIn(r.St.events()))
	if !c.must(len(ins) == 1 && n == 0 && mods == 1, rule, where, posOf(r.St.events()), &r.St, "a successful call must store exactly one task, stores %d (and %d in loops), %d modifications", len(ins), n, mods) {
		return nil
	}
	if opFailed(&r.St, ins[0].e) {
		c.must(false, rule, where, ins[0].e.Pos, &r.St, "a failed insertion is reported as success")
		return nil
	}
	return &ins[0]
}

// returnsStored: the result equals the stored task.
func (c *Checker) returnsStored(rule, where string, r *Ret, in *Ins) {
	st := &r.St
	v := st.norm(r.res(0))
	if !c.must(st.notNil(v) || v.K == KAddr, rule, where+".result", in.e.Pos, st, "a successful call returns no task") {
		return
	}
	got := c.deref(st, v)
	T := structOf(c.x.taskType())
	for i := 0; i < T.NumFields(); i++ {
		c.must(c.sameVal(st, mkField(got, i), mkField(in.val, i)), rule, where+".result."+T.Field(i).Name(), in.e.Pos, st, "the returned task differs from the stored one in field %s", T.Field(i).Name())
	}
}

func (c *Checker) promiseParam(name string) *Term {
	fn := c.memdbFn(name)
	if fn == nil {
		return nil
	}
	for i, p := range fn.Params {
		if strings.HasSuffix(typeKey(p.Type()), modPath+".Promise") {
			return c.param(fn, i)
		}
	}
	return nil
}

func (c *Checker) strParam(fn *ssa.Function, n int) *Term {
	k := 0
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if k == n {
				return c.param(fn, i)
			}
			k++
		}
	}
	return nil
}

func (c *Checker) intParam(fn *ssa.Function, n int) *Term {
	k := 0
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if k == n {
				return c.param(fn, i)
			}
			k++
		}
	}
	return nil
}

func (c *Checker) ptrParam(fn *ssa.Function, typ string) *Term {
	for i, p := range fn.Params {
		if d := derefType(p.Type()); d != nil && typeKey(d) == modPath+"."+typ {
			return c.param(fn, i)
		}
	}
	return nil
}

// recState evaluates a field of the pristine record.
func (c *Checker) recIs(st *State, rec *Term, field string, want *Term) int {
	return st.known(mkEq(mkField2(pristine(rec), field), want))
}

func (c *Checker) state(name string) *Term {
	return mkConst(constInt(c.stateConst(name)), c.x.prog.typeNamed(modPath, "TaskState"))
}

// claimFromPending: rules on methods that hand a pending task to a consumer.
func (c *Checker) claimFromPending(name string, pending bool) {
	where := "memdb.Engine." + name
	rets := c.memdb(name)
	c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
		if class != "nil" {
			return
		}
		in := c.oneInsert("claim-one", where, r)
		if in == nil {
			return
		}
		if in.base == nil || in.ri == nil {
			c.must(false, "claim-source", where, in.e.Pos, st, "the claimed task is not a stored record")
			return
		}
		c.sameTxn("claim-atomic", where, *in)
		s := in.e.St
		if pending {
			c.must(c.recIs(&s, in.base, "State", c.state("TaskStatePending")) == 1, "claim-pending", where, in.e.Pos, &s, "a task is claimed without being known to be pending")
		}
		v := s.norm(mkField2(in.val, "State"))
		n, ok := v.intConst()
		c.must(ok && n == c.stateConst("TaskStateActive"), "claim-active", where, in.e.Pos, &s, "a claimed task is not stored as active")
		c.must(c.isFreshNonce(ev)(&s, mkField2(in.val, "Nonce"), nil) == "", "claim-nonce", where, in.e.Pos, &s, "a claimed task does not get a newly generated nonce")
		c.must(committed(ev, in.txn), "claim-committed", where, in.e.Pos, st, "the claim is reported without being committed")
	})
}

func committed(ev []*Event, txn *Term) bool {
	for _, e := range ev {
		if e.Kind == "txn.commit" && e.St.norm(e.Args[0]) == txn {
			return true
		}
	}
	return false
}

// claimFields: the fields of a claimed task.
func (c *Checker) claimFields(name string) {
	where := "memdb.Engine." + name
	p := c.ptrParam(c.memdbFn(name), "Promise")
	c.eachOutcome(where, c.memdb(name), func(r *Ret, st *State, class string, ev []*Event) {
		if class != "nil" {
			return
		}
		in := c.oneInsert("claim-one", where, r)
		if in == nil || p == nil {
			return
		}
		c.checkFields("claim-fields", *in, where, c.claimSpec(ev, p))
		c.returnsStored("claim-result", where, r, in)
	})
}

// pollOrder: Poll claims the first record of the pending index of the topic.
func (c *Checker) pollOrder() {
	where := "memdb.Engine.Poll"
	fn := c.memdbFn("Poll")
	topic := c.strParam(fn, 0)
	c.eachOutcome(where, c.memdb("Poll"), func(r *Ret, st *State, class string, ev []*Event) {
		var first *Event
		for _, e := range ev {
			if e.Kind == "iter.next" {
				if n, ok := tagInt(e); ok && n == 0 {
					first = e
				}
			}
		}
		switch class {
		case "nil":
			in := c.oneInsert("poll-first", where, r)
			if in == nil {
				return
			}
			s := in.e.St
			ri := in.ri
			n, zero := int64(-1), false
			if ri != nil && ri.N != nil {
				n, zero = ri.N.intConst()
			}
			if !c.must(ri != nil && ri.Iter != nil && zero && n == 0, "poll-first", where, in.e.Pos, st, "the claimed task is not the first one of the scan") {
				return
			}
			c.pendingScan(where, ri, topic, in.e.Pos, &s)
			rv := pristine(in.base)
			c.must(s.isTrue(mkEq(mkField2(rv, "Topic"), topic)), "poll-topic", where, in.e.Pos, &s, "the claimed task is not known to belong to the polled topic")
			c.must(c.dueBy(&s, ev, mkField2(rv, "Scheduled")), "poll-due", where, in.e.Pos, &s, "the claimed task is not known to have reached its scheduled time")
		case "ErrNotFound":
			ok := false
			if first != nil {
				rec := unIface(first.Res[0])
				if rec.isNilConst() {
					ok = true
				} else if c.x.recs[rec] != nil {
					rv := pristine(rec)
					sch := mkField2(rv, "Scheduled")
					ok = st.isFalse(mkEq(mkField2(rv, "Topic"), topic)) || c.notDue(st, ev, sch)
				}
				if it := c.x.recs[rec]; it != nil {
					c.pendingScan(where, it, topic, first.Pos, st)
				}
			}
			c.must(ok, "poll-notfound", where, posOf(ev), st, "the topic is reported as empty although its first pending task may be available")
		case "other":
			c.must(anyFailed(st, ev), "poll-error", where, posOf(ev), st, "an error is returned although no operation failed")
		default:
			c.must(false, "poll-error", where, posOf(ev), st, "unexpected error %s", class)
		}
	})
}

func tagInt(e *Event) (int64, bool) {
	if t, ok := e.Tag.(*Term); ok && t != nil {
		return t.intConst()
	}
	return 0, false
}

func anyFailed(st *State, ev []*Event) bool {
	for _, e := range ev {
		if er := opErr(e); er != nil && er.K != KNil && isErrType(er) && !st.isNil(er) {
			return true
		}
		if e.Kind == "badindex" {
			return true
		}
	}
	return false
}

func isErrType(t *Term) bool {
	return t.T != nil && types.Identical(t.T, types.Universe.Lookup("error").Type())
}

// pendingScan: an ordered scan of the pending tasks from the earliest schedule.
func (c *Checker) pendingScan(where string, ri *RecInfo, topic *Term, pos token.Pos, st *State) {
	ix := ri.Index
	ok := ix != nil && len(ix.Parts) == 3 && ix.Parts[0].Kind == "state" && ix.Parts[0].Filter == c.state("TaskStatePending") &&
		ix.Parts[1].Kind == "string" && ix.Parts[1].Name == "Topic" && ix.Parts[2].Kind == "time" && ix.Parts[2].Name == "Scheduled"
	if !c.must(ok, "poll-index", where, pos, st, "candidates are not taken from an index ordered by topic and schedule") {
		return
	}
	c.must(ri.Mode == "lowerbound" && len(ri.Args) == 3 && st.norm(unIface(ri.Args[1])) == st.norm(topic) && isMinTime(st.norm(unIface(ri.Args[2]))),
		"poll-index", where, pos, st, "the scan does not start at the earliest possible schedule of the topic: %v", ri.Args)
}

// isMinTime: earlier than every time that a timestamp in JSON can denote.
func isMinTime(t *Term) bool {
	t = stripTime(t)
	if t.isOp("frommilli") {
		if n, ok := t.Args[0].intConst(); ok {
			return n <= -62200000000000
		}
	}
	return false
}

// timeLe: the time (or pointer to one) is known to be at most the clock value.
func (c *Checker) nowEvents(ev []*Event) (out []*Term) {
	for _, e := range ev {
		if e.Kind == "time.now" {
			out = append(out, stripTime(e.Res[0]))
		}
	}
	return
}

// dueBy: the pointer is nil or its time is known to be at or before now.
func (c *Checker) dueBy(st *State, ev []*Event, p *Term) bool {
	if st.isNil(p) {
		return true
	}
	t := stripTime(c.deref(st, p))
	for _, n := range c.nowEvents(ev) {
		if st.isTrue(mkGe0(toLin(n).add(toLin(t), -1))) {
			return true
		}
	}
	return false
}

// notDue: the time is known to be at or after now.
func (c *Checker) notDue(st *State, ev []*Event, p *Term) bool {
	if !st.notNil(p) {
		return false
	}
	t := stripTime(c.deref(st, p))
	for _, n := range c.nowEvents(ev) {
		if st.isTrue(mkGe0(toLin(t).add(toLin(n), -1))) {
			return true
		}
	}
	return false
}
