package main

// Rules over the MemDB engine: promises by ID, commits, recovery, retention,
// insertions, deletions, listings.

import (
	"fmt"
	"go/token"
	"go/types"
)

// firstByID finds the lookup of a record by its identifier on a trail.
func (c *Checker) firstBy(ev []*Event, field string, key *Term) (found *Event) {
	for _, e := range ev {
		if e.Kind != "txn.first" {
			continue
		}
		a, ok := e.Tag.([]*Term)
		if !ok || len(a) != 1 {
			continue
		}
		ix := c.indexNamed(&e.St, e.Args)
		if ix == nil || !ix.Unique || len(ix.Parts) != 1 || ix.Parts[0].Name != field {
			continue
		}
		if key == nil || e.St.norm(unIface(a[0])) == e.St.norm(key) {
			found = e
		}
	}
	return
}

func (c *Checker) indexNamed(st *State, args []*Term) *IndexInfo {
	if len(args) < 3 || c.x.schema == nil {
		return nil
	}
	t, _ := st.norm(args[1]).strConst()
	n, _ := st.norm(args[2]).strConst()
	return c.x.schema.Tables[t][n]
}

// ---- commits -------------------------------------------------------------------

func (c *Checker) memdbCommitGuard() {
	where := "memdb.Engine.Commit"
	fn := c.memdbFn("Commit")
	m, id := c.ptrParam(fn, "Commit"), c.strParam(fn, 0)
	mn := mkField2(pristine(m), "Nonce")
	empty := mkEq(mn, mkStr(""))
	c.eachOutcome(where, c.memdb("Commit"), func(r *Ret, st *State, class string, ev []*Event) {
		f := c.firstBy(ev, "ID", id)
		switch class {
		case "nil":
			in := c.oneInsert("commit-one", where, r)
			if in == nil {
				return
			}
			if !c.must(in.ri != nil, "commit-source", where, in.e.Pos, st, "the committed task is not a stored record") {
				return
			}
			c.sameTxn("commit-atomic", where, *in)
			s := in.e.St
			c.must(s.isTrue(mkEq(mkField2(pristine(in.base), "ID"), id)), "commit-source", where, in.e.Pos, &s, "the commit is applied to another task")
			same := mkEq(mn, mkField2(pristine(in.base), "Nonce"))
			c.must(s.isTrue(empty) || s.isTrue(same), "commit-guard", where, in.e.Pos, &s, "a commit is applied without its nonce being empty or equal to that of the task")
			c.must(isEmptyStr(&s, mkField2(in.val, "Nonce"), nil) == "", "commit-invalidate", where, in.e.Pos, &s, "the nonce stays valid after a commit")
			c.must(committed(ev, in.txn), "commit-committed", where, in.e.Pos, st, "the commit is not stored")
		case "ErrConflict":
			ok := false
			if f != nil {
				rec := unIface(f.Res[0])
				if c.x.recs[rec] != nil {
					ok = st.isFalse(empty) && st.isFalse(mkEq(mn, mkField2(pristine(rec), "Nonce")))
				}
			}
			c.must(ok, "commit-conflict", where, posOf(ev), st, "a conflict is reported although the nonce may match")
		case "ErrNotFound":
			c.must(f != nil && unIface(f.Res[0]).isNilConst(), "commit-notfound", where, posOf(ev), st, "the task is reported as missing although it may exist")
		case "other":
			c.must(anyFailed(st, ev), "commit-error", where, posOf(ev), st, "an error is returned although no operation failed")
		default:
			c.must(false, "commit-error", where, posOf(ev), st, "unexpected error %s", class)
		}
	})
}

// commitSpec: what a commit does to each field.
func (c *Checker) commitSpec(m *Term) fieldSpec {
	mv := pristine(m)
	cond := func(name string, absent func(st *State, v *Term) *Term, load bool) func(st *State, v, base *Term) string {
		return func(st *State, v, base *Term) string {
			f := mkField2(mv, name)
			want := f
			switch st.known(absent(st, f)) {
			case 1:
				want = base
			case 0:
				if load {
					want = c.deref(st, f)
				}
			default:
				// Undecided: correct only if the value is the same either way.
				want = f
				if load || !c.sameVal(st, f, base) {
					return "is set regardless of whether the commit specifies it"
				}
			}
			if !c.sameVal(st, v, want) {
				return fmt.Sprintf("must be %v", want)
			}
			return ""
		}
	}
	nilp := func(st *State, v *Term) *Term { return mkIsNil(v) }
	return fieldSpec{
		"Nonce":     isEmptyStr,
		"Topic":     cond("Topic", func(st *State, v *Term) *Term { return mkEq(v, mkStr("")) }, false),
		"State":     cond("State", nilp, true),
		"Scheduled": cond("Scheduled", nilp, false),
		"Payload":   cond("Payload", nilp, false),
	}
}

func (c *Checker) memdbCommitFields() {
	where := "memdb.Engine.Commit"
	m := c.ptrParam(c.memdbFn("Commit"), "Commit")
	c.eachOutcome(where, c.memdb("Commit"), func(r *Ret, st *State, class string, ev []*Event) {
		if class != "nil" {
			return
		}
		in := c.oneInsert("commit-one", where, r)
		if in == nil {
			return
		}
		c.checkFields("commit-fields", *in, where, c.commitSpec(m))
		c.returnsStored("commit-result", where, r, in)
	})
}

// ---- scans ---------------------------------------------------------------------

// scanSpec describes a scan that must process the records that satisfy a
// condition, and stop only where no further record can satisfy it.
type scanSpec struct {
	rule   string
	where  string
	parts  []string // components of an acceptable index, e.g. "state=1 time=Deadline"
	ok     func(ri *RecInfo, st *State) string
	done   func(s Seg, rec *Term) bool // processed in the segment
	exempt func(st *State, ev []*Event, rec *Term) bool
	single bool // scan may stop at an exempt record
	skip   bool // exempt records may be passed over
}

func indexSig(ix *IndexInfo) string {
	if ix == nil {
		return "?"
	}
	s := ""
	for i, p := range ix.Parts {
		if i > 0 {
			s += " "
		}
		s += p.Kind + ":" + p.Name
		if p.Filter != nil {
			s += "=" + p.Filter.String()
		}
	}
	return s
}

// scan verifies the processing of every record delivered by the iterators that
// satisfy spec.ok, on every successful outcome. It returns the number of
// outcomes on which such a scan took place.
func (c *Checker) scan(spec scanSpec, rets []Ret, class func(st *State, r *Ret) bool) int {
	n := 0
	seen := map[*Step]bool{}
	c.eachOutcome(spec.where, rets, func(r *Ret, st *State, _ string, ev []*Event) {
		success := class(st, r)
		all := r.St.events()
		for _, s := range segs(r, seen) {
			type got struct {
				e   *Event
				rec *Term
			}
			var gots []got
			for _, e := range s.Ev {
				if !kindIn(e, "iter.next", "iter.cur", "list.cur") {
					continue
				}
				rec := unIface(e.Res[0])
				ri := c.x.recs[rec]
				if ri == nil || spec.ok(ri, s.St) != "" {
					continue
				}
				gots = append(gots, got{e, rec})
			}
			if s.Ret != nil && !success {
				continue
			}
			for _, g := range gots {
				if spec.done(s, g.rec) {
					c.ok(spec.rule)
					continue
				}
				carried := false
				if s.Step != nil {
					for _, nv := range s.Step.NextRec {
						if unIface(nv) == g.rec {
							carried = true
						}
					}
				} else {
					for _, e := range s.Ev {
						if e.Loop == nil {
							continue
						}
						for _, lv := range e.Loop.Recs {
							if unIface(lv.Init) == g.rec {
								carried = true
							}
						}
					}
				}
				if carried || s.Step != nil && c.x.collectedIn(s.Loop, s.Step, g.rec) != nil {
					c.ok(spec.rule)
					continue
				}
				ex := spec.exempt != nil && spec.exempt(s.St, append(append([]*Event{}, all...), s.Ev...), g.rec)
				if s.Step != nil && ex && !spec.skip && !spec.single {
					ex = false
				}
				c.must(ex, spec.rule, spec.where, g.e.Pos, s.St, "a task delivered by the scan is passed over although it may qualify")
			}
		}
		if !success {
			return
		}
		// Records that are collected first are all processed afterwards.
		for i, e := range ev {
			if e.Loop == nil {
				continue
			}
			for _, s := range e.Loop.Steps {
				for _, se := range s.Events {
					if !kindIn(se, "iter.next", "iter.cur") {
						continue
					}
					rec := unIface(se.Res[0])
					l := c.x.collectedIn(e.Loop, s, rec)
					if ri := c.x.recs[rec]; l == nil || ri == nil || spec.ok(ri, &s.St) != "" || spec.done(Seg{Ev: s.Events, St: &s.St, Step: s, Loop: e.Loop}, rec) {
						continue
					}
					c.must(c.drained(st, ev[i+1:], l), spec.rule, spec.where, se.Pos, st, "not every task that was collected is processed")
				}
			}
		}
		// Exhaustion: the last record obtained on the path is nil or exempt.
		iters := map[*Term]*Event{}
		var order []*Term
		opened := map[*Term]bool{}
		for _, e := range ev {
			if e.Loop != nil {
				// The loop may have advanced the iterator; its exit re-delivers the record.
				for _, s := range e.Loop.Steps {
					for _, se := range s.Events {
						if kindIn(se, "iter.next") {
							delete(iters, se.St.norm(se.Args[0]))
						}
					}
				}
				continue
			}
			if kindIn(e, "iter.next", "iter.cur") {
				it := e.St.norm(e.Args[0])
				if !opened[it] {
					opened[it] = true
					order = append(order, it)
				}
				iters[it] = e
			}
		}
		for _, it := range order {
			ri := c.iterInfo(st, it)
			if ri == nil || spec.ok(ri, st) != "" {
				continue
			}
			n++
			e := iters[it]
			if !c.must(e != nil, spec.rule, spec.where, posOf(ev), st, "the scan ends before all tasks have been examined") {
				continue
			}
			rec := unIface(e.Res[0])
			if rec.isNilConst() {
				c.ok(spec.rule)
				continue
			}
			c.must(spec.single && spec.exempt != nil && spec.exempt(st, ev, rec), spec.rule, spec.where, e.Pos, st, "the scan stops at a task although later ones may qualify")
		}
	})
	return n
}

// drained: a loop goes through all elements of the list.
func (c *Checker) drained(st *State, ev []*Event, l *Term) bool {
	for _, e := range ev {
		if e.Loop == nil || len(e.Loop.Steps) == 0 || !c.loopRuns(st, e.Loop, mkLen(l), nil) {
			continue
		}
		all := true
		for _, s := range e.Loop.Steps {
			hit := false
			for _, se := range s.Events {
				if se.Kind != "list.cur" || se.Args[0] != l {
					continue
				}
				for _, v := range e.Loop.Phis {
					d := toLin(se.Args[1]).add(toLin(v.Sym), -1).add(toLin(v.Init), 1)
					if len(d.m) == 0 && d.c == 0 {
						hit = true
					}
				}
			}
			all = all && hit
		}
		if all {
			return true
		}
	}
	return false
}

// iterInfo describes an iterator object.
func (c *Checker) iterInfo(st *State, it *Term) *RecInfo {
	if it == nil || it.K != KAddr {
		return nil
	}
	o := st.heap.get(it.Obj)
	if o == nil {
		return nil
	}
	ri := &RecInfo{Iter: it}
	if m := attr(o, "mode"); m != nil {
		ri.Mode, _ = m.strConst()
	}
	t, _ := orNil(attr(o, "table")).strConst()
	n, _ := orNil(attr(o, "index")).strConst()
	if c.x.schema != nil {
		ri.Index = c.x.schema.Tables[t][n]
	}
	if a := attr(o, "args"); a != nil {
		ri.Args = a.Args
	}
	ri.Exact = ri.Mode == "get" || ri.Mode == "getreverse"
	ri.Txn, ri.Ver = attr(o, "txn"), attr(o, "ver")
	return ri
}

func orNil(t *Term) *Term {
	if t == nil {
		return mkNil(nil)
	}
	return t
}

// stateTimeScan: a scan over the records in a state ordered by a time, from the
// earliest possible value.
func (c *Checker) stateTimeScan(state, field string) func(ri *RecInfo, st *State) string {
	want := c.state(state)
	return func(ri *RecInfo, st *State) string {
		ix := ri.Index
		if ix == nil || len(ix.Parts) != 2 || ix.Parts[0].Kind != "state" || ix.Parts[0].Filter != want || ix.Parts[1].Kind != "time" || ix.Parts[1].Name != field {
			return "another index"
		}
		switch {
		case ri.Mode == "lowerbound" && len(ri.Args) == 2 && isMinTime(st.norm(unIface(ri.Args[1]))):
		case (ri.Mode == "lowerbound" || ri.Mode == "get") && len(ri.Args) == 0:
		default:
			return "does not start at the earliest value"
		}
		return ""
	}
}

// afterDB: outcomes of Chore whose database part completed.
func (c *Checker) choreDone(st *State, r *Ret) bool {
	for _, e := range st.events() {
		if e.Kind == "txn.commit" {
			return true
		}
	}
	return c.errClass(st, errRes(r)) == "nil"
}

func (c *Checker) memdbRecovery() {
	where := "memdb.Engine.Chore"
	rets := c.memdb("Chore")
	done := func(s Seg, rec *Term) bool {
		for _, in := range c.inserts(s) {
			if in.base == rec && !opFailed(s.St, in.e) {
				return true
			}
		}
		return false
	}
	n := c.scan(scanSpec{
		rule: "recover-all", where: where, ok: c.stateTimeScan("TaskStateActive", "Deadline"), done: done, single: true, skip: true,
		exempt: func(st *State, ev []*Event, rec *Term) bool {
			return c.notDue(st, ev, mkField2(pristine(rec), "Deadline"))
		},
	}, rets, c.choreDone)
	c.must(n > 0, "recover-all", where, c.memdbFn("Chore").Pos(), nil, "active tasks are not scanned in the order of their deadlines from the earliest one")
	// Every successful run scans.
	c.everyRunScans("recover-all", where, rets, c.stateTimeScan("TaskStateActive", "Deadline"))
	// Only expired active tasks are put back, and completely.
	seen := map[*Step]bool{}
	for i := range rets {
		r := &rets[i]
		for _, s := range segs(r, seen) {
			for _, in := range c.inserts(s) {
				st := in.e.St
				if !c.must(in.ri != nil, "recover-only", where, in.e.Pos, &st, "the recovered task is not a stored record") {
					continue
				}
				c.must(c.recIs(&st, in.base, "State", c.state("TaskStateActive")) == 1, "recover-only", where, in.e.Pos, &st, "a task is recovered without being known to be active")
				dl := mkField2(pristine(in.base), "Deadline")
				c.must(st.notNil(dl) && c.dueBy(&st, append(s.all(), s.Ev...), dl), "recover-only", where, in.e.Pos, &st, "a task is recovered without its deadline being known to have passed")
				c.checkFields("recover-fields", in, where, c.releaseSpec())
				c.sameTxn("recover-atomic", where, in)
			}
		}
	}
}

func (c *Checker) everyRunScans(rule, where string, rets []Ret, ok func(ri *RecInfo, st *State) string) {
	c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
		if !c.choreDone(st, r) {
			return
		}
		found := false
		for _, e := range ev {
			if kindIn(e, "txn.get", "txn.lowerbound") && !opFailed(st, e) {
				if ri := c.iterInfo(st, st.norm(e.Res[0])); ri != nil && ok(ri, st) == "" {
					found = true
				}
			}
		}
		c.must(found, rule, where, posOf(ev), st, "a run completes without scanning the relevant tasks from the earliest one")
	})
}

func (c *Checker) memdbRetention() {
	where := "memdb.Engine.Chore"
	rets := c.memdb("Chore")
	ok := c.stateTimeScan("TaskStateCompleted", "Consumed")
	expiry := func(st *State, rec *Term) *Term {
		return c.deref(st, mkField2(pristine(rec), "Consumed"))
	}
	// retention period: the configuration value of the engine
	period := func(st *State) *Term { return c.configField(st, "--memdb-retention-period") }
	done := func(s Seg, rec *Term) bool {
		for _, e := range s.Ev {
			if e.Kind == "txn.delete" && unIface(e.St.norm(e.Args[2])) == rec && !opFailed(s.St, e) {
				return true
			}
		}
		return false
	}
	exempt := func(st *State, ev []*Event, rec *Term) bool {
		d := toLin(stripTime(expiry(st, rec))).add(toLin(period(st)), 1)
		for _, n := range c.nowEvents(ev) {
			if st.isTrue(mkGe0(d.add(toLin(n), -1))) {
				return true
			}
		}
		return false
	}
	n := c.scan(scanSpec{rule: "retain-all", where: where, ok: ok, done: done, single: true, skip: true, exempt: exempt}, rets, c.choreDone)
	c.must(n > 0, "retain-all", where, c.memdbFn("Chore").Pos(), nil, "completed tasks are not scanned in the order of their consumption from the earliest one")
	c.everyRunScans("retain-all", where, rets, ok)
	seen := map[*Step]bool{}
	for i := range rets {
		r := &rets[i]
		for _, s := range segs(r, seen) {
			for _, e := range s.Ev {
				if e.Kind == "txn.deleteall" {
					c.must(false, "retain-only", where, e.Pos, s.St, "a maintenance run deletes tasks in bulk")
				}
				if e.Kind != "txn.delete" {
					continue
				}
				st := e.St
				rec := unIface(st.norm(e.Args[2]))
				if c.x.recs[rec] == nil {
					if b := c.baseOf(&st, c.deref(&st, rec)); b != nil {
						rec = b
					}
				}
				if !c.must(c.x.recs[rec] != nil, "retain-only", where, e.Pos, &st, "the deleted task is not a stored record") {
					continue
				}
				c.must(c.recIs(&st, rec, "State", c.state("TaskStateCompleted")) == 1, "retain-only", where, e.Pos, &st, "a task is deleted without being known to be completed")
				d := toLin(stripTime(expiry(&st, rec))).add(toLin(period(&st)), 1)
				due := false
				for _, nw := range c.nowEvents(append(s.all(), s.Ev...)) {
					if st.isTrue(mkGe0(toLin(nw).add(d, -1))) {
						due = true
					}
				}
				c.must(due, "retain-only", where, e.Pos, &st, "a completed task is deleted without its retention period being known to have passed")
			}
		}
	}
}

// option is the value of a command line option in a configuration.
func option(st *State, cfg *Term, name string) *Term {
	if f := tagged(cfg, "arg", name); f != nil {
		return st.norm(f)
	}
	return mkOp("noconfig"+name, types.Typ[types.Int64])
}

// configField: an option of the configuration the engine was created with.
func (c *Checker) configField(st *State, name string) *Term {
	fn := c.memdbFn("Chore")
	g := c.param(fn, 0)
	s := *st
	eng := c.x.load(&s, g)
	es := structOf(eng.T)
	for i := 0; es != nil && i < es.NumFields(); i++ {
		if d := derefType(es.Field(i).Type()); d != nil && typeKey(d) == pkgMemdb+".Config" {
			return option(st, c.x.load(&s, mkField(eng, i)), name)
		}
		if typeKey(es.Field(i).Type()) == pkgMemdb+".Config" {
			return option(st, mkField(eng, i), name)
		}
	}
	return mkOp("noconfig", types.Typ[types.Int64])
}

// ---- promises ----------------------------------------------------------------------

func (c *Checker) memdbRelease() {
	// By ID.
	where := "memdb.Engine.DeletePromise"
	fn := c.memdbFn("DeletePromise")
	id := c.strParam(fn, 0)
	active := c.state("TaskStateActive")
	c.eachOutcome(where, c.memdb("DeletePromise"), func(r *Ret, st *State, class string, ev []*Event) {
		if class == "other" {
			c.must(anyFailed(st, ev), "release-error", where, posOf(ev), st, "an error is returned although no operation failed")
			return
		}
		if !c.must(class == "nil", "release-error", where, posOf(ev), st, "unexpected error %s", class) {
			return
		}
		f := c.firstBy(ev, "ID", id)
		if !c.must(f != nil, "release-one", where, posOf(ev), st, "the task is not looked up") {
			return
		}
		rec := unIface(f.Res[0])
		ins := c.inserts(Seg{Ev: ev, St: st, Ret: r})
		cnt, known := c.field(st, c.deref(st, r.res(0)), "Deleted").intConst()
		if rec.isNilConst() || c.recIs(st, rec, "State", active) == 0 {
			c.must(len(modsIn(ev)) == 0 && known && cnt == 0, "release-one", where, posOf(ev), st, "a task without a promise is modified or counted")
			return
		}
		if !c.must(len(ins) == 1 && len(modsIn(ev)) == 1 && known && cnt == 1, "release-one", where, posOf(ev), st, "an existing promise is not released, or not counted once") {
			return
		}
		c.must(ins[0].base == rec && c.recIs(&ins[0].e.St, rec, "State", active) == 1, "release-only", where, ins[0].e.Pos, st, "a task is released without being known to be active")
		c.checkFields("release-fields", ins[0], where, c.releaseSpec())
		c.sameTxn("release-atomic", where, ins[0])
	})
	// By topic.
	where = "memdb.Engine.DeletePromises"
	fn = c.memdbFn("DeletePromises")
	topic := c.strParam(fn, 0)
	rets := c.memdb("DeletePromises")
	ok := c.activeTopicScan(topic)
	done := func(s Seg, rec *Term) bool {
		for _, in := range c.inserts(s) {
			if in.base == rec && !opFailed(s.St, in.e) {
				return true
			}
		}
		return false
	}
	success := func(st *State, r *Ret) bool { return c.errClass(st, errRes(r)) == "nil" }
	n := c.scan(scanSpec{rule: "release-all", where: where, ok: ok, done: done, skip: true,
		exempt: func(st *State, ev []*Event, rec *Term) bool {
			return c.recIs(st, rec, "State", active) == 0 || c.recIs(st, rec, "Topic", topic) == 0
		}}, rets, success)
	c.must(n > 0, "release-all", where, fn.Pos(), nil, "the active tasks of the topic are not scanned")
	seen := map[*Step]bool{}
	for i := range rets {
		r := &rets[i]
		for _, s := range segs(r, seen) {
			for _, in := range c.inserts(s) {
				st := in.e.St
				c.must(in.ri != nil && c.recIs(&st, in.base, "State", active) == 1 && c.recIs(&st, in.base, "Topic", topic) == 1, "release-only", where, in.e.Pos, &st, "a task is released without being known to be active in the topic")
				c.checkFields("release-fields", in, where, c.releaseSpec())
				c.sameTxn("release-atomic", where, in)
			}
		}
		if !r.Panic && success(&r.St, r) {
			c.count("release-count", where, r, c.field(&r.St, c.deref(&r.St, r.res(0)), "Deleted"), func(e *Event) bool { return e.Kind == "txn.insert" })
		}
	}
}

func (c *Checker) activeTopicScan(topic *Term) func(ri *RecInfo, st *State) string {
	return func(ri *RecInfo, st *State) string {
		ix := ri.Index
		if ix == nil || ri.Mode != "get" {
			return "not an exact lookup"
		}
		switch indexSig(ix) {
		case "state:State=" + c.state("TaskStateActive").String() + " string:Topic":
			if len(ri.Args) == 2 && st.norm(unIface(ri.Args[1])) == st.norm(topic) {
				return ""
			}
		case "string:Topic":
			if len(ri.Args) == 1 && st.norm(unIface(ri.Args[0])) == st.norm(topic) {
				return ""
			}
		}
		return "another index"
	}
}

// count verifies that a result counts the events of a kind on the path.
func (c *Checker) count(rule, where string, r *Ret, v *Term, counted func(e *Event) bool) bool {
	st := &r.St
	ev := st.events()
	want := toLin(v)
	// Rewrite lengths of ranged slices by the loop variable that reached them.
	var loops []*Loop
	own := int64(0)
	for _, e := range ev {
		if e.Loop != nil {
			loops = append(loops, e.Loop)
		} else if counted(e) {
			own++
		}
	}
	for i := len(loops) - 1; i >= 0; i-- {
		l := loops[i]
		alts := []lin{want}
		for _, p := range append(append([]LoopVar{}, l.Phis...), l.Cells...) {
			if p.Sym == nil || !isIntish(p.Sym.T) {
				continue
			}
			for a, k := range want.m {
				if mentions(a, fmt.Sprintf("@loop%d", l.ID)) {
					continue
				}
				d := toLin(a).add(toLin(p.Sym), -1)
				b := st.facts.bounds(lin{m: d.m}.term(types.Typ[types.Int64]))
				if b.lo == b.hi && b.lo != negInf {
					// a = p.Sym + const
					alts = append(alts, want.add(toLin(a), -k).add(toLin(p.Sym), k).add(lin{c: b.lo + d.c}, k))
				}
			}
		}
		okAlt := false
		for _, w := range alts {
			good := true
			rest := w
			vars := append(append([]LoopVar{}, l.Phis...), l.Cells...)
			for _, s := range l.Steps {
				d := lin{m: map[*Term]int64{}}
				next := append(append([]*Term{}, s.Next...), s.NextC...)
				for j, p := range vars {
					for a, k := range w.m {
						if a == p.Sym {
							d = d.add(toLin(s.St.norm(next[j])), k).add(toLin(p.Sym), -k)
						} else if a == mkLen(p.Sym) {
							d = d.add(toLin(mkLen(next[j])), k).add(toLin(a), -k)
						}
					}
				}
				n := int64(0)
				for _, e := range s.Events {
					if e.Loop != nil {
						for _, s2 := range e.Loop.Steps {
							for _, e2 := range s2.Events {
								if counted(e2) {
									good = false
								}
							}
						}
					} else if counted(e) && !opFailed(&s.St, e) {
						n++
					}
				}
				if len(d.m) != 0 || d.c != n {
					good = false
				}
			}
			for _, p := range vars {
				for a, k := range w.m {
					if a == p.Sym {
						rest = rest.add(toLin(a), -k).add(toLin(p.Init), k)
					} else if a == mkLen(p.Sym) {
						rest = rest.add(toLin(a), -k).add(toLin(mkLen(p.Init)), k)
					}
				}
			}
			if good {
				okAlt = true
				want = rest
				break
			}
		}
		if !okAlt {
			return c.must(false, rule, where, l.Pos, st, "the reported number %v does not count the affected tasks", v)
		}
	}
	return c.must(len(want.m) == 0 && want.c == own, rule, where, posOf(ev), st, "the reported number %v does not count the affected tasks", v)
}

func (c *Checker) memdbPromiseErrors() {
	pend := c.state("TaskStatePending")
	for _, name := range []string{"InsertPromise", "UpsertPromise"} {
		where := "memdb.Engine." + name
		p := c.ptrParam(c.memdbFn(name), "Promise")
		id := mkField2(pristine(p), "ID")
		insert := name == "InsertPromise"
		c.eachOutcome(where, c.memdb(name), func(r *Ret, st *State, class string, ev []*Event) {
			f := c.firstBy(ev, "ID", id)
			var rec *Term
			if f != nil && !opFailed(st, f) {
				rec = unIface(f.Res[0])
			}
			switch class {
			case "nil":
				in := c.oneInsert("promise-one", where, r)
				if in == nil {
					return
				}
				c.must(rec != nil && in.base == rec, "promise-target", where, in.e.Pos, st, "the claimed task is not the one that was asked for")
			case "ErrNotFound":
				c.must(rec != nil && rec.isNilConst(), "promise-notfound", where, posOf(ev), st, "the task is reported as missing although it may exist")
			case "ErrConflict":
				c.must(insert && rec != nil && !rec.isNilConst() && c.recIs(st, rec, "State", pend) == 0, "promise-conflict", where, posOf(ev), st, "a conflict is reported although the task may be pending")
			case "other":
				c.must(anyFailed(st, ev), "promise-error", where, posOf(ev), st, "an error is returned although no operation failed")
			default:
				c.must(false, "promise-error", where, posOf(ev), st, "unexpected error %s", class)
			}
		})
	}
}

// ---- insertions --------------------------------------------------------------------

func (c *Checker) memdbInsertions() {
	for _, name := range []string{"InsertTask", "UpsertTask"} {
		where := "memdb.Engine." + name
		t := c.ptrParam(c.memdbFn(name), "Task")
		id := mkField2(pristine(t), "ID")
		insert := name == "InsertTask"
		c.eachOutcome(where, c.memdb(name), func(r *Ret, st *State, class string, ev []*Event) {
			f := c.firstBy(ev, "ID", id)
			var rec *Term
			if f != nil && !opFailed(st, f) {
				rec = unIface(f.Res[0])
			}
			switch class {
			case "nil":
				in := c.oneInsert("insert-one", where, r)
				if in == nil || !c.must(rec != nil, "insert-lookup", where, posOf(ev), st, "the task is stored without looking up its identifier") {
					return
				}
				c.must(in.base == t, "insert-one", where, in.e.Pos, st, "the stored task is not the requested one")
				c.checkFields("insert-fields", *in, where, fieldSpec{})
				s := in.e.St
				c.must(!insert || rec.isNilConst(), "insert-exclusive", where, in.e.Pos, &s, "an existing task is overwritten")
				c.must(st.norm(f.Args[0]) == in.txn, "insert-atomic", where, in.e.Pos, &s, "existence is checked in another transaction")
				res := c.deref(st, r.res(0))
				cr, ok1 := c.field(st, res, "Created").intConst()
				up, ok2 := c.field(st, res, "Updated").intConst()
				want := int64(0)
				if rec.isNilConst() {
					want = 1
				}
				c.must(ok1 && ok2 && cr == want && up == 1-want, "insert-count", where, in.e.Pos, st, "creations and updates are counted incorrectly: %v %v", c.field(st, res, "Created"), c.field(st, res, "Updated"))
			case "ErrConflict":
				c.must(insert && rec != nil && !rec.isNilConst(), "insert-conflict", where, posOf(ev), st, "a conflict is reported although the task may not exist")
			case "other":
				c.must(anyFailed(st, ev), "insert-error", where, posOf(ev), st, "an error is returned although no operation failed")
			default:
				c.must(false, "insert-error", where, posOf(ev), st, "unexpected error %s", class)
			}
		})
	}
	for _, name := range []string{"InsertTasks", "UpsertTasks"} {
		where := "memdb.Engine." + name
		fn := c.memdbFn(name)
		var ts *Term
		for i, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				ts = c.param(fn, i)
			}
		}
		insert := name == "InsertTasks"
		rets := c.memdb(name)
		c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
			if class == "other" {
				c.must(anyFailed(st, ev), "insert-error", where, posOf(ev), st, "an error is returned although no operation failed")
				return
			}
			if !c.must(class == "nil", "insert-error", where, posOf(ev), st, "unexpected error %s", class) {
				return
			}
			// Which elements were visited?
			if st.isTrue(mkEq0(toLin(mkLen(ts)))) && len(modsIn(ev)) == 0 {
				c.ok("insert-all")
			} else {
				c.visitsAll("insert-all", where, r, ts)
			}
			seenStep := 0
			eachStep(ev, func(l *Loop, s *Step) {
				seenStep++
				seg := Seg{Ev: s.Events, St: &s.St, Step: s, Loop: l}
				ins := c.inserts(seg)
				var f *Event
				for _, e := range s.Events {
					if e.Kind == "txn.first" {
						f = e
					}
				}
				if f == nil {
					if len(ins) > 0 {
						c.must(false, "insert-lookup", where, l.Pos, &s.St, "a task is stored without looking up its identifier")
					}
					return
				}
				rec := unIface(f.Res[0])
				if insert && !rec.isNilConst() {
					c.must(len(ins) == 0, "insert-exclusive", where, f.Pos, &s.St, "an existing task is overwritten")
					return
				}
				if !c.must(len(ins) == 1, "insert-all", where, f.Pos, &s.St, "a task of the list is not stored, or more than once") {
					return
				}
				in := ins[0]
				el := c.x.recs[in.base]
				c.must(el == nil && in.base != nil && in.base.isOp("index") && in.base.Args[0] == ts, "insert-all", where, in.e.Pos, &s.St, "the stored task is not an element of the list: %v", in.base)
				a, _ := f.Tag.([]*Term)
				ix := c.indexNamed(&f.St, f.Args)
				c.must(len(a) == 1 && ix != nil && ix.Unique && in.base != nil && c.sameVal(&f.St, unIface(a[0]), mkField2(pristine(in.base), "ID")), "insert-lookup", where, f.Pos, &s.St, "existence is not checked by the identifier of the task")
				c.must(s.St.norm(f.Args[0]) == in.txn, "insert-atomic", where, in.e.Pos, &s.St, "existence is checked in another transaction")
				c.checkFields("insert-fields", in, where, fieldSpec{})
			})
			res := c.deref(st, r.res(0))
			created := func(e *Event) bool {
				return e.Kind == "txn.first" && unIface(e.Res[0]).isNilConst() && !opFailed(&e.St, e)
			}
			updated := func(e *Event) bool {
				return !insert && e.Kind == "txn.first" && !unIface(e.Res[0]).isNilConst() && !opFailed(&e.St, e)
			}
			c.count("insert-count", where+".Created", r, c.field(st, res, "Created"), created)
			c.count("insert-count", where+".Updated", r, c.field(st, res, "Updated"), updated)
		})
	}
}

// visitsAll: a loop of the path visits the elements of the list one by one, from
// the first to the last.
func (c *Checker) visitsAll(rule, where string, r *Ret, ts *Term) {
	st := &r.St
	for _, e := range st.events() {
		l := e.Loop
		if l == nil {
			continue
		}
		if c.coversSlice(st, l, ts) {
			c.ok(rule)
			return
		}
	}
	c.must(false, rule, where, posOf(st.events()), st, "the operation may succeed without visiting every element of the list")
}

func (c *Checker) coversSlice(st *State, l *Loop, ts *Term) bool {
	if len(l.Steps) == 0 {
		// The body was never repeated: the list must be empty.
		return st.isTrue(mkEq0(toLin(mkLen(ts))))
	}
	// Index expression used by the steps.
	var idx *Term
	for _, s := range l.Steps {
		i := indexUsed(s, ts)
		if i == nil || idx != nil && i != idx {
			return false
		}
		idx = i
	}
	return c.coversIdx(st, l, idx, ts)
}

// coversIdx: an index of the loop takes every value from zero to the length of the
// list, and the loop has been left because the list was exhausted.
func (c *Checker) coversIdx(st *State, l *Loop, idx, ts *Term) bool {
	li := toLin(idx)
	vars := append(append([]LoopVar{}, l.Phis...), l.Cells...)
	first := li
	for _, p := range vars {
		if k := li.m[p.Sym]; k != 0 {
			if k != 1 {
				return false
			}
			first = first.add(toLin(p.Sym), -1).add(toLin(p.Init), 1)
		}
	}
	if len(first.m) != 0 || first.c != 0 {
		return false
	}
	for _, s := range l.Steps {
		d := lin{}
		next := append(append([]*Term{}, s.Next...), s.NextC...)
		for j, p := range vars {
			if li.m[p.Sym] != 0 {
				d = d.add(toLin(s.St.norm(next[j])), 1).add(toLin(p.Sym), -1)
			}
		}
		if len(d.m) != 0 || d.c != 1 {
			return false
		}
	}
	return st.isTrue(mkGe0(li.add(toLin(mkLen(ts)), -1)))
}

// indexUsed finds the index of the list element used by an iteration.
func indexUsed(s *Step, ts *Term) *Term {
	var out *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || out != nil {
			return
		}
		if t.isOp("index") && t.Args[0] == ts {
			out = t.Args[1]
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, e := range s.Events {
		for _, a := range e.Args {
			rec(a)
		}
		if ts, ok := e.Tag.([]*Term); ok {
			for _, a := range ts {
				rec(a)
			}
		}
	}
	return out
}

// ---- deletions and reads ---------------------------------------------------------

// bulkDelete: the operation deletes exactly the tasks selected by a key.
func (c *Checker) memdbDeletions() {
	for _, d := range []struct{ name, field string }{{"DeleteTopics", ""}, {"DeleteTopic", "Topic"}, {"DeleteTasks", "Topic"}, {"DeleteTask", "ID"}} {
		where := "memdb.Engine." + d.name
		fn := c.memdbFn(d.name)
		key := c.strParam(fn, 0)
		c.eachOutcome(where, c.memdb(d.name), func(r *Ret, st *State, class string, ev []*Event) {
			if class == "other" {
				c.must(anyFailed(st, ev), "delete-error", where, posOf(ev), st, "an error is returned although no operation failed")
				return
			}
			if !c.must(class == "nil", "delete-error", where, posOf(ev), st, "unexpected error %s", class) {
				return
			}
			mods := modsIn(ev)
			if len(mods) == 1 && mods[0].Kind == "txn.deleteall" {
				e := mods[0]
				ix := c.indexNamed(&e.St, e.Args)
				args, _ := e.Tag.([]*Term)
				ok := ix != nil
				if d.field == "" {
					ok = ok && len(args) == 0 && !ix.AllowMissing
				} else {
					ok = ok && len(ix.Parts) == 1 && ix.Parts[0].Name == d.field && len(args) == 1 && e.St.norm(unIface(args[0])) == e.St.norm(key)
				}
				c.must(ok, "delete-scope", where, e.Pos, st, "the operation deletes other tasks than those asked for")
				v := c.field(st, c.deref(st, r.res(0)), "Deleted")
				c.must(v == st.norm(e.Res[0]) || isConv(v) && v.Args[0] == st.norm(e.Res[0]), "delete-count", where, e.Pos, st, "the number of deleted tasks is reported incorrectly: %v", v)
				return
			}
			// Deletion one by one.
			c.deleteLoop(where, d.field, key, r)
		})
	}
}

func (c *Checker) deleteLoop(where, field string, key *Term, r *Ret) {
	st := &r.St
	ev := st.events()
	okScan := func(ri *RecInfo, st *State) string {
		if ri.Index == nil || ri.Mode != "get" {
			return "not an exact lookup"
		}
		if field == "" {
			if len(ri.Args) == 0 && !ri.Index.AllowMissing {
				return ""
			}
		} else if len(ri.Index.Parts) == 1 && ri.Index.Parts[0].Name == field && len(ri.Args) == 1 && st.norm(unIface(ri.Args[0])) == st.norm(key) {
			return ""
		}
		return "another index"
	}
	isDel := func(e *Event) bool { return e.Kind == "txn.delete" }
	if field == "ID" {
		f := c.firstBy(ev, "ID", key)
		dels := modsIn(ev)
		v, known := c.field(st, c.deref(st, r.res(0)), "Deleted").intConst()
		switch {
		case f == nil:
			c.must(false, "delete-scope", where, posOf(ev), st, "the task is not looked up by its identifier")
		case unIface(f.Res[0]).isNilConst():
			c.must(len(dels) == 0 && known && v == 0, "delete-count", where, f.Pos, st, "a missing task is deleted or counted")
		default:
			c.must(len(dels) == 1 && dels[0].Kind == "txn.delete" && c.baseOfPtr(&dels[0].St, dels[0].Args[2]) == unIface(f.Res[0]) && known && v == 1, "delete-scope", where, f.Pos, st, "the task is not deleted, or counted incorrectly")
		}
		return
	}
	n := c.scan(scanSpec{rule: "delete-scope", where: where, ok: okScan, done: func(s Seg, rec *Term) bool {
		for _, e := range s.Ev {
			if isDel(e) && c.baseOfPtr(&e.St, e.Args[2]) == rec {
				return true
			}
		}
		return false
	}}, []Ret{*r}, func(st *State, r *Ret) bool { return true })
	c.must(n > 0, "delete-scope", where, posOf(ev), st, "the tasks to be deleted are not enumerated")
	for _, e := range modsIn(ev) {
		rec := c.baseOfPtr(&e.St, e.Args[2])
		ri := c.x.recs[rec]
		c.must(isDel(e) && ri != nil && okScan(ri, &e.St) == "", "delete-scope", where, e.Pos, st, "the operation deletes other tasks than those asked for")
	}
	c.count("delete-count", where, r, c.field(st, c.deref(st, r.res(0)), "Deleted"), isDel)
}

func (c *Checker) baseOfPtr(st *State, p *Term) *Term {
	p = unIface(st.norm(p))
	if c.x.recs[p] != nil {
		return p
	}
	if derefType(p.T) == nil || p.K == KNil {
		return nil
	}
	return c.baseOf(st, c.deref(st, p))
}

// memdbReads: reads return what is stored under the key.
func (c *Checker) memdbReads() {
	// GetTask
	where := "memdb.Engine.GetTask"
	fn := c.memdbFn("GetTask")
	id := c.strParam(fn, 0)
	active := c.state("TaskStateActive")
	for _, name := range []string{"GetTask", "GetPromise"} {
		where = "memdb.Engine." + name
		id = c.strParam(c.memdbFn(name), 0)
		c.eachOutcome(where, c.memdb(name), func(r *Ret, st *State, class string, ev []*Event) {
			f := c.firstBy(ev, "ID", id)
			var rec *Term
			if f != nil && !opFailed(st, f) {
				rec = unIface(f.Res[0])
			}
			c.must(len(modsIn(ev)) == 0, "read-only", where, posOf(ev), st, "a read modifies the database")
			switch class {
			case "nil":
				if !c.must(rec != nil && !rec.isNilConst(), "read-found", where, posOf(ev), st, "a read succeeds without having found the task") {
					return
				}
				v := c.deref(st, r.res(0))
				b := pristine(rec)
				if name == "GetTask" {
					T := structOf(c.x.taskType())
					for i := 0; i < T.NumFields(); i++ {
						c.must(c.sameVal(st, mkField(v, i), mkField(b, i)), "read-fields", where+"."+T.Field(i).Name(), posOf(ev), st, "the returned task differs from the stored one in field %s", T.Field(i).Name())
					}
					return
				}
				c.must(c.recIs(st, rec, "State", active) == 1, "read-promise", where, posOf(ev), st, "a promise is reported for a task that is not known to be active")
				c.promiseFields(where, st, v, b, posOf(ev))
			case "ErrNotFound":
				c.must(rec != nil && (rec.isNilConst() || name == "GetPromise" && c.recIs(st, rec, "State", active) == 0), "read-notfound", where, posOf(ev), st, "an existing object is reported as missing")
			case "other":
				c.must(anyFailed(st, ev), "read-error", where, posOf(ev), st, "an error is returned although no operation failed")
			default:
				c.must(false, "read-error", where, posOf(ev), st, "unexpected error %s", class)
			}
		})
	}
	// GetTopic
	where = "memdb.Engine.GetTopic"
	fn = c.memdbFn("GetTopic")
	topic := c.strParam(fn, 0)
	ok := func(ri *RecInfo, st *State) string {
		if ri.Index == nil || ri.Mode != "get" || indexSig(ri.Index) != "string:Topic" || len(ri.Args) != 1 || st.norm(unIface(ri.Args[0])) != st.norm(topic) {
			return "another index"
		}
		return ""
	}
	rets := c.memdb("GetTopic")
	// The number of records delivered by the exhausted scan.
	delivered := func(st *State, ev []*Event) *lin {
		var out *lin
		for _, e := range ev {
			if e.Kind != "txn.get" || opFailed(st, e) {
				continue
			}
			it := st.norm(unIface(e.Res[0]))
			ri := c.iterInfo(st, it)
			if ri == nil || ok(ri, st) != "" {
				continue
			}
			if n := attr(st.heap.get(it.Obj), "n"); n != nil {
				l := toLin(st.norm(n)).add(lin{c: 1}, -1)
				out = &l
			}
		}
		return out
	}
	c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
		n := delivered(st, ev)
		switch class {
		case "nil":
			v := c.deref(st, r.res(0))
			c.must(c.sameVal(st, c.field(st, v, "Name"), topic), "topic-name", where, posOf(ev), st, "another topic is reported")
			cnt := toLin(c.field(st, v, "Count"))
			c.must(n != nil && st.entailsEq(n.add(cnt, -1)), "topic-count", where, posOf(ev), st, "the reported number %v is not the number of tasks of the topic", c.field(st, v, "Count"))
			c.must(n != nil && st.entails(n.add(lin{c: 1}, -1)), "topic-exists", where, posOf(ev), st, "a topic without tasks is reported as existing")
		case "ErrNotFound":
			c.must(n != nil && st.entailsEq(*n), "topic-notfound", where, posOf(ev), st, "a topic with tasks is reported as missing")
		case "other":
			c.must(anyFailed(st, ev), "topic-error", where, posOf(ev), st, "an error is returned although no operation failed")
		default:
			c.must(false, "topic-error", where, posOf(ev), st, "unexpected error %s", class)
		}
	})
	n := c.scan(scanSpec{rule: "topic-scan", where: where, ok: ok, done: func(s Seg, rec *Term) bool { return true }}, rets, func(st *State, r *Ret) bool { return c.errClass(st, errRes(r)) == "nil" })
	c.must(n > 0, "topic-scan", where, fn.Pos(), nil, "the tasks of the topic are not counted exhaustively")
}

func (c *Checker) promiseFields(where string, st *State, v, b *Term, pos token.Pos) {
	for _, f := range []struct{ p, t string }{{"ID", "ID"}, {"Consumer", "Consumer"}, {"Deadline", "Deadline"}} {
		c.must(c.sameVal(st, mkField2(v, f.p), mkField2(b, f.t)), "promise-view", where+"."+f.p, pos, st, "field %s of the promise differs from the task: %v", f.p, mkField2(v, f.p))
	}
}
