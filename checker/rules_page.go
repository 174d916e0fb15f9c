package main

// Rules over listings: pages of an ordered scan.

import (
	"go/types"
)

// idxOf is the position, within the scan, of the record of an event.
func (c *Checker) idxOf(e *Event) (lin, bool) {
	it := e.St.norm(e.Args[0])
	if it.K != KAddr {
		return lin{}, false
	}
	if e.Kind == "iter.next" {
		t, ok := e.Tag.(*Term)
		if !ok || t == nil {
			return lin{}, false
		}
		return toLin(t), true
	}
	o := e.St.heap.get(it.Obj)
	if o == nil || attr(o, "n") == nil {
		return lin{}, false
	}
	return toLin(e.St.norm(attr(o, "n"))).add(lin{c: 1}, -1), true
}

// pageCounter numbers the elements of a listing: it reaches the offset exactly when
// their number does. Its value is the number itself if it is exact, and at most the
// number otherwise.
type pageCounter struct {
	at    lin
	exact bool
	prev  *Term // the topic of the previous record
}

type pageSpec struct {
	name     string
	scan     func(ri *RecInfo, st *State) string
	element  func(where string, st *State, v, rec *Term, e *Event) // checks a listed element
	distinct bool                                                  // topics: one element per distinct topic
}

// memdbPages: the three listings.
func (c *Checker) memdbPages() {
	T := structOf(c.x.taskType())
	exact := func(topic *Term, sig string, arg int) func(ri *RecInfo, st *State) string {
		return func(ri *RecInfo, st *State) string {
			if ri.Index == nil || ri.Mode != "get" || indexSig(ri.Index) != sig || len(ri.Args) != arg+1 || st.norm(unIface(ri.Args[arg])) != st.norm(topic) {
				return "another scan"
			}
			return ""
		}
	}
	topic := c.strParam(c.memdbFn("ListTasks"), 0)
	c.page(pageSpec{name: "ListTasks", scan: exact(topic, "string:Topic", 0), element: func(where string, st *State, v, rec *Term, e *Event) {
		b := pristine(rec)
		for i := 0; i < T.NumFields(); i++ {
			c.must(c.sameVal(st, mkField(v, i), mkField(b, i)), "list-fields", where+"."+T.Field(i).Name(), e.Pos, st, "a listed task differs from the stored one in field %s", T.Field(i).Name())
		}
	}})
	topic2 := c.strParam(c.memdbFn("ListPromises"), 0)
	c.page(pageSpec{name: "ListPromises", scan: exact(topic2, "state:State="+c.state("TaskStateActive").String()+" string:Topic", 1), element: func(where string, st *State, v, rec *Term, e *Event) {
		c.promiseFields(where, st, v, pristine(rec), e.Pos)
	}})
	c.page(pageSpec{name: "ListTopics", distinct: true, scan: func(ri *RecInfo, st *State) string {
		if ri.Index == nil || ri.Mode != "get" || indexSig(ri.Index) != "string:Topic" || ri.Index.AllowMissing || len(ri.Args) != 0 {
			return "another scan"
		}
		return ""
	}, element: func(where string, st *State, v, rec *Term, e *Event) {
		c.must(c.sameVal(st, mkField2(v, "Name"), mkField2(pristine(rec), "Topic")), "list-fields", where+".Name", e.Pos, st, "a listed topic is not the topic of the record")
	}})
}

func (c *Checker) page(sp pageSpec) {
	where := "memdb.Engine." + sp.name
	fn := c.memdbFn(sp.name)
	rets := c.memdb(sp.name)
	if fn == nil {
		return
	}
	limit, offset := toLin(c.intParam(fn, 0)), toLin(c.intParam(fn, 1))
	pages := 0
	seen := map[*Step]bool{}
	c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
		if class != "nil" {
			c.must(class == "other" && anyFailed(st, ev), "list-error", where, posOf(ev), st, "an error is returned although no operation failed")
			return
		}
		c.must(len(modsIn(ev)) == 0, "read-only", where, posOf(ev), st, "a listing modifies the database")
		// The scan.
		var it *Term
		for _, e := range ev {
			if kindIn(e, "txn.get", "txn.lowerbound", "txn.getreverse", "txn.reverselowerbound") && !opFailed(st, e) {
				i := st.norm(unIface(e.Res[0]))
				ri := c.iterInfo(st, i)
				if c.must(ri != nil && sp.scan(ri, st) == "" && it == nil, "list-scan", where, e.Pos, st, "the listing is not taken from a scan of exactly the records asked for") {
					it = i
				}
			}
		}
		none := st.entails(limit.scale(-1))
		v := st.norm(r.res(0))
		if it == nil {
			c.must(none, "list-scan", where, posOf(ev), st, "nothing is scanned")
			return
		}
		// The list variable.
		var list *Term
		var home *Loop
		if v.K == KSym || v.K == KOp {
			for _, e := range ev {
				if e.Loop != nil {
					for _, p := range append(append([]LoopVar{}, e.Loop.Phis...), e.Loop.Cells...) {
						if p.Sym == v {
							list, home = v, e.Loop
							in := st.norm(p.Init)
							c.must(in.K == KSlice && in.N == in.Hi || in.isNilConst(), "list-content", where, e.Loop.Pos, st, "the listing does not start empty")
						}
					}
				}
			}
			if !c.must(list != nil, "list-content", where, posOf(ev), st, "the elements of the listing cannot be traced to the scan: %v", v) {
				return
			}
			pages++
		} else {
			n, ok := mkLen(v).intConst()
			c.must(ok && n == 0, "list-content", where, posOf(ev), st, "the elements of the listing cannot be traced to the scan: %v", v)
		}
		// Which counter numbers the elements?
		var counters []pageCounter
		if home != nil {
			counters = c.pageCounters(where, home, it, offset, sp.distinct)
		}
		for _, s := range segs(r, seen) {
			c.pageSeg(sp, where, s, it, home, list, limit, offset, counters)
		}
		// The end of the page.
		pos := lin{}
		if n := attr(st.heap.get(it.Obj), "n"); n != nil {
			pos = toLin(st.norm(n))
		}
		var last *Event
		for _, e := range ev {
			if kindIn(e, "iter.next", "iter.cur") && st.norm(e.Args[0]) == it {
				last = e
			}
		}
		end := offset.add(limit, 1)
		ok := none || last != nil && unIface(last.Res[0]).isNilConst()
		if list != nil {
			ok = ok || st.entails(toLin(mkLen(list)).add(limit, -1))
		}
		if sp.distinct {
			for _, k := range counters {
				ok = ok || st.entails(k.at.add(end, -1))
			}
		} else {
			if last != nil && last.Kind == "iter.cur" || last != nil && c.undelivered(ev, last) {
				pos = pos.add(lin{c: 1}, -1)
			}
			ok = ok || st.entails(pos.add(end, -1))
		}
		c.must(ok, "list-end", where, posOf(ev), st, "the listing may end before the page is full and the scan is exhausted")
	})
	c.must(pages > 0, "list-content", where, fn.Pos(), nil, "no listing is ever produced")
}

// undelivered: the last record obtained outside any loop was not used.
func (c *Checker) undelivered(ev []*Event, last *Event) bool { return last.Kind == "iter.next" }

// pageSeg checks one iteration (or the straight part) of a listing.
func (c *Checker) pageSeg(sp pageSpec, where string, s Seg, it *Term, home *Loop, list *Term, limit, offset lin, counters []pageCounter) {
	st := s.St
	var recs []*Event
	for _, e := range s.Ev {
		if kindIn(e, "iter.next", "iter.cur") && e.St.norm(e.Args[0]) == it && !unIface(e.Res[0]).isNilConst() {
			recs = append(recs, e)
		}
	}
	end := offset.add(limit, 1)
	if s.Step == nil {
		return // records obtained outside a loop are carried into it or end the page
	}
	// What was appended?
	var added []*Term
	if s.Loop == home {
		vars := append(append([]LoopVar{}, home.Phis...), home.Cells...)
		next := append(append([]*Term{}, s.Step.Next...), s.Step.NextC...)
		for j, p := range vars {
			if p.Sym != list {
				continue
			}
			nv := st.norm(next[j])
			for nv.isOp("append") {
				added = append(append([]*Term{}, nv.Args[1:]...), added...)
				nv = nv.Args[0]
			}
			if nv != list {
				c.must(false, "list-content", where, s.Loop.Pos, st, "the listing is replaced: %v", nv)
				return
			}
		}
	}
	used := map[*Event]bool{}
	for _, a := range added {
		p := st.norm(unIface(a))
		if derefType(p.T) == nil || p.K != KAddr {
			c.must(false, "list-content", where, s.Loop.Pos, st, "the listed element is not a private object: %v", p)
			continue
		}
		if s.Loop.Entry.heap.get(p.Obj) != nil {
			c.must(false, "list-content", where, s.Loop.Pos, st, "the listed elements share one object")
			continue
		}
		v := c.x.load(st, p)
		var from *Event
		for _, e := range recs {
			if !used[e] && containsTerm(c.expand(st, v), unIface(e.Res[0])) {
				from = e
				break
			}
		}
		if !c.must(from != nil, "list-content", where, s.Loop.Pos, st, "the listed element does not come from the scan: %v", v) {
			continue
		}
		used[from] = true
		rec := unIface(from.Res[0])
		sp.element(where, st, v, rec, from)
		if sp.distinct {
			ok, full := false, st.entails(limit.add(toLin(mkLen(list)), -1).add(lin{c: 1}, -1))
			for _, k := range counters {
				ok = ok || st.entails(k.at.add(offset, -1))
				full = full || k.exact && st.entails(end.add(k.at, -1).add(lin{c: 1}, -1))
			}
			c.must(ok && full, "list-page", where, from.Pos, st, "an element outside of the page is listed")
			continue
		}
		idx, ok := c.idxOf(from)
		lo := ok && st.entails(idx.add(offset, -1))
		for _, k := range counters {
			lo = lo || st.entails(k.at.add(offset, -1))
		}
		hi := ok && st.entails(end.add(idx, -1).add(lin{c: 1}, -1)) || st.entails(limit.add(toLin(mkLen(list)), -1).add(lin{c: 1}, -1))
		c.must(lo && hi, "list-page", where, from.Pos, st, "an element outside of the page is listed")
	}
	c.must(len(added) <= 1, "list-content", where, s.Loop.Pos, st, "several elements are listed at once")
	for _, e := range recs {
		rec := unIface(e.Res[0])
		if used[e] {
			continue
		}
		carried := false
		for _, nv := range s.Step.NextRec {
			carried = carried || unIface(nv) == rec
		}
		if carried {
			continue
		}
		if sp.distinct {
			// An old topic, or a new one before the page.
			ok := false
			for _, k := range counters {
				if st.isTrue(mkEq(mkField2(pristine(rec), "Topic"), k.prev)) || st.entails(offset.add(k.at, -1).add(lin{c: 1}, -1)) {
					ok = true
				}
			}
			c.must(ok, "list-page", where, e.Pos, st, "an element of the page is not listed")
			continue
		}
		idx, ok := c.idxOf(e)
		ok = ok && (st.entails(offset.add(idx, -1).add(lin{c: 1}, -1)) || st.entails(idx.add(end, -1)))
		for _, k := range counters {
			ok = ok || st.entails(offset.add(k.at, -1).add(lin{c: 1}, -1))
		}
		c.must(ok, "list-page", where, e.Pos, st, "an element of the page is not listed")
	}
}

// expand replaces an object by its contents for tracing.
func (c *Checker) expand(st *State, v *Term) *Term {
	if v.K == KStruct || v.K == KOp || v.K == KSym {
		return v
	}
	return v
}

// step is the change of a loop variable in one iteration.
func (c *Checker) step(s *Step, l *Loop, v *Term) lin {
	vars := append(append([]LoopVar{}, l.Phis...), l.Cells...)
	next := append(append([]*Term{}, s.Next...), s.NextC...)
	for j, p := range vars {
		if p.Sym == v {
			return toLin(s.St.norm(next[j])).add(toLin(v), -1)
		}
	}
	return lin{m: map[*Term]int64{mkOp("novar", nil): 1}}
}

// pageCounters finds the variables that number the elements of the scan. If they
// are its distinct topics, a variable remembers the topic of the previous record, and
// the counter moves exactly when the topic changes. A counter grows from zero, or
// falls from the offset until it is no longer positive.
func (c *Checker) pageCounters(where string, l *Loop, it *Term, offset lin, distinct bool) (out []pageCounter) {
	vars := append(append([]LoopVar{}, l.Phis...), l.Cells...)
	recOf := func(s *Step) *Term {
		for _, e := range s.Events {
			if kindIn(e, "iter.next", "iter.cur") && e.St.norm(e.Args[0]) == it && !unIface(e.Res[0]).isNilConst() {
				rec := unIface(e.Res[0])
				carried := false
				for _, nv := range s.NextRec {
					carried = carried || unIface(nv) == rec
				}
				if !carried {
					return rec
				}
			}
		}
		return nil
	}
	var prev *Term
	for j, p := range vars {
		if !distinct || p.Sym == nil || p.Sym.T == nil || !types.Identical(p.Sym.T.Underlying(), types.Typ[types.String]) {
			continue
		}
		if s, ok := p.Init.strConst(); !ok || s != "" {
			continue
		}
		ok := true
		for _, s := range l.Steps {
			next := append(append([]*Term{}, s.Next...), s.NextC...)
			rec := recOf(s)
			ok = ok && rec != nil && c.sameVal(&s.St, next[j], mkField2(pristine(rec), "Topic"))
		}
		if ok {
			prev = p.Sym
		}
	}
	if distinct && !c.must(prev != nil, "list-distinct", where, l.Pos, nil, "the listing does not track the topic of the previous record") {
		return nil
	}
	list := func(p LoopVar) bool { return p.Sym != nil && p.Sym.T != nil && isIntish(p.Sym.T) }
	for _, p := range vars {
		if !list(p) {
			continue
		}
		n, isC := p.Init.intConst()
		down := l.Entry.entails(toLin(p.Init).add(offset, -1)) && l.Entry.entails(offset.add(toLin(p.Init), -1))
		up := isC && n == 0 && distinct
		for _, s := range l.Steps {
			rec := recOf(s)
			if rec == nil {
				up, down = false, false
				break
			}
			same := 0
			if distinct {
				same = s.St.known(mkEq(mkField2(pristine(rec), "Topic"), prev))
			}
			d := c.step(s, l, p.Sym)
			k := toLin(p.Sym)
			if len(d.m) > 0 || same < 0 {
				up, down = false, false
				break
			}
			switch {
			case same == 1:
				up, down = up && d.c == 0, down && d.c == 0
			default:
				up = up && d.c == 1
				down = down && (d.c == -1 && s.St.entails(k.add(lin{c: 1}, -1)) || d.c == 0 && s.St.entails(k.scale(-1)))
			}
		}
		if up {
			out = append(out, pageCounter{toLin(p.Sym), true, prev})
		} else if down {
			out = append(out, pageCounter{offset.add(toLin(p.Sym), -1), false, prev})
		}
	}
	c.must(!distinct || len(out) > 0, "list-distinct", where, l.Pos, nil, "distinct topics are not numbered consistently")
	return
}
