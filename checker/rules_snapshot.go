package main

// Rules over the snapshot of the MemDB engine: saving and loading.

import (
	"go/types"
	"strings"
)

func isFileWrite(e *Event) bool { return kindIn(e, "os.open", "os.writefile") }

// openedForWriting: the call may create or modify a file.
func openedForWriting(st *State, e *Event) bool {
	switch {
	case e.Kind == "os.writefile":
		return true
	case strings.HasSuffix(e.Name, ".OpenFile"):
		n, ok := st.norm(e.Args[1]).intConst()
		return !ok || n&3 != 0
	}
	return e.Kind == "os.open" && !strings.HasSuffix(e.Name, ".Open")
}

func (c *Checker) engineField(st *State, g *Term, pred func(i int, v *Term) bool) *Term {
	s := *st
	eng := c.x.load(&s, g)
	es := structOf(eng.T)
	for i := 0; es != nil && i < es.NumFields(); i++ {
		if v := mkField(eng, i); pred(i, v) {
			return st.norm(v)
		}
	}
	return nil
}

func (c *Checker) snapshotSave() {
	c.saveRules("Close", false)
	c.saveRules("Chore", true)
	for _, name := range append(append([]string{}, memdbMutators...), memdbReaders...) {
		if name == "Chore" {
			continue
		}
		where := "memdb.Engine." + name
		for i, rets := 0, c.memdb(name); i < len(rets); i++ {
			for _, e := range rets[i].St.events() {
				c.must(!kindIn(e, "os.open", "os.writefile", "os.rename", "os.remove", "os.truncate"), "save-scope", where, e.Pos, &rets[i].St, "an operation other than a snapshot accesses files")
			}
		}
		c.ok("save-scope")
	}
	for _, t := range []string{"map[string]interface{}", "[]interface{}"} {
		ok := c.x.gobTypes[t] || c.x.gobTypes[strings.ReplaceAll(t, "interface{}", "any")]
		c.must(ok, "save-encodable", "gob.Register "+t, 0, nil, "payloads of type %s cannot be encoded in a snapshot: the type is not registered", t)
	}
}

func (c *Checker) saveRules(name string, interval bool) {
	where := "memdb.Engine." + name
	fn := c.memdbFn(name)
	rets := c.memdb(name)
	if fn == nil {
		return
	}
	g := c.param(fn, 0)
	target := c.configField(&c.x.base, "--memdb-snapshot-path")
	saves := 0
	seen := map[*Step]bool{}
	c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
		target := st.norm(target)
		enabled := st.known(mkEq(target, mkStr(""))) != 1
		if name == "Chore" {
			done := false
			for _, e := range ev {
				done = done || e.Kind == "txn.commit"
			}
			if !done {
				return
			}
		}
		var file, path *Term
		var opened *Event
		var tried *Term // a temporary file that could not be created
		saved := false
		synced, closed := false, false
		for _, e := range ev {
			switch {
			case isFileWrite(e) && openedForWriting(st, e):
				if e.Kind == "os.writefile" {
					c.must(false, "save-temp", where, e.Pos, st, "the snapshot is written in a way that cannot be verified")
					continue
				}
				if opFailed(st, e) {
					if p := st.norm(e.Args[0]); c.besides(st, p, target) {
						tried = p
					}
					continue
				}
				c.must(file == nil, "save-temp", where, e.Pos, st, "several files are written")
				file, opened = st.norm(e.Res[0]), e
				path = attr(st.heap.get(file.Obj), "path")
				c.must(c.besides(st, path, target), "save-temp", where, e.Pos, st, "a snapshot is not written to a temporary file next to the previous one: %v", path)
				c.must(enabled, "save-scope", where, e.Pos, st, "a snapshot is written although none is configured")
			case e.Kind == "bufio.flush", e.Kind == "file.write":
				synced = false
			case e.Kind == "gob.encode":
				synced = false
			case e.Loop != nil:
				eachStep([]*Event{e}, func(l *Loop, s *Step) {
					for _, k := range s.Events {
						if kindIn(k, "gob.encode", "file.write") {
							synced = false
						}
					}
				})
			case e.Kind == "file.sync":
				if file != nil && st.norm(e.Args[0]) == file && !opFailed(st, e) {
					synced = !closed
				}
			case e.Kind == "file.close":
				if file != nil && st.norm(e.Args[0]) == file {
					closed = true
				}
			case e.Kind == "os.truncate":
				c.must(false, "save-temp", where, e.Pos, st, "a file is truncated")
			case e.Kind == "os.rename":
				src, dst := st.norm(e.Args[0]), st.norm(e.Args[1])
				c.must(file != nil && src == st.norm(path) && dst == target, "save-rename", where, e.Pos, st, "a file other than the completed snapshot is moved over the previous one")
				c.must(synced, "save-sync", where, e.Pos, st, "the previous snapshot is replaced before the new one is known to be on disk")
				c.encodedAll(where, r, st, ev, e, file)
				if !opFailed(st, e) {
					saved = true
				} else {
					c.must(class != "nil", "save-error", where, e.Pos, st, "a failure to replace the snapshot is reported as success")
				}
			case e.Kind == "os.remove":
				p := st.norm(e.Args[0])
				c.must(path != nil && p == st.norm(path) && !saved || p == tried, "save-remove", where, e.Pos, st, "a file other than the incomplete snapshot is removed")
			}
		}
		if saved {
			saves++
		}
		if file != nil {
			c.must(closed, "save-close", where, opened.Pos, st, "the snapshot file is left open")
			if !saved {
				removed := false
				for _, e := range ev {
					removed = removed || e.Kind == "os.remove" && st.norm(e.Args[0]) == st.norm(path)
				}
				c.must(removed, "save-cleanup", where, opened.Pos, st, "an incomplete snapshot file is left behind")
				c.must(class != "nil", "save-error", where, opened.Pos, st, "a failure to write the snapshot is reported as success")
			}
		}
		if class == "nil" && enabled && !saved {
			ok := false
			if interval {
				// Not due yet.
				iv := c.configField(st, "--memdb-snapshot-interval")
				c.engineField(st, g, func(_ int, v *Term) bool {
					if isTime(v.T) {
						for _, n := range c.nowEvents(ev) {
							if st.isTrue(mkGe0(toLin(stripTime(v)).add(toLin(iv), 1).add(toLin(n), -1))) {
								ok = true
							}
						}
					}
					return false
				})
			}
			c.must(ok, "save-done", where, posOf(ev), st, "the call succeeds without having saved a snapshot")
		}
		if interval && enabled {
			s0 := c.x.base
			c.engineField(st, g, func(i int, v *Term) bool {
				if !isTime(v.T) {
					return false
				}
				v = st.norm(v)
				v0 := mkField(c.x.load(&s0, g), i)
				if saved {
					c.must(c.isNow(ev)(st, v, nil) == "", "save-interval", where, posOf(ev), st, "the time of the last snapshot is not recorded")
				} else {
					c.must(stripTime(v) == stripTime(st.norm(v0)), "save-interval", where, posOf(ev), st, "the time of the last snapshot is recorded although none was saved")
				}
				return false
			})
		}
		// Every record encoded is a stored one.
		for _, s := range segs(r, seen) {
			for _, e := range s.Ev {
				if e.Kind == "gob.encode" {
					c.encodes(where, s, e, true)
					if s.Step != nil {
						c.must(!opFailed(s.St, e), "save-error", where, e.Pos, s.St, "a record that cannot be encoded is skipped")
					} else if opFailed(s.St, e) {
						c.must(class != "nil" && !saved, "save-error", where, e.Pos, s.St, "a record that cannot be encoded is skipped")
					}
				}
			}
		}
	})
	c.must(saves > 0, "save-done", where, fn.Pos(), nil, "no snapshot is ever saved")
	n := c.scan(scanSpec{rule: "save-all", where: where, ok: func(ri *RecInfo, st *State) string {
		if ri.Index == nil || ri.Index.AllowMissing || len(ri.Args) != 0 || ri.Mode != "get" && ri.Mode != "lowerbound" {
			return "not a scan of all records"
		}
		return ""
	}, done: func(s Seg, rec *Term) bool {
		for _, e := range s.Ev {
			if e.Kind == "gob.encode" && c.encodes(where, s, e, false) == rec && !opFailed(s.St, e) {
				return true
			}
		}
		return false
	}}, rets, func(st *State, r *Ret) bool { return renamed(st) })
	c.must(n > 0, "save-all", where, fn.Pos(), nil, "the records are not enumerated for the snapshot")
}

func renamed(st *State) bool {
	for _, e := range st.events() {
		if e.Kind == "os.rename" {
			return true
		}
	}
	return false
}

// besides: a different file in the directory of the target.
func (c *Checker) besides(st *State, path, target *Term) bool {
	if path == nil {
		return false
	}
	path = st.norm(path)
	if path.isOp("tempfile") {
		d := path.Args[0]
		return d.isOp("fn:path/filepath.Dir") && st.norm(d.Args[0]) == target
	}
	if path.K == KConcat && st.norm(path.Args[0]) == target {
		for _, p := range path.Args[1:] {
			if s, ok := p.strConst(); ok && strings.Contains(s, "/") {
				return false
			}
		}
		return st.entails(toLin(mkLen(path)).add(toLin(mkLen(target)), -1).add(lin{c: 1}, -1))
	}
	return false
}

// encodedAll: the snapshot was read from one consistent view.
func (c *Checker) encodedAll(where string, r *Ret, st *State, ev []*Event, rename *Event, file *Term) {
	var txn *Term
	fine := true
	pos := rename.Pos
	var walk func(ev []*Event)
	flushed := true
	walk = func(ev []*Event) {
		for _, e := range ev {
			if e == rename {
				return
			}
			switch e.Kind {
			case "txn.get", "txn.lowerbound":
				t := st.norm(e.Args[0])
				if ri := c.iterInfo(st, st.norm(unIface(e.Res[0]))); ri != nil && ri.Index != nil && !ri.Index.AllowMissing && len(ri.Args) == 0 {
					if txn != nil && txn != t {
						fine = false
					}
					txn = t
				}
			case "gob.encode":
				w := e.St.norm(e.Args[0])
				fine = fine && w.isOp("nonnil:gob.enc") && writesTo(w.Args[0], file)
				if fine && buffered(w.Args[0]) {
					flushed = false
				}
			case "bufio.flush":
				flushed = !opFailed(st, e)
			}
			if e.Loop != nil {
				for _, s := range e.Loop.Steps {
					walk(s.Events)
				}
			}
		}
	}
	walk(ev)
	c.must(fine && txn != nil, "save-consistent", where, pos, st, "the snapshot is not taken from one consistent view of the database, or written elsewhere")
	c.must(flushed, "save-consistent", where, pos, st, "the snapshot is not completely written when it replaces the previous one")
}

func writesTo(w, file *Term) bool {
	w = unIface(w)
	return w == file || w.isOp("nonnil:bufio") && writesTo(w.Args[0], file)
}

func buffered(w *Term) bool { return unIface(w).isOp("nonnil:bufio") }

// encodes returns the stored record an encoding corresponds to.
func (c *Checker) encodes(where string, s Seg, e *Event, check bool) *Term {
	st := e.St
	p := st.norm(unIface(e.Args[1]))
	if derefType(p.T) == nil || p.K == KNil {
		if check {
			c.must(false, "save-record", where, e.Pos, &st, "the encoded object is not a task")
		}
		return nil
	}
	v := c.x.load(&st, p)
	if typeKey(v.T) != modPath+".Task" && typeKey(derefType(p.T)) != modPath+".Task" {
		if check {
			c.must(false, "save-record", where, e.Pos, &st, "the encoded object is not a task")
		}
		return nil
	}
	base := c.baseOf(&st, v)
	if base == nil || c.x.recs[base] == nil {
		if check {
			c.must(false, "save-record", where, e.Pos, &st, "the encoded task is not a stored record")
		}
		return nil
	}
	if !check {
		return base
	}
	T := structOf(c.x.taskType())
	for i := 0; i < T.NumFields(); i++ {
		fv, bv := st.norm(mkField(v, i)), mkField(pristine(base), i)
		n := T.Field(i).Name()
		c.must(c.sameVal(&st, fv, bv), "save-record", where+"."+n, e.Pos, &st, "field %s of the encoded task differs from the stored one", n)
		if d := derefType(fv.T); d != nil && isTime(d) && !st.isNil(fv) {
			t := st.norm(c.deref(&st, fv))
			c.must(t.isOp("time.UTC") || t.isOp("time.Local"), "save-encodable", where+"."+n, e.Pos, &st, "timestamp %s is encoded with its original zone offset, which may be unencodable", n)
		}
	}
	return base
}

// ---- loading -----------------------------------------------------------------------

func (c *Checker) snapshotLoad() {
	where := "memdb.Engine.Open"
	fn := c.memdbFn("Open")
	rets := c.memdb("Open")
	if fn == nil {
		return
	}
	g := c.param(fn, 0)
	eof := errGlobal("io.EOF")
	nex := errGlobal("io/fs.ErrNotExist")
	is := func(st *State, e, t *Term) bool {
		return st.norm(e) == t || st.isTrue(mkOp("errIs", tBool, st.norm(e), t))
	}
	loads := 0
	seen := map[*Step]bool{}
	c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
		target := c.configField(st, "--memdb-snapshot-path")
		var open, lastDecode, commit *Event
		var db *Term
		dbAt := func(i int, v *Term) bool { return typeKey(derefType(v.T)) == hMemdb+".MemDB" }
		cur := c.engineField(st, g, dbAt)
		s0 := c.x.base
		old := c.engineField(&s0, g, dbAt)
		for _, e := range ev {
			switch {
			case e.Kind == "call" && strings.HasSuffix(e.Name, "go-memdb.NewMemDB"):
				db = st.norm(e.Res[0])
			case e.Kind == "os.open":
				open = e
				c.must(st.norm(e.Args[0]) == st.norm(target) && !openedForWriting(st, e), "load-file", where, e.Pos, st, "another file than the snapshot is opened, or for writing")
			case kindIn(e, "os.remove", "os.rename", "os.writefile", "os.truncate"):
				c.must(false, "load-file", where, e.Pos, st, "loading modifies files")
			case e.Kind == "gob.decode":
				lastDecode = e
			case e.Kind == "txn.commit":
				commit = e
			}
		}
		if open != nil && !opFailed(st, open) {
			closed := false
			for _, e := range ev {
				closed = closed || e.Kind == "file.close" && st.norm(e.Args[0]) == st.norm(open.Res[0])
			}
			c.must(closed, "load-close", where, open.Pos, st, "the snapshot file stays open")
		}
		if class == "nil" {
			c.must(db != nil && cur == db, "load-visible", where, posOf(ev), st, "the engine is not backed by the database that was loaded")
			if st.known(mkEq(st.norm(target), mkStr(""))) == 1 {
				c.must(open == nil, "load-file", where, posOf(ev), st, "a file is read although no snapshot is configured")
				return
			}
			if !c.must(open != nil, "load-file", where, posOf(ev), st, "the snapshot is not read") {
				return
			}
			if opFailed(st, open) {
				c.must(is(st, opErr(open), nex), "load-error", where, open.Pos, st, "a snapshot that cannot be opened is treated as absent")
				return
			}
			loads++
			c.must(lastDecode != nil && is(st, opErr(lastDecode), eof), "load-error", where, open.Pos, st, "loading succeeds although the end of the snapshot was not reached")
			c.must(commit != nil, "load-commit", where, open.Pos, st, "the loaded tasks are not committed")
			for _, e := range ev {
				if isTxnOp(e) && opFailed(st, e) {
					c.must(false, "load-error", where, e.Pos, st, "loading succeeds although a task could not be stored")
				}
				if e.Kind == "txn.begin" {
					c.must(st.norm(e.Args[0]) == db, "load-visible", where, e.Pos, st, "tasks are loaded into another database")
				}
			}
		} else {
			c.must(anyFailed(st, ev), "load-error", where, posOf(ev), st, "an error is returned although no operation failed")
			c.must(cur == old, "load-visible", where, posOf(ev), st, "a partially loaded database becomes visible")
		}
		for _, s := range segs(r, seen) {
			for i, e := range s.Ev {
				if e.Kind != "gob.decode" {
					continue
				}
				if opFailed(s.St, e) {
					if s.Step != nil {
						c.must(false, "load-error", where, e.Pos, s.St, "a record that cannot be decoded is skipped")
					}
					continue
				}
				p := e.St.norm(unIface(e.Args[1]))
				stored := 0
				for _, k := range s.Ev[i:] {
					if k.Kind == "txn.insert" && k.St.norm(unIface(k.Args[2])) == p {
						stored++
						c.must(s.Step == nil || s.St.isNil(opErr(k)), "load-error", where, k.Pos, s.St, "loading continues although a task may not have been stored")
						s2 := k.St
						c.must(c.x.load(&s2, p) == c.x.load(&e.St, p) || c.afterDecode(s.St, e, k, p), "load-record", where, k.Pos, s.St, "a loaded task is changed before it is stored")
					}
				}
				c.must(stored == 1, "load-all", where, e.Pos, s.St, "a decoded task is not stored exactly once")
				if s.Loop != nil {
					c.must(p.K == KAddr && s.Loop.Entry.heap.get(p.Obj) == nil, "load-fresh", where, e.Pos, s.St, "tasks are decoded into a shared object: their fields mix")
				}
			}
		}
	})
	c.must(loads > 0, "load-all", where, fn.Pos(), nil, "a snapshot is never loaded")
}

// afterDecode: the object still holds what was decoded (the event's own state is
// the one before decoding).
func (c *Checker) afterDecode(st *State, dec, ins *Event, p *Term) bool {
	if p.K != KAddr {
		return false
	}
	o := ins.St.heap.get(p.Obj)
	if o == nil {
		return false
	}
	v := o.Val
	ok := true
	var rec func(t *Term)
	T := structOf(c.x.taskType())
	rec = func(t *Term) {
		if t.K == KStruct {
			for i := 0; i < T.NumFields(); i++ {
				f := ins.St.norm(mkField(t, i))
				if f.K == KSym && !strings.HasPrefix(f.Op, "in:decoded") {
					ok = false
				} else if f.K != KSym && !(f.isOp("field") && containsPrefix(f, "in:decoded")) {
					ok = false
				}
			}
			return
		}
		if !containsPrefix(t, "in:decoded") {
			ok = false
		}
	}
	rec(v)
	return ok
}

func containsPrefix(t *Term, p string) bool {
	if t.K == KSym && strings.HasPrefix(t.Op, p) {
		return true
	}
	for _, a := range t.Args {
		if containsPrefix(a, p) {
			return true
		}
	}
	return false
}

var tBool = types.Typ[types.Bool]
