package main

// Fallbacks and indexes of the MongoDB engine.

import (
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

var mongoMethods = []string{"Chore", "Poll", "Commit", "ListTopics", "DeleteTopics", "GetTopic", "DeleteTopic", "ListTasks", "InsertTasks", "UpsertTasks", "DeleteTasks", "GetTask", "InsertTask", "UpsertTask", "DeleteTask", "ListPromises", "DeletePromises", "GetPromise", "InsertPromise", "UpsertPromise", "DeletePromise"}

var mongoBranching = []string{"Poll", "Commit", "InsertPromise", "UpsertPromise", "UpsertTask", "UpsertTasks"}

// fallbackCodes: a sharded findAndModify without the shard key, and a change of the
// shard key without specifying it.
var fallbackCodes = []int64{61, 31025}

// hasCode evaluates whether the error is known to have the code.
func hasCode(st *State, er *Term, code int64) int {
	for _, l := range st.facts.list {
		t := l.t
		if t.K != KOp || !strings.HasSuffix(t.Op, "HasErrorCode") || len(t.Args) != 2 || !containsTerm(t.Args[0], st.norm(er)) {
			continue
		}
		if n, ok := t.Args[1].intConst(); ok && n == code {
			if l.truth {
				return 1
			}
			return 0
		}
	}
	return -1
}

func notServerError(st *State, er *Term) bool {
	for _, l := range st.facts.list {
		if l.t.K == KOp && (l.t.Op == "typeis:"+mgo+".ServerError" || l.t.Op == "errAs:"+mgo+".ServerError") && l.t.Args[0] == st.norm(er) {
			return !l.truth
		}
	}
	return false
}

func (c *Checker) mongoFallback() {
	flags := map[string]int{} // method -> field of the engine
	T := structOf(c.x.prog.typeNamed(pkgMongo, "Engine"))
	for _, name := range mongoBranching {
		where := mongoWhere(name)
		g := pristine(c.param(c.mongoFn(name), 0))
		fellBack := false
		c.mongoOutcomes(name, func(r *Ret, s Seg, class string, cs []*mcmd) {
			if s.Loop != nil {
				return
			}
			st := s.St
			var flag *Term
			mode := 0 // known sign of the flag: 1 enabled, -1 disabled
			auto := false
			var loads []*Term
			for _, e := range s.Ev {
				if e.Kind != "atomic.load" {
					continue
				}
				a := st.norm(e.Args[0])
				for i := 0; i < T.NumFields(); i++ {
					if a == st.norm(mkField(g, i)) {
						if old, ok := flags[name]; ok && old != i {
							c.must(false, "fallback-flag", where, e.Pos, st, "the operation depends on two different flags")
						}
						flags[name] = i
						flag = a
					}
				}
				loads = append(loads, e.Res[0])
			}
			if !c.must(flag != nil || len(cs) == 0, "fallback-flag", where, posOf(s.Ev), st, "the operation does not consult its fallback flag") || flag == nil {
				return
			}
			for i, l := range loads {
				pos := st.known(mkGe0(lin{c: -1}.add(toLin(l), 1)))
				neg := st.known(mkGe0(toLin(l)))
				if pos == 1 && i == 0 {
					mode = 1
				}
				if neg == 0 && mode == 0 {
					mode = -1
				}
				auto = auto || neg == 1 && pos != 1
			}
			// Attempts.
			fall := -1
			for i, m := range cs {
				if m.out != "err" {
					continue
				}
				known := false
				for _, k := range fallbackCodes {
					known = known || hasCode(st, m.err, k) == 1
				}
				later := i < len(cs)-1
				if later && fall < 0 && mode != 1 {
					c.must(known, "fallback-cause", where, m.e.Pos, st, "the operation is attempted again after an error that does not call for the fallback")
					c.must(mode >= 0 && auto, "fallback-disabled", where, m.e.Pos, st, "the operation is attempted again although fallbacks are disabled")
					fall = i
					continue
				}
				if later && mode == 1 {
					c.must(false, "fallback-cause", where, m.e.Pos, st, "the operation is attempted again after an error")
				}
				if !later && fall < 0 && mode == 0 {
					// The error is final: it must not be one that calls for the fallback.
					ok := notServerError(st, m.err)
					if !ok {
						ok = true
						for _, k := range fallbackCodes {
							ok = ok && hasCode(st, m.err, k) == 0
						}
					}
					c.must(ok, "fallback-taken", where, m.e.Pos, st, "an error that calls for the fallback is returned instead")
				}
			}
			fellBack = fellBack || fall >= 0
			stores := 0
			for _, e := range s.Ev {
				if !strings.HasPrefix(e.Kind, "atomic.") || e.Kind == "atomic.load" || len(e.Args) < 2 {
					continue
				}
				stores++
				n, ok := st.norm(e.Args[len(e.Args)-1]).intConst()
				c.must(ok && n > 0 && st.norm(e.Args[0]) == flag && fall >= 0, "fallback-sticky", where, e.Pos, st, "a fallback flag is changed although the fallback of this operation is not called for")
			}
			if fall >= 0 {
				c.must(stores > 0, "fallback-sticky", where, posOf(s.Ev), st, "the need for the fallback is not remembered")
			}
			// The fallback must not depend on what the preferred way could not do.
			for i, m := range cs {
				if !m.write() || !(mode == 1 || fall >= 0 && i > fall) {
					continue
				}
				switch m.op {
				case "FindOneAndUpdate":
					ok := m.fok && m.filter.get(c.tkey("ID")) != nil && m.filter.get(c.tkey("Topic")) != nil
					c.must(ok, "fallback-shard", where, m.e.Pos, st, "the fallback does not specify the identifier and topic of the task: %v", m.filter)
				case "BulkWrite":
					c.ok("fallback-shard")
				default:
					c.must(false, "fallback-shard", where, m.e.Pos, st, "the fallback uses %s", m.op)
				}
			}
		})
		c.must(fellBack, "fallback-taken", where, 0, nil, "the operation has no fallback")
	}
	c.atLeast("fallback-shard", 20)
	c.atLeast("fallback-cause", 6)
	c.atLeast("fallback-taken", 12)
	c.mongoFlags(flags)
}

// mongoFlags: the configuration of fallbacks is respected when the engine is made.
func (c *Checker) mongoFlags(flags map[string]int) {
	fn := c.x.prog.pkg(pkgMongo).Func("New")
	where := "mongodb.New"
	if fn == nil {
		c.must(false, "fallback-config", where, 0, nil, "entry point not found")
		return
	}
	cfg := pristine(c.param(fn, 0))
	rets := c.explore("internal/engine/mongodb.New", fn, nil)
	c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
		if class != "nil" {
			return
		}
		auto := st.known(option(st, cfg, "--mongodb-disable-auto-fallback"))
		poll := st.known(option(st, cfg, "--mongodb-disable-atomic-poll"))
		g := c.deref(st, r.res(0))
		for _, name := range mongoBranching {
			i, ok := flags[name]
			if !ok {
				continue
			}
			p := st.norm(mkField(g, i))
			if !c.must(st.notNil(p), "fallback-config", where+"."+name, 0, st, "the fallback flag of %s is missing", name) {
				continue
			}
			last := int64(0)
			for _, e := range ev {
				if strings.HasPrefix(e.Kind, "atomic.") && e.Kind != "atomic.load" && len(e.Args) > 1 && st.norm(e.Args[0]) == p {
					n, ok := st.norm(e.Args[len(e.Args)-1]).intConst()
					c.must(ok, "fallback-config", where, e.Pos, st, "a fallback flag is set to an unknown value")
					last = n
				}
			}
			if !c.must(auto >= 0 && (poll >= 0 || name != "Poll"), "fallback-config", where+"."+name, 0, st, "the configuration of fallbacks is ignored") {
				continue
			}
			ok = false
			switch {
			case name == "Poll" && poll == 1:
				ok = last > 0
			case auto == 1:
				ok = last < 0
			default:
				ok = last == 0
			}
			c.must(ok, "fallback-config", where+"."+name, 0, st, "the configuration of fallbacks is not respected for %s: flag %d", name, last)
		}
	})
	c.atLeast("fallback-config", 24)
}

// ---- indexes ----------------------------------------------------------------------

func (c *Checker) mongoIndexes() {
	where := mongoWhere("Open")
	cat := map[string]mindex{}
	n := 0
	docIndexes := documentedIndexes(c.x.prog.dir)
	c.must(len(docIndexes) >= 3, "index-documented", "README.md", 0, nil, "the documentation does not list the indexes")
	c.mongoOutcomes("Open", func(r *Ret, s Seg, class string, cs []*mcmd) {
		if class != "nil" || s.Loop != nil {
			return
		}
		dis := s.St.known(c.openConfig(s.St, "--mongodb-disable-index-creation"))
		found := map[string]string{}
		sigs := map[string]string{}
		c.indexes(s, func(ix mindex, q Seg) {
			sg := ix.sig(c)
			if ix.name == "" {
				var ks []string
				for _, e := range ix.keys {
					ks = append(ks, e.key+"_"+constStr(c.bval(&ix.st, e.val)))
				}
				ix.name = strings.Join(ks, "_")
			}
			c.must(ix.name != "_id_" && (found[ix.name] == "" || found[ix.name] == sg), "index-names", where, ix.m.e.Pos, q.St, "two indexes have the same name: %s", ix.name)
			if o := sigs[sg]; o != "" && o != ix.name {
				c.must(false, "index-names", where, ix.m.e.Pos, q.St, "the same index is created twice: %s and %s", o, ix.name)
			}
			c.must(len(ix.other) == 0, "index-plain", where, ix.m.e.Pos, q.St, "index %s restricts what can be stored or found: %v", ix.name, ix.other)
			found[ix.name], sigs[sg] = sg, ix.name
			cat[ix.name] = ix
		})
		// The creation runs to its end before the engine is used.
		for i, e := range s.Ev {
			if e.Kind != "spawn" || len(e.Sub) == 0 {
				continue
			}
			ok := false
			for _, w := range s.Ev[i:] {
				if w.Kind == "group.wait" && e.Name == "group.go" && len(e.Args) > 1 && s.St.norm(w.Args[0]) == s.St.norm(e.Args[1]) {
					ok = s.St.isNil(opErr(w))
				}
			}
			c.must(ok, "index-wait", where, e.Pos, s.St, "the engine is opened without waiting for the creation of indexes, or ignoring its failure")
		}
		if len(found) > 0 {
			n++
			for _, want := range docIndexes {
				c.must(sigs[want] != "", "index-documented", where+" "+want, posOf(s.Ev), s.St, "the documented index %q is not created", want)
			}
		}
		c.must(len(found) > 0 || dis == 1, "index-create", where, posOf(s.Ev), s.St, "indexes are not created although that is not disabled")
		c.must(len(found) == 0 || dis == 0, "index-create", where, posOf(s.Ev), s.St, "indexes are created although that is disabled")
		for _, e := range s.Ev {
			if e.Kind == "call" && strings.HasSuffix(e.Name, "Client).Connect") {
				c.must(s.St.isNil(opErr(e)), "index-create", where, e.Pos, s.St, "the failure to connect is ignored")
			}
		}
	})
	c.must(n > 0, "index-create", where, 0, nil, "no indexes are created")
	for _, name := range mongoMethods {
		name := name
		where := mongoWhere(name)
		seen := map[string]bool{}
		c.mongoOutcomes(name, func(r *Ret, s Seg, class string, cs []*mcmd) {
			for _, m := range cs {
				if h := m.opt("Hint"); h != nil {
					c.hint(where, m, &m.st, h, m.filter, m.fok, cat)
					seen[m.op] = true
				}
				if m.op == "BulkWrite" {
					c.bulkHints(where, s, m, cat)
				}
			}
		})
	}
	c.atLeast("index-hint", 40)
}

// documentedIndexes reads the table of indexes in the manual.
func documentedIndexes(dir string) (out []string) {
	b, _ := os.ReadFile(filepath.Join(dir, "README.md"))
	pair := regexp.MustCompile(`"([^"]+)": *("[^"]*"|-?[0-9]+)`)
	for _, m := range regexp.MustCompile("(?m)^\\| `\\{([^`]*)\\}` \\| (-|`\\{([^`]*)\\}`) \\|").FindAllStringSubmatch(string(b), -1) {
		list := func(s, eq string) string {
			var l []string
			for _, p := range pair.FindAllStringSubmatch(s, -1) {
				l = append(l, p[1]+eq+strings.Trim(p[2], `"`))
			}
			return strings.Join(l, ",")
		}
		out = append(out, list(m[1], ":")+" where "+list(m[3], "="))
	}
	return out
}

func (c *Checker) bulkHints(where string, s Seg, m *mcmd, cat map[string]mindex) {
	look := func(st *State, v *Term) {
		v = unIface(st.norm(v))
		if v.K != KAddr {
			return
		}
		o := c.deref(st, v)
		h := c.field(st, o, "Hint")
		if h == nil || h.isOp("nofield") || h.K == KNil {
			return
		}
		d, ok := c.doc(st, c.field(st, o, "Filter"))
		c.hint(where, m, st, c.bval(st, h), d, ok, cat)
	}
	a := m.st.norm(m.e.Args[2])
	if el, ok := c.x.elems(&m.st, a); ok {
		for _, v := range el {
			look(&m.st, v)
		}
		return
	}
	for _, e := range s.Ev {
		if e.Loop == nil {
			continue
		}
		for _, st := range e.Loop.Steps {
			for _, x := range st.Events {
				if x.Kind == "storeelem" && x.Args[0] == a {
					look(&st.St, x.Args[2])
				}
			}
			for _, v := range append(append([]*Term{}, st.Next...), st.NextC...) {
				if v = st.St.norm(v); v.isOp("append") {
					for _, x := range v.Args[1:] {
						look(&st.St, x)
					}
				}
			}
		}
	}
}

// hint: the index exists, contains every document the filter selects, and begins
// with a field the filter constrains.
func (c *Checker) hint(where string, m *mcmd, st *State, h *Term, filter bdoc, fok bool, cat map[string]mindex) {
	name, ok := h.strConst()
	if d, isDoc := c.doc(st, h); !ok && isDoc {
		// By key pattern.
		var ks []string
		for _, e := range d {
			ks = append(ks, e.key+":"+constStr(c.bval(st, e.val)))
		}
		pat := strings.Join(ks, ",")
		if pat == "_id:1" {
			name, ok = "_id_", true
		}
		for n, ix := range cat {
			if strings.HasPrefix(ix.sig(c), pat+" where ") {
				name, ok = n, true
			}
		}
	}
	if !c.must(ok, "index-hint", where, m.e.Pos, st, "the hinted index is not known: %v", h) {
		return
	}
	lead := c.tkey("ID")
	if name != "_id_" {
		ix, ok := cat[name]
		if !c.must(ok, "index-hint", where, m.e.Pos, st, "the hinted index %s is never created: the command always fails", name) {
			return
		}
		for _, p := range ix.partial {
			v := filter.get(p.key)
			same := fok && v != nil && c.sameVal(st, c.bval(st, v), c.bval(&ix.st, p.val))
			c.must(same, "index-hint", where, m.e.Pos, st, "the hinted index %s covers only documents with %s=%v, which the filter does not require", name, p.key, c.bval(&ix.st, p.val))
		}
		if len(ix.keys) > 0 {
			lead = ix.keys[0].key
		}
	}
	if m.op != "Aggregate" && fok && len(filter) > 0 {
		c.must(filter.get(lead) != nil, "index-hint", where, m.e.Pos, st, "the hinted index %s begins with %s, which the filter does not constrain", name, lead)
	} else {
		c.ok("index-hint")
	}
}

// mongoConfig: the engine uses the deployment, database and collection it is given,
// and embedded documents decode to maps, so that they encode as JSON objects.
func (c *Checker) mongoConfig() {
	fn := c.x.prog.pkg(pkgMongo).Func("New")
	where := "mongodb.New"
	if fn == nil {
		c.must(false, "mongo-config", where, 0, nil, "entry point not found")
		return
	}
	cfg := pristine(c.param(fn, 0))
	rets := c.explore("internal/engine/mongodb.New", fn, nil)
	c.eachOutcome(where, rets, func(r *Ret, st *State, class string, ev []*Event) {
		if class != "nil" {
			return
		}
		call := func(suffix string) (out []*Event) {
			for _, e := range ev {
				if e.Kind == "call" && strings.HasSuffix(e.Name, suffix) {
					out = append(out, e)
				}
			}
			return
		}
		// The builders return their receiver.
		root := func(t *Term) *Term {
			for again := true; again; {
				again = false
				t = st.norm(t)
				for _, e := range ev {
					if e.Kind == "call" && len(e.Res) == 1 && st.norm(e.Res[0]) == t && len(e.Args) > 0 && (strings.Contains(e.Name, ".ClientOptions)") || strings.Contains(e.Name, ".RegistryBuilder)")) {
						t, again = e.Args[0], true
						break
					}
				}
			}
			return t
		}
		var client *Term
		for _, e := range call("mongo.NewClient") {
			client = e.Res[0]
			c.must(st.isNil(opErr(e)), "mongo-config", where, e.Pos, st, "a failure to create the client is ignored")
			var used []*Term
			if el, ok := c.x.elems(&e.St, e.Args[0]); ok {
				for _, o := range el {
					used = append(used, root(o))
				}
			}
			has := func(o *Term) bool {
				for _, u := range used {
					if u == root(o) {
						return true
					}
				}
				return false
			}
			uri, reg := false, false
			for _, a := range call("ClientOptions).ApplyURI") {
				uri = has(a.Args[0]) && c.bval(&a.St, a.Args[1]) == c.bval(st, option(st, cfg, "--mongodb-uri"))
			}
			c.must(uri, "mongo-config", where, e.Pos, st, "the client does not connect to the configured deployment")
			for _, a := range call("ClientOptions).SetRegistry") {
				if !has(a.Args[0]) {
					continue
				}
				for _, m := range call("RegistryBuilder).RegisterTypeMapEntry") {
					k, ok := st.norm(m.Args[1]).intConst()
					t := unIface(st.norm(m.Args[2]))
					if !ok || k != 3 || root(m.Args[0]) != root(a.Args[1]) || t.K != KOp || len(t.Args) != 1 {
						continue
					}
					v := unIface(t.Args[0])
					mt, ok := v.T.Underlying().(*types.Map)
					if ok && v.K != KOp {
						b, ok := mt.Key().Underlying().(*types.Basic)
						reg = ok && b.Kind() == types.String && types.IsInterface(mt.Elem())
					}
				}
			}
			c.must(reg, "mongo-config", where, e.Pos, st, "embedded documents do not decode to maps: payloads change their shape")
		}
		g := c.deref(st, r.res(0))
		T := structOf(c.x.prog.typeNamed(pkgMongo, "Engine"))
		field := func(typ string) *Term {
			for i := 0; i < T.NumFields(); i++ {
				if typeKey(T.Field(i).Type()) == "*"+mgo+"."+typ {
					return st.norm(mkField(g, i))
				}
			}
			return nil
		}
		ok := client != nil && field("Client") == st.norm(client)
		c.must(ok, "mongo-config", where, posOf(ev), st, "the engine does not use the client it configured")
		var db *Term
		for _, e := range call("Client).Database") {
			if client != nil && st.norm(e.Args[0]) == st.norm(client) && c.bval(&e.St, e.Args[1]) == c.bval(st, option(st, cfg, "--mongodb-database")) {
				db = st.norm(e.Res[0])
			}
		}
		c.must(db != nil && (field("Database") == nil || field("Database") == db), "mongo-config", where, posOf(ev), st, "the engine does not use the configured database")
		col := false
		for _, e := range call("Database).Collection") {
			col = col || db != nil && st.norm(e.Args[0]) == db && c.bval(&e.St, e.Args[1]) == c.bval(st, option(st, cfg, "--mongodb-collection")) && field("Collection") == st.norm(e.Res[0])
		}
		c.must(col, "mongo-config", where, posOf(ev), st, "the engine does not use the configured collection")
	})
	c.atLeast("mongo-config", 10)
}
