package main

// Models of go-memdb, the MongoDB driver, files and encoders.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// IndexPart describes one component of a MemDB index, derived from the schema
// built by the code and from the indexer implementations.
type IndexPart struct {
	Kind   string // "string", "state", "time"
	Field  int    // field of the record
	Name   string
	Filter *Term
}

type IndexInfo struct {
	Name         string
	Unique       bool
	AllowMissing bool
	Parts        []IndexPart
	Bad          string
}

type Schema struct {
	Tables map[string]map[string]*IndexInfo
}

func (x *Exec) taskType() types.Type { return x.prog.typeNamed(modPath, "Task") }

func fieldIdx(T types.Type, name string) int {
	if s := structOf(T); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}

func (x *Exec) recField(st *State, rec *Term, name string) *Term {
	v := x.load(st, rec)
	return mkField(v, fieldIdx(derefType(rec.T), name))
}

func attr(o *Obj, k string) *Term { return o.get(mkStr(k)) }

func (x *Exec) setAttr(st *State, p *Term, k string, v *Term) {
	o := x.cell(st, p)
	st.heap = st.heap.set(o.ID, o.with(mkStr(k), v))
}

func (x *Exec) txnVer(st *State, p *Term) *Term {
	if v := attr(x.cell(st, p), "ver"); v != nil {
		return v
	}
	return mkInt(0)
}

// index arguments of First/Get/LowerBound: (txn, table, index, args...)
func (c *CallCtx) indexArgs() (idx *IndexInfo, args []*Term, bad string) {
	el, ok := c.x.elems(&c.st, c.norm(3))
	if !ok {
		return nil, nil, "index arguments are not statically known"
	}
	for _, a := range el {
		a = c.st.facts.norm(a)
		args = append(args, a)
	}
	t, ok1 := c.norm(1).strConst()
	n, ok2 := c.norm(2).strConst()
	if !ok1 || !ok2 {
		return nil, args, "table or index name is not a constant"
	}
	if c.x.schema == nil {
		return nil, args, ""
	}
	tb := c.x.schema.Tables[t]
	if tb == nil {
		return nil, args, "unknown table " + t
	}
	ix := tb[n]
	if b := strings.TrimSuffix(n, "_prefix"); ix == nil && b != n && tb[b] != nil && len(args) > 0 && len(args) <= len(tb[b].Parts) {
		// A prefix lookup: valid, but never an exact one.
		return nil, args, ""
	}
	if ix == nil {
		return nil, args, "unknown index " + n
	}
	return ix, args, ix.check(args)
}

func unIface(t *Term) *Term {
	if t.K == KIface {
		return t.Args[0]
	}
	return t
}

func (ix *IndexInfo) check(args []*Term) string {
	if len(args) == 0 {
		return ""
	}
	if len(args) != len(ix.Parts) {
		return fmt.Sprintf("index %s needs %d arguments, got %d", ix.Name, len(ix.Parts), len(args))
	}
	for i, p := range ix.Parts {
		a := args[i]
		if a.K != KIface {
			return "argument of unknown type for index " + ix.Name
		}
		switch p.Kind {
		case "string":
			if !isStringy(a.T) || typeKey(types.Unalias(a.T)) != "string" {
				return fmt.Sprintf("argument %d of index %s must be a string", i, ix.Name)
			}
		case "state":
			if unIface(a) != p.Filter {
				return fmt.Sprintf("argument %d of index %s does not match the state of the partial index", i, ix.Name)
			}
		case "time":
			if !isTime(a.T) {
				return fmt.Sprintf("argument %d of index %s must be a time", i, ix.Name)
			}
		}
	}
	return ""
}

// newRec creates a record returned by the database, constrained by the index it
// was found in.
func (x *Exec) newRec(st *State, ix *IndexInfo, args []*Term, exact bool) *Term {
	T := types.NewPointer(x.taskType())
	r := x.sym("rec", T)
	st.assume(mkIsNil(r), false)
	if ix != nil {
		v := x.load(st, r)
		for i, p := range ix.Parts {
			f := mkField(v, p.Field)
			switch p.Kind {
			case "state":
				st.assume(mkEq(f, p.Filter), true)
			case "time":
				if _, isPtr := f.T.Underlying().(*types.Pointer); isPtr {
					st.assume(mkIsNil(f), false)
				}
			case "string":
				if exact && i < len(args) {
					st.assume(mkEq(f, unIface(args[i])), true)
				}
			}
		}
	}
	return r
}

func registerMemdb() {
	const T = "(*" + hMemdb + ".Txn)."
	const DB = "(*" + hMemdb + ".MemDB)."
	models[DB+"Txn"] = func(c *CallCtx) []Ret {
		p := c.x.newObj(&c.st, derefType(c.resT(0)), mkOp("txn", nil), "txn", c.pos)
		c.x.setAttr(&c.st, p, "db", c.norm(0))
		c.x.setAttr(&c.st, p, "write", c.norm(1))
		c.x.setAttr(&c.st, p, "status", mkStr("open"))
		c.x.setAttr(&c.st, p, "ver", mkInt(0))
		if c.norm(1) != mkBool(false) {
			c.x.acquire(&c.st, mkOp("writer", nil, c.norm(0)), false, c.pos)
		}
		e := c.event("txn.begin", c.name)
		e.Res = []*Term{p}
		return c.one(p)
	}
	models[DB+"Snapshot"] = func(c *CallCtx) []Ret {
		r := mkOp("nonnil:snapshot", c.resT(0), c.norm(0), c.x.sym("s", types.Typ[types.Int]))
		e := c.event("db.snapshot", c.name)
		e.Res = []*Term{r}
		return c.one(r)
	}
	end := func(kind, status string) Model {
		return func(c *CallCtx) []Ret {
			o := c.x.cell(&c.st, c.args[0])
			s := attr(o, "status")
			if s != nil && s != mkStr("open") {
				return c.one(nil)
			}
			c.event(kind, c.name)
			c.x.setAttr(&c.st, c.args[0], "status", mkStr(status))
			if w := attr(o, "write"); w != mkBool(false) {
				c.x.release(&c.st, mkOp("writer", nil, c.st.norm(attr(o, "db"))), false)
			}
			return c.one(nil)
		}
	}
	models[T+"Commit"] = end("txn.commit", "committed")
	models[T+"Abort"] = end("txn.abort", "aborted")
	use := func(c *CallCtx) {
		if s := attr(c.x.cell(&c.st, c.args[0]), "status"); s != nil && s != mkStr("open") {
			c.event("txn.useafterend", c.name)
		}
	}
	first := func(c *CallCtx) []Ret {
		use(c)
		x := c.x
		ix, args, bad := c.indexArgs()
		if bad != "" {
			e := c.event("badindex", bad)
			_ = e
			return []Ret{{St: c.st, V: mkTuple(mkNil(nil), x.failErr(&c.st, "memdb"))}}
		}
		key := mkOp("first", nil, append([]*Term{c.norm(1), c.norm(2), x.txnVer(&c.st, c.args[0])}, args...)...)
		if r := x.cell(&c.st, c.args[0]).get(key); r != nil {
			return c.one(mkTuple(r, mkNil(nil)))
		}
		var outs []Ret
		mk := func(kind int) {
			cc := *c
			e := cc.event("txn.first", c.name)
			e.Tag = args
			var v, er *Term = mkNil(nil), mkNil(nil)
			switch kind {
			case 1:
				r := x.newRec(&cc.st, ix, args, true)
				x.recs[r] = &RecInfo{Index: ix, Args: args, Exact: true, Mode: "first", Txn: c.args[0], Ver: x.txnVer(&c.st, c.args[0])}
				v = intern(Term{K: KIface, T: r.T, Args: []*Term{r}})
			case 2:
				er = x.failErr(&cc.st, "memdb")
			}
			if kind < 2 {
				o := x.cell(&cc.st, c.args[0])
				cc.st.heap = cc.st.heap.set(o.ID, o.with(key, v))
			}
			e.Res = []*Term{v, er}
			outs = append(outs, Ret{St: cc.st, V: mkTuple(v, er)})
		}
		mk(0)
		mk(1)
		mk(2)
		x.paths += 2
		return outs
	}
	models[T+"First"] = first
	models[T+"Last"] = first
	iter := func(mode string) Model {
		return func(c *CallCtx) []Ret {
			use(c)
			x := c.x
			_, args, bad := c.indexArgs()
			if bad != "" {
				c.event("badindex", bad)
				return []Ret{{St: c.st, V: mkTuple(mkNil(nil), x.failErr(&c.st, "memdb"))}}
			}
			return okFail(c, "txn."+mode, func(st *State) *Term {
				T := x.prog.typeNamed(hMemdb, "ResultIterator")
				o := x.newObj(st, T, mkOp("iterator", nil), "iterator", c.pos)
				x.setAttr(st, o, "txn", c.args[0])
				x.setAttr(st, o, "mode", mkStr(mode))
				x.setAttr(st, o, "index", c.norm(2))
				x.setAttr(st, o, "table", c.norm(1))
				x.setAttr(st, o, "n", mkInt(0))
				x.setAttr(st, o, "done", mkBool(false))
				x.setAttr(st, o, "ver", x.txnVer(st, c.args[0]))
				x.setAttr(st, o, "args", mkTuple(args...))
				return o
			})
		}
	}
	models[T+"Get"] = iter("get")
	models[T+"LowerBound"] = iter("lowerbound")
	models[T+"GetReverse"] = iter("getreverse")
	models[T+"ReverseLowerBound"] = iter("reverselowerbound")
	models["("+hMemdb+".ResultIterator).Next"] = func(c *CallCtx) []Ret {
		x := c.x
		o := x.cell(&c.st, c.norm(0))
		var ix *IndexInfo
		var args []*Term
		exact := false
		mode := ""
		if m := attr(o, "mode"); m != nil {
			mode, _ = m.strConst()
			t, _ := attr(o, "table").strConst()
			n, _ := attr(o, "index").strConst()
			if x.schema != nil && x.schema.Tables[t] != nil {
				ix = x.schema.Tables[t][n]
			}
			if a := attr(o, "args"); a != nil {
				args = a.Args
			}
			exact = m == mkStr("get") || m == mkStr("getreverse")
		}
		cnt := attr(o, "n")
		var outs []Ret
		for k := 0; k < 2; k++ {
			cc := *c
			if d := attr(o, "done"); d != nil {
				// An exhausted iterator stays exhausted.
				if k == 1 && !cc.st.assume(d, false) {
					continue
				}
				if k == 0 {
					x.setAttr(&cc.st, c.norm(0), "done", mkBool(true))
				}
			}
			e := cc.event("iter.next", c.name)
			e.Tag = cnt
			v := mkNil(nil)
			if k == 1 {
				r := x.newRec(&cc.st, ix, args, exact)
				x.recs[r] = &RecInfo{Iter: c.norm(0), Index: ix, Args: args, Exact: exact, Mode: mode, N: cnt, Txn: attr(o, "txn"), Ver: attr(o, "ver")}
				v = intern(Term{K: KIface, T: r.T, Args: []*Term{r}})
			}
			if cnt != nil {
				// n counts the calls, including those at the end of the iterator.
				x.setAttr(&cc.st, c.norm(0), "n", toLin(cnt).add(lin{c: 1}, 1).term(types.Typ[types.Int]))
			}
			e.Res = []*Term{v}
			outs = append(outs, Ret{St: cc.st, V: v})
		}
		x.paths++
		return outs
	}
	mod := func(kind string) Model {
		return func(c *CallCtx) []Ret {
			use(c)
			if w := attr(c.x.cell(&c.st, c.args[0]), "write"); w != nil && w != mkBool(true) {
				c.event("txn.readonly", c.name)
			}
			v := c.x.txnVer(&c.st, c.args[0])
			c.x.setAttr(&c.st, c.args[0], "ver", toLin(v).add(lin{c: 1}, 1).term(types.Typ[types.Int]))
			if kind == "txn.deleteall" {
				el, _ := c.x.elems(&c.st, c.norm(3))
				_, _, bad := c.indexArgs()
				if bad != "" {
					c.event("badindex", bad)
					return []Ret{{St: c.st, V: mkTuple(mkInt(0), c.x.failErr(&c.st, "memdb"))}}
				}
				outs := okFail(c, kind, func(st *State) *Term { return c.x.sym("deleted", types.Typ[types.Int]) })
				for _, o := range outs {
					o.St.ev.ev.Tag = el
				}
				return outs
			}
			return errOnly(c, kind)
		}
	}
	models[T+"Insert"] = mod("txn.insert")
	models[T+"Delete"] = mod("txn.delete")
	models[T+"DeleteAll"] = mod("txn.deleteall")

	// Reflection used by the indexers: values are tracked symbolically.
	rv := func(c *CallCtx, v *Term) []Ret { return c.one(mkOp("rv", c.resT(0), v)) }
	inv := func(c *CallCtx) *Term { return mkOp("rv0", c.resT(0)) }
	models["reflect.ValueOf"] = func(c *CallCtx) []Ret {
		a := c.norm(0)
		if a.K == KIface {
			return c.one(mkOp("rv", c.resT(0), a.Args[0], a))
		}
		if a.K == KNil {
			return c.one(inv(c))
		}
		return pureOp(c)
	}
	ind := func(c *CallCtx) []Ret {
		a := c.norm(0)
		if !a.isOp("rv") {
			return c.one(a)
		}
		p := c.st.facts.norm(a.Args[0])
		if p.K == KNil {
			return c.one(inv(c))
		}
		if derefType(rvType(a)) == nil {
			return c.one(a)
		}
		var outs []Ret
		s1, s2 := c.st, c.st
		if s1.assume(mkIsNil(p), false) {
			v := c.x.load(&s1, p)
			outs = append(outs, Ret{St: s1, V: mkOp("rv", c.resT(0), v)})
		}
		if s2.assume(mkIsNil(p), true) {
			outs = append(outs, Ret{St: s2, V: inv(c)})
		}
		return outs
	}
	models["reflect.Indirect"] = ind
	models["(reflect.Value).Elem"] = ind
	models["(reflect.Value).FieldByName"] = func(c *CallCtx) []Ret {
		a := c.norm(0)
		if n, ok := c.norm(1).strConst(); ok && a.isOp("rv") {
			if i := fieldIdx(a.Args[0].T, n); i >= 0 {
				return rv(c, mkField(a.Args[0], i))
			}
			return c.one(inv(c))
		}
		if a.isOp("rv0") {
			c.event("panic", "FieldByName on invalid value")
			return []Ret{{St: c.st, Panic: true}}
		}
		return pureOp(c)
	}
	models["(reflect.Value).IsValid"] = func(c *CallCtx) []Ret {
		a := c.norm(0)
		if a.isOp("rv") {
			return c.one(mkBool(true))
		}
		if a.isOp("rv0") {
			return c.one(mkBool(false))
		}
		return pureOp(c)
	}
	models["(reflect.Value).IsNil"] = func(c *CallCtx) []Ret {
		if a := c.norm(0); a.isOp("rv") {
			return c.one(mkIsNil(c.st.facts.norm(a.Args[0])))
		}
		return pureOp(c)
	}
	models["(reflect.Value).Kind"] = func(c *CallCtx) []Ret {
		if a := c.norm(0); a.isOp("rv") && rvType(a) != nil {
			kinds := map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.String: 24}
			k := int64(-1)
			switch u := rvType(a).Underlying().(type) {
			case *types.Basic:
				if v, ok := kinds[u.Kind()]; ok {
					k = v
				}
			case *types.Struct:
				k = 25
			case *types.Pointer:
				k = 22
			case *types.Slice:
				k = 23
			}
			if k > 0 {
				return c.one(mkConst(constant.MakeInt64(k), c.resT(0)))
			}
		}
		return pureOp(c)
	}
	models["(reflect.Value).Int"] = func(c *CallCtx) []Ret {
		if a := c.norm(0); a.isOp("rv") {
			return c.one(a.Args[0])
		}
		return pureOp(c)
	}
	models["(reflect.Value).Interface"] = func(c *CallCtx) []Ret {
		if a := c.norm(0); a.isOp("rv") && len(a.Args) == 2 {
			return c.one(a.Args[1])
		}
		if a := c.norm(0); a.isOp("rv") && a.Args[0].T != nil {
			return c.one(intern(Term{K: KIface, T: a.Args[0].T, Args: []*Term{a.Args[0]}}))
		}
		return pureOp(c)
	}
}

// rvType is the type of a reflected value; constants are shared between types, so
// the interface they came from is kept.
func rvType(a *Term) types.Type {
	if len(a.Args) == 2 {
		return a.Args[1].T
	}
	return a.Args[0].T
}

// ---- MongoDB driver ----------------------------------------------------------

func errGlobal(full string) *Term { return mkOp("err.global", tErr, mkStr(full)) }

func registerMongo() {
	C := "(*" + mgo + ".Collection)."
	for _, m := range []string{"FindOne", "FindOneAndUpdate", "FindOneAndReplace", "FindOneAndDelete"} {
		models[C+m] = func(c *CallCtx) []Ret {
			e := c.event("mongo", c.name[strings.LastIndexByte(c.name, '.')+1:])
			r := c.x.sym("single", c.resT(0))
			e.Res = []*Term{r}
			return c.one(r)
		}
	}
	for _, m := range []string{"InsertOne", "InsertMany", "UpdateOne", "UpdateByID", "UpdateMany", "ReplaceOne", "DeleteOne", "DeleteMany", "BulkWrite", "Find", "Aggregate", "CountDocuments", "EstimatedDocumentCount", "Distinct"} {
		m := m
		models[C+m] = func(c *CallCtx) []Ret {
			return okFailNamed(c, "mongo", m, func(st *State) *Term {
				r := c.x.sym("mongo."+m, c.resT(0))
				if strings.HasSuffix(m, "Count") || strings.HasPrefix(m, "Count") {
					st.assume(mkGe0(toLin(r)), true)
				}
				return r
			}, m == "BulkWrite")
		}
	}
	models[C+"Drop"] = func(c *CallCtx) []Ret { return errOnly(c, "mongo.drop") }
	models["(*"+mgo+".Database).RunCommand"] = func(c *CallCtx) []Ret {
		e := c.event("mongo", "RunCommand")
		r := c.x.sym("single", c.resT(0))
		e.Res = []*Term{r}
		return c.one(r)
	}
	models["(*"+mgo+".Collection).Indexes"] = func(c *CallCtx) []Ret {
		return c.one(mkOp("indexview", c.resT(0), c.norm(0)))
	}
	models["("+mgo+".IndexView).CreateMany"] = func(c *CallCtx) []Ret { return c.rename("CreateMany") }
	models["("+mgo+".IndexView).CreateOne"] = func(c *CallCtx) []Ret { return c.rename("CreateOne") }
	noDocs := errGlobal(mgo + ".ErrNoDocuments")
	dec := func(c *CallCtx) []Ret {
		x := c.x
		var outs []Ret
		ok, none, bad := *c, *c, *c
		// The result of a command carries one error, however often it is asked for.
		r := c.norm(0)
		for _, e := range c.st.events() {
			if e.Kind == "mongo.decode" && c.st.norm(e.Args[0]) == r {
				er := e.Res[0]
				if c.st.isNil(er) && len(c.args) > 1 {
					p := unIface(c.norm(1))
					if T := derefType(p.T); T != nil {
						x.store(&c.st, p, mkOp("doc", T, r))
					}
				}
				return c.one(er)
			}
		}
		e := ok.event("mongo.decode", c.name)
		e.Res = []*Term{mkNil(nil)}
		if len(c.args) > 1 {
			p := unIface(c.norm(1))
			if T := derefType(p.T); T != nil {
				x.store(&ok.st, p, mkOp("doc", T, c.norm(0)))
			}
		}
		outs = append(outs, Ret{St: ok.st, V: mkNil(nil)})
		e = none.event("mongo.decode", c.name)
		e.Res = []*Term{noDocs}
		outs = append(outs, Ret{St: none.st, V: noDocs})
		e = bad.event("mongo.decode", c.name)
		er := x.failErr(&bad.st, "mongo")
		bad.st.assume(mkEq(er, noDocs), false)
		bad.st.assume(mkOp("errIs", types.Typ[types.Bool], er, noDocs), false)
		e.Res = []*Term{er}
		outs = append(outs, Ret{St: bad.st, V: er})
		x.paths += 2
		return outs
	}
	models["(*"+mgo+".SingleResult).Decode"] = dec
	models["(*"+mgo+".SingleResult).Err"] = func(c *CallCtx) []Ret { return dec(c) }
	models["(*"+mgo+".Cursor).All"] = func(c *CallCtx) []Ret {
		outs := errOnly(c, "mongo.all")
		p := unIface(c.norm(2))
		if T := derefType(p.T); T != nil {
			// The slice stays nil only if it was and there are no documents.
			op := "docs"
			if v := c.x.load(&c.st, p); c.st.notNil(v) {
				op = "nonnil:docs"
			}
			c.x.store(&outs[0].St, p, mkOp(op, T, c.norm(0)))
		}
		return outs
	}
	// Reading a cursor step by step.
	models["(*"+mgo+".Cursor).Next"] = func(c *CallCtx) []Ret {
		e := c.event("mongo.next", c.name)
		r := c.x.sym("next", types.Typ[types.Bool])
		e.Res = []*Term{r}
		return c.one(r)
	}
	models["(*"+mgo+".Cursor).Decode"] = func(c *CallCtx) []Ret {
		outs := errOnly(c, "mongo.decoded")
		r, p := c.norm(0), unIface(c.norm(1))
		var doc *Term
		for _, e := range c.st.events() {
			if e.Kind == "mongo.next" && c.st.norm(e.Args[0]) == r {
				doc = e.Res[0]
			}
		}
		if T := derefType(p.T); T != nil && doc != nil {
			c.x.store(&outs[0].St, p, mkOp("doc", T, r, doc))
		}
		return outs
	}
	models["(*"+mgo+".Cursor).Err"] = func(c *CallCtx) []Ret { return errOnly(c, "mongo.curerr") }
	models["(*"+mgo+".Cursor).Close"] = func(c *CallCtx) []Ret { return errOnly(c, "mongo.curclose") }
	models[mgo+".IsDuplicateKeyError"] = func(c *CallCtx) []Ret {
		e := c.norm(0)
		if e.K == KNil || c.st.known(mkIsNil(e)) == 1 || e == noDocs {
			return c.one(mkBool(false))
		}
		if e.K == KIface {
			e = e.Args[0]
		}
		return c.one(mkOp("isdup", types.Typ[types.Bool], e))
	}
	for _, n := range []string{"NewInsertOneModel", "NewReplaceOneModel", "NewDeleteOneModel", "NewUpdateOneModel", "NewUpdateManyModel", "NewDeleteManyModel"} {
		models[mgo+"."+n] = func(c *CallCtx) []Ret {
			T := derefType(c.resT(0))
			return c.one(c.x.newObj(&c.st, T, c.x.zero(T), "model", c.pos))
		}
	}
}

func (c *CallCtx) rename(n string) []Ret {
	return okFailNamed(c, "mongo", n, func(st *State) *Term { return c.x.sym("mongo."+n, c.resT(0)) }, false)
}

func okFailNamed(c *CallCtx, kind, name string, mk func(st *State) *Term, partial bool) []Ret {
	cc, cb := *c, *c
	e1 := cc.event(kind, name)
	v := mk(&cc.st)
	e1.Res = []*Term{v, mkNil(nil)}
	e2 := cb.event(kind, name)
	er := c.x.failErr(&cb.st, kind)
	z := c.x.zero(c.resT(0))
	if partial {
		z = c.x.sym("mongo.partial", c.resT(0))
	}
	e2.Res = []*Term{z, er}
	c.x.paths++
	return []Ret{{St: cc.st, V: mkTuple(v, mkNil(nil))}, {St: cb.st, V: mkTuple(z, er)}}
}

// ---- files ---------------------------------------------------------------------

func registerFiles() {
	for _, n := range []string{"Create", "Open", "OpenFile", "CreateTemp"} {
		models["os."+n] = func(c *CallCtx) []Ret {
			return okFailNamed(c, "os.open", c.name, func(st *State) *Term {
				p := c.x.newObj(st, derefType(c.resT(0)), mkOp("file", nil, c.norm(0)), "file", c.pos)
				path := c.norm(0)
				if strings.HasSuffix(c.name, ".CreateTemp") {
					path = mkOp("tempfile", types.Typ[types.String], c.norm(0), c.norm(1), c.x.sym("t", types.Typ[types.Int]))
				}
				c.x.setAttr(st, p, "path", path)
				return p
			}, false)
		}
	}
	models["(*os.File).Name"] = func(c *CallCtx) []Ret {
		if p := attr(c.x.cell(&c.st, c.norm(0)), "path"); p != nil {
			return c.one(p)
		}
		return pureOp(c)
	}
	for k, n := range map[string]string{"(*os.File).Sync": "file.sync", "(*os.File).Close": "file.close", "os.Rename": "os.rename", "os.Truncate": "os.truncate", "os.Chmod": "os.chmod", "(*os.File).Chmod": "os.chmod"} {
		n := n
		models[k] = func(c *CallCtx) []Ret { return errOnly(c, n) }
	}
	// The outcome of a removal only matters where it is inspected.
	models["os.Remove"] = eventModel("os.remove")
	models["os.RemoveAll"] = eventModel("os.remove")
	models["(*os.File).Write"] = func(c *CallCtx) []Ret {
		return okFailNamed(c, "file.write", c.name, func(st *State) *Term { return mkLen(c.norm(1)) }, true)
	}
	models["(*os.File).WriteString"] = models["(*os.File).Write"]
	for _, n := range []string{"NewWriter", "NewWriterSize"} {
		models["bufio."+n] = func(c *CallCtx) []Ret {
			return c.one(mkOp("nonnil:bufio", c.resT(0), c.norm(0), c.x.sym("b", types.Typ[types.Int])))
		}
	}
	models["(*bufio.Writer).Flush"] = func(c *CallCtx) []Ret { return errOnly(c, "bufio.flush") }
	models["encoding/gob.Register"] = func(c *CallCtx) []Ret {
		if v := c.norm(0); v.K == KIface {
			c.x.gobTypes[typeKey(v.T)] = true
		}
		return c.one(mkTuple())
	}
	models["os.WriteFile"] = func(c *CallCtx) []Ret { return errOnly(c, "os.writefile") }
	for _, p := range []string{"encoding/gob", "encoding/json"} {
		short := p[strings.LastIndexByte(p, '/')+1:]
		models[p+".NewEncoder"] = func(c *CallCtx) []Ret {
			r := mkOp("nonnil:"+short+".enc", c.resT(0), c.norm(0))
			return c.one(r)
		}
		models[p+".NewDecoder"] = func(c *CallCtx) []Ret {
			r := mkOp("nonnil:"+short+".dec", c.resT(0), c.norm(0))
			return c.one(r)
		}
		models["(*"+p+".Encoder).Encode"] = func(c *CallCtx) []Ret { return errOnly(c, short+".encode") }
		models["(*"+p+".Decoder).Decode"] = func(c *CallCtx) []Ret {
			ok, eof, bad := *c, *c, *c
			e := ok.event(short+".decode", c.name)
			e.Res = []*Term{mkNil(nil)}
			p := unIface(c.norm(1))
			ok.x.havoc(&ok.st, p, "in:decoded")
			e2 := eof.event(short+".decode", c.name)
			eo := errGlobal("io.EOF")
			e2.Res = []*Term{eo}
			e3 := bad.event(short+".decode", c.name)
			bad.x.havoc(&bad.st, p, "in:partial")
			er := c.x.failErr(&bad.st, short)
			bad.st.assume(mkEq(er, eo), false)
			bad.st.assume(mkOp("errIs", types.Typ[types.Bool], er, eo), false)
			e3.Res = []*Term{er}
			c.x.paths += 2
			return []Ret{{St: ok.st, V: mkNil(nil)}, {St: eof.st, V: eo}, {St: bad.st, V: er}}
		}
	}
	models["encoding/json.Marshal"] = func(c *CallCtx) []Ret {
		return okFailNamed(c, "json.marshal", c.name, func(st *State) *Term {
			return mkOp("nonnil:json", c.resT(0), c.norm(0), c.x.sym("j", types.Typ[types.Int]))
		}, false)
	}
	models["encoding/json.Unmarshal"] = func(c *CallCtx) []Ret {
		outs := errOnly(c, "json.unmarshal")
		for i, why := range []string{"in:decoded", "in:partial"} {
			c.x.havoc(&outs[i].St, unIface(c.norm(1)), why)
		}
		return outs
	}
	models["io.ReadAll"] = func(c *CallCtx) []Ret {
		return okFailNamed(c, "io.readall", c.name, func(st *State) *Term {
			return mkOp("nonnil:readall", c.resT(0), unIface(c.norm(0)), c.x.sym("d", types.Typ[types.Int]))
		}, true)
	}
}
