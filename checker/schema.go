package main

// Derivation of the MemDB schema from the code: the schema value is obtained by
// abstract evaluation of the engine's constructor, and the index components by
// abstract evaluation of the repository's own indexers.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// schemaReport lists how every index was classified.
type schemaReport struct {
	Lines    []string
	Problems []string
}

func (x *Exec) deriveSchema() *schemaReport {
	rep := &schemaReport{}
	bad := func(f string, a ...any) { rep.Problems = append(rep.Problems, fmt.Sprintf(f, a...)) }
	fn := x.prog.pkg(pkgMemdb).Func("New")
	if fn == nil {
		bad("constructor of the MemDB engine not found")
		return rep
	}
	var out *Ret
	for _, r := range x.callEntry(x.base, fn) {
		if !r.Panic && r.res(1) != nil && r.St.facts.norm(r.res(1)).isNilConst() {
			r := r
			out = &r
		}
	}
	if out == nil {
		bad("constructor of the MemDB engine never succeeds")
		return rep
	}
	st := out.St
	// The schema is the value of type *memdb.DBSchema held by the engine.
	eng := x.load(&st, out.res(0))
	var sch *Term
	es := structOf(eng.T)
	for i := 0; es != nil && i < es.NumFields(); i++ {
		if p, ok := es.Field(i).Type().(*types.Pointer); ok && typeKey(p.Elem()) == hMemdb+".DBSchema" {
			sch = mkField(eng, i)
		}
	}
	if sch == nil {
		bad("the engine does not hold a database schema")
		return rep
	}
	x.schema = &Schema{Tables: map[string]map[string]*IndexInfo{}}
	for tn, tv := range x.mapEntries(&st, mkField2(x.load(&st, sch), "Tables")) {
		m := map[string]*IndexInfo{}
		x.schema.Tables[tn] = m
		for in, iv := range x.mapEntries(&st, mkField2(x.load(&st, tv), "Indexes")) {
			v := x.load(&st, iv)
			ix := &IndexInfo{Name: in}
			if b, ok := st.facts.norm(mkField2(v, "Unique")).boolConst(); ok {
				ix.Unique = b
			}
			if b, ok := st.facts.norm(mkField2(v, "AllowMissing")).boolConst(); ok {
				ix.AllowMissing = b
			}
			if nm, ok := st.facts.norm(mkField2(v, "Name")).strConst(); !ok || nm != in {
				bad("index %s is registered under another name", in)
			}
			x.indexParts(&st, ix, st.facts.norm(mkField2(v, "Indexer")), bad)
			m[in] = ix
			l := fmt.Sprintf("index %q unique=%v allowMissing=%v:", in, ix.Unique, ix.AllowMissing)
			for _, p := range ix.Parts {
				l += " " + p.Kind + "(" + p.Name
				if p.Filter != nil {
					l += "=" + p.Filter.String()
				}
				l += ")"
			}
			rep.Lines = append(rep.Lines, l)
		}
	}
	sort.Strings(rep.Lines)
	return rep
}

func mkField2(v *Term, name string) *Term {
	i := fieldIdx(v.T, name)
	if i < 0 {
		return mkOp("nofield", nil)
	}
	return mkField(v, i)
}

// mapEntries lists the entries of a map with constant string keys.
func (x *Exec) mapEntries(st *State, m *Term) map[string]*Term {
	r := map[string]*Term{}
	m = st.facts.norm(m)
	if m.K != KMap {
		return r
	}
	o := x.cell(st, m)
	for _, e := range o.Ent {
		if k, ok := st.facts.norm(unIface(e.K)).strConst(); ok {
			r[k] = st.facts.norm(e.V)
		}
	}
	return r
}

func (x *Exec) indexParts(st *State, ix *IndexInfo, v *Term, bad func(string, ...any)) {
	v = st.facts.norm(v)
	p := unIface(v)
	tk := typeKey(derefType(p.T))
	switch tk {
	case hMemdb + ".CompoundIndex":
		el, ok := x.elems(st, mkField2(x.load(st, p), "Indexes"))
		if !ok {
			bad("components of index %s are not statically known", ix.Name)
			return
		}
		if b, ok := st.facts.norm(mkField2(x.load(st, p), "AllowMissing")).boolConst(); !ok || b {
			bad("index %s may include records that lack some of its components", ix.Name)
		}
		for _, e := range el {
			x.indexParts(st, ix, e, bad)
		}
		return
	case hMemdb + ".StringFieldIndex":
		f, _ := st.facts.norm(mkField2(x.load(st, p), "Field")).strConst()
		if b, ok := st.facts.norm(mkField2(x.load(st, p), "Lowercase")).boolConst(); !ok || b {
			bad("index %s folds case: different values share a key", ix.Name)
		}
		i := fieldIdx(x.taskType(), f)
		if i < 0 {
			bad("index %s refers to unknown field %q", ix.Name, f)
			return
		}
		ix.Parts = append(ix.Parts, IndexPart{Kind: "string", Field: i, Name: f})
		return
	}
	x.customIndexer(st, ix, p, bad)
}

// customIndexer classifies an indexer of the repository by analysing how it maps
// a record, and how it maps arguments, to keys.
func (x *Exec) customIndexer(st *State, ix *IndexInfo, p *Term, bad func(string, ...any)) {
	T := derefType(p.T)
	if T == nil {
		bad("indexer of %s is unknown", ix.Name)
		return
	}
	fo := x.prog.methodOf(p.T, nil, "FromObject")
	fa := x.prog.methodOf(p.T, nil, "FromArgs")
	if fo == nil || fa == nil || !x.inlinable(fo) {
		bad("indexer of %s is not analysable: %v", ix.Name, p.T)
		return
	}
	rec := x.named("rec", types.NewPointer(x.taskType()))
	s := *st
	s.assume(mkIsNil(rec), false)
	obj := intern(Term{K: KIface, T: rec.T, Args: []*Term{rec}})
	recv := x.load(&s, rec)
	type hit struct {
		key *Term
		st  State
	}
	var oks []hit
	var noes []State
	for _, r := range x.callFn(s, fo, []*Term{p, obj}, nil, nil, nil) {
		if r.Panic || r.Exit {
			bad("indexer of %s may panic", ix.Name)
			return
		}
		ok, known := r.St.facts.norm(r.res(0)).boolConst()
		if !r.St.facts.norm(r.res(2)).isNilConst() {
			bad("indexer of %s rejects records of the declared type", ix.Name)
			return
		}
		if !known {
			bad("indexer of %s is undecided", ix.Name)
			return
		}
		if ok {
			oks = append(oks, hit{x.bytesKey(&r.St, r.res(1)), r.St})
		} else {
			noes = append(noes, r.St)
		}
	}
	if len(oks) == 0 {
		bad("indexer of %s never includes a record", ix.Name)
		return
	}
	// Which field does the key depend on?
	tt := structOf(x.taskType())
	for i := 0; i < tt.NumFields(); i++ {
		f := mkField(recv, i)
		// state-like: included iff the field equals one constant
		if oks[0].key != nil {
			var filter *Term
			good := true
			for _, h := range oks {
				v := h.st.facts.norm(f)
				if v.K != KConst || (filter != nil && filter != v) {
					good = false
					break
				}
				filter = v
			}
			if good && filter != nil {
				filter = mkConst(filter.C, f.T)
				for _, n := range noes {
					if !n.isFalse(mkEq(f, filter)) {
						bad("index %s excludes records whose %s matches its filter", ix.Name, tt.Field(i).Name())
					}
				}
				n, _ := filter.intConst()
				for _, h := range oks {
					if k := h.key; k == nil || len(k.Args) != 1 {
						bad("key of index %s for field %s is not a single byte", ix.Name, tt.Field(i).Name())
					} else if c, ok := k.Args[0].intConst(); !ok || c != n&0xff {
						bad("key of index %s for field %s is not the state", ix.Name, tt.Field(i).Name())
					}
				}
				x.checkArgs(st, ix, p, fa, filter, f.T, oks[0].key, bad)
				ix.Parts = append(ix.Parts, IndexPart{Kind: "state", Field: i, Name: tt.Field(i).Name(), Filter: filter})
				return
			}
		}
		// time-like: included iff non-nil, key = order-preserving encoding
		if derefType(f.T) != nil && isTime(derefType(f.T)) {
			want := func(t *Term) *Term { return timeKey(t) }
			good := len(oks) > 0
			for _, h := range oks {
				if !h.st.isFalse(mkIsNil(f)) {
					good = false
					break
				}
				k := want(x.load(&h.st, f))
				if !keyEq(h.key, k) {
					good = false
				}
			}
			if !good {
				continue
			}
			for _, n := range noes {
				if !n.isTrue(mkIsNil(f)) {
					bad("index %s excludes records that have %s", ix.Name, tt.Field(i).Name())
				}
			}
			x.checkTimeArgs(st, ix, p, fa, bad)
			ix.Parts = append(ix.Parts, IndexPart{Kind: "time", Field: i, Name: tt.Field(i).Name()})
			return
		}
	}
	bad("indexer of a component of %s is not a recognised order-preserving mapping: %v -> %v", ix.Name, p.T, oks[0].key)
}

// bytesKey lists the bytes of a key.
func (x *Exec) bytesKey(st *State, b *Term) *Term {
	el, ok := x.elems(st, st.facts.norm(b))
	if !ok {
		return nil
	}
	as := make([]*Term, len(el))
	for i, e := range el {
		as[i] = st.facts.norm(e)
	}
	return mkTuple(as...)
}

// timeKey is the order-preserving key of a time: the big-endian bytes of its
// milliseconds with the sign bit flipped.
func timeKey(t *Term) *Term {
	return mkOp("unixmilli", types.Typ[types.Int64], stripTime(t))
}

func keyEq(key, ms *Term) bool {
	if key == nil || len(key.Args) != 8 {
		return false
	}
	for i, b := range key.Args {
		if !b.isOp("be64") {
			return false
		}
		if n, ok := b.Args[1].intConst(); !ok || n != int64(i) {
			return false
		}
		if !biased(b.Args[0], ms) {
			return false
		}
	}
	return true
}

// biased reports whether v is ms with its sign bit flipped.
func biased(v, ms *Term) bool {
	for isConv(v) {
		v = v.Args[0]
	}
	if v.K == KLin {
		l := toLin(v)
		if len(l.m) == 1 && (l.c == -1<<63) {
			for a, k := range l.m {
				for isConv(a) {
					a = a.Args[0]
				}
				return k == 1 && a == ms
			}
		}
		return false
	}
	if v.isOp("^") && len(v.Args) == 2 {
		for i := 0; i < 2; i++ {
			c, o := v.Args[i], v.Args[1-i]
			if c.K == KConst && (c.C.ExactString() == "-9223372036854775808" || c.C.ExactString() == "9223372036854775808") {
				for isConv(o) {
					o = o.Args[0]
				}
				return o == ms
			}
		}
	}
	return false
}

// checkArgs: the key of an argument equals the key of the records it must find.
func (x *Exec) checkArgs(st *State, ix *IndexInfo, p *Term, fa ssaFn, filter *Term, T types.Type, key *Term, bad func(string, ...any)) {
	s := *st
	arg := intern(Term{K: KIface, T: T, Args: []*Term{filter}})
	sl := x.mkSlice(&s, types.NewSlice(types.NewInterfaceType(nil, nil)), []*Term{arg})
	n := 0
	for _, r := range x.callFn(s, fa, []*Term{p, sl}, nil, nil, nil) {
		if r.Panic || !r.St.facts.norm(r.res(1)).isNilConst() {
			bad("arguments of index %s are rejected", ix.Name)
			continue
		}
		n++
		if k := x.bytesKey(&r.St, r.res(0)); k != key {
			bad("keys of arguments and records of index %s differ: %v and %v", ix.Name, k, key)
		}
	}
	if n == 0 {
		bad("arguments of index %s are never accepted", ix.Name)
	}
}

func (x *Exec) checkTimeArgs(st *State, ix *IndexInfo, p *Term, fa ssaFn, bad func(string, ...any)) {
	s := *st
	t := x.named("arg", x.timeType())
	arg := intern(Term{K: KIface, T: t.T, Args: []*Term{t}})
	sl := x.mkSlice(&s, types.NewSlice(types.NewInterfaceType(nil, nil)), []*Term{arg})
	n := 0
	for _, r := range x.callFn(s, fa, []*Term{p, sl}, nil, nil, nil) {
		if r.Panic || !r.St.facts.norm(r.res(1)).isNilConst() {
			bad("time arguments of index %s are rejected", ix.Name)
			continue
		}
		n++
		if k := x.bytesKey(&r.St, r.res(0)); !keyEq(k, timeKey(t)) {
			bad("keys of time arguments of index %s do not follow the order of time: %v", ix.Name, k)
		}
	}
	if n == 0 {
		bad("time arguments of index %s are never accepted", ix.Name)
	}
}

func (x *Exec) timeType() types.Type { return x.prog.typeNamed("time", "Time") }

func isConv(t *Term) bool { return t.K == KOp && strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1 }
