package main

// Lists that a loop collects its records in: an element of such a list is a
// record of one of the iterations that appended to it, and what is known about
// that record there is known about the element.

import (
	"fmt"
	"strings"
)

type collected struct {
	loop *Loop
	from []*collectedFrom
	nsym int // symbols up to this one exist before the iteration
	nobj int
	base int // facts up to this one are known before the iteration
}

type collectedFrom struct {
	step *Step
	st   State
	elem *Term
	rec  *Term
}

type collNode struct {
	prev         *collNode
	l, idx, elem *Term
}

// collect finds the variables of a loop that gather records.
func (x *Exec) collect(l *Loop, nsym, nobj, base int) {
	for i, p := range l.Phis {
		if p.Sym == nil || p.Init == nil || !isSliceT(p.Sym.T) || len(l.Steps) == 0 {
			continue
		}
		c := &collected{loop: l, nsym: nsym, nobj: nobj, base: base}
		if n, ok := mkLen(l.Entry.facts.norm(p.Init)).intConst(); !ok || n != 0 {
			continue
		}
		ok := true
		for _, s := range l.Steps {
			if i >= len(s.Next) {
				ok = false
				break
			}
			v := s.St.facts.norm(s.Next[i])
			if v == p.Sym {
				continue
			}
			if !v.isOp("append") || len(v.Args) != 2 || v.Args[0] != p.Sym {
				ok = false
				break
			}
			f := &collectedFrom{step: s, st: s.St, elem: v.Args[1]}
			recs := map[*Term]bool{}
			if !x.scanOwn(c, &f.st, f.elem, recs, map[*Term]bool{}) || len(recs) != 1 {
				ok = false
				break
			}
			for r := range recs {
				f.rec = r
			}
			c.from = append(c.from, f)
		}
		if ok && len(c.from) > 0 && len(c.from) <= 64 {
			x.collected[p.Sym] = c
		}
	}
}

// scanOwn finds the records of the iteration that a value is made of; it fails
// if the value refers to memory of the iteration that cannot be reproduced.
func (x *Exec) scanOwn(c *collected, st *State, t *Term, recs, seen map[*Term]bool) bool {
	t = st.facts.norm(t)
	if seen[t] {
		return true
	}
	seen[t] = true
	if x.recs[t] != nil && freshIn(t, c.nsym) {
		recs[t] = true
	}
	switch t.K {
	case KAddr:
		if t.Obj > c.nobj {
			o := st.heap.get(t.Obj)
			if o == nil || o.Val == nil || len(o.Ent) > 0 {
				return false
			}
			return x.scanOwn(c, st, o.Val, recs, seen)
		}
	case KSlice, KMap, KDyn, KChan:
		return t.Obj <= c.nobj
	}
	for _, a := range t.Args {
		if !x.scanOwn(c, st, a, recs, seen) {
			return false
		}
	}
	return true
}

// again reproduces a value of an iteration for another element.
func (x *Exec) again(c *collected, from *State, st *State, t *Term, m map[*Term]*Term) *Term {
	t = from.facts.norm(t)
	if r := m[t]; r != nil {
		return r
	}
	switch t.K {
	case KSym:
		if !freshIn(t, c.nsym) && !strings.HasSuffix(t.Op, fmt.Sprintf("@loop%d", c.loop.ID)) {
			return t
		}
		ri := x.recs[t]
		if ri == nil {
			r := x.sym("elem", t.T)
			m[t] = r
			return r
		}
		r := x.newRec(st, ri.Index, ri.Args, ri.Exact)
		cp := *ri
		cp.Carried = true
		x.recs[r] = &cp
		m[t] = r
		return r
	case KAddr:
		if t.Obj > c.nobj {
			o := from.heap.get(t.Obj)
			r := x.newObj(st, o.T, nil, o.Name, o.Pos)
			m[t] = r
			v := x.again(c, from, st, o.Val, m)
			n := *st.heap.get(r.Obj)
			n.Val = v
			st.heap = st.heap.set(r.Obj, &n)
			return r
		}
		return t
	}
	if len(t.Args) == 0 {
		return t
	}
	ch := false
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = x.again(c, from, st, a, m)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	m[t] = r
	return r
}

// rebuild makes a term of the same kind with other operands.
func rebuild(t *Term, as []*Term) *Term {
	switch t.K {
	case KLin:
		l := lin{c: t.N0}
		for i := range as {
			l = l.add(toLin(as[i]), t.Co[i])
		}
		return l.term(t.T)
	case KConcat:
		return mkConcat(as...)
	case KOp:
		switch t.Op {
		case "len":
			return mkLen(as[0])
		case "ge0":
			return mkGe0(toLin(as[0]))
		case "eq0":
			return mkEq0(toLin(as[0]))
		case "isnil":
			return mkIsNil(as[0])
		case "eq":
			return mkEq(as[0], as[1])
		case "not":
			return mkNot(as[0])
		}
	}
	n := *t
	n.Args = as
	n.id = 0
	return intern(n)
}

// element returns the states in which an element of a collected list has been
// read, with the element, or nil if the list is not such a list.
func (x *Exec) element(st *State, addr *Term) (out []Ret) {
	if addr.K != KIndexAd || len(x.collected) == 0 {
		return nil
	}
	l := st.facts.norm(addr.Args[0])
	c := x.collected[l]
	if c == nil {
		return nil
	}
	if o := st.heap.get(-l.id); o != nil && len(o.Ent) > 0 {
		return nil // written to since
	}
	idx := st.facts.norm(addr.Args[1])
	for n := st.coll; n != nil; n = n.prev {
		if n.l == l && n.idx == idx {
			return []Ret{{St: *st, V: n.elem}}
		}
	}
	for _, f := range c.from {
		s := *st
		m := map[*Term]*Term{}
		v := x.again(c, &f.st, &s, f.elem, m)
		ok := true
		for _, k := range f.st.facts.list[min(c.base, len(f.st.facts.list)):] {
			if !freshIn(k.t, c.nsym) {
				// Holds in that iteration, but says nothing about its element.
				continue
			}
			t := k.t
			if t = x.again(c, &f.st, &s, t, m); !s.assume(t, k.truth) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		s.coll = &collNode{s.coll, l, idx, v}
		e := &Event{Kind: "list.cur", Name: "collected element", Args: []*Term{l, idx}}
		if r := m[f.st.facts.norm(f.rec)]; r != nil {
			e.Res = []*Term{r}
		} else {
			e.Res = []*Term{f.rec}
		}
		s.event(e)
		out = append(out, Ret{St: s, V: v})
	}
	x.paths += len(out) - 1
	return out
}

// collectedIn is the list that an iteration adds a record to.
func (x *Exec) collectedIn(l *Loop, s *Step, rec *Term) *Term {
	for _, p := range l.Phis {
		c := x.collected[p.Sym]
		if c == nil {
			continue
		}
		for _, f := range c.from {
			if f.step == s && f.st.facts.norm(f.rec) == f.st.facts.norm(rec) {
				return p.Sym
			}
		}
	}
	return nil
}
