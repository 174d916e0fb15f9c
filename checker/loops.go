package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	heads map[*ssa.BasicBlock]*natLoop
}

func (pr *Program) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := pr.loops[fn]; ok {
		return li
	}
	li := &loopInfo{heads: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	pr.loops[fn] = li
	return li
}

const maxUnroll = 64

// loop analyses a natural loop entered by p. It returns the returns inside the
// loop and the paths that leave it.
func (x *Exec) loop(f *Frame, p path, l *natLoop) ([]Ret, []path) {
	x.phis(&p)
	// Constant trip count: unroll.
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		if rets, exits, ok := x.unroll(f, p, l); ok {
			return rets, exits
		}
	}
	return x.generic(f, p, l)
}

func (x *Exec) unroll(f *Frame, p path, l *natLoop) (rets []Ret, exits []path, ok bool) {
	cur := []path{p.fork()}
	for n := 0; n < maxUnroll; n++ {
		var nx []path
		for _, q := range cur {
			q := q.fork()
			q.prev = nil
			rg := &region{loop: l, concrete: true}
			r := x.run(f, []path{q}, rg)
			if rg.undecided {
				return nil, nil, false
			}
			rets = append(rets, r...)
			exits = append(exits, rg.exits...)
			for _, b := range rg.backs {
				b = b.fork()
				x.phis(&b)
				nx = append(nx, b)
			}
		}
		if len(nx) == 0 {
			return rets, exits, true
		}
		if len(nx) > 4096 {
			break
		}
		cur = nx
	}
	return nil, nil, false
}

type cellKey struct {
	obj  int
	path string
}

// generic analyses an arbitrary iteration: everything the body may change is
// replaced by an opaque value at the header (found by iterating to a fixpoint).
func (x *Exec) generic(f *Frame, p path, l *natLoop) ([]Ret, []path) {
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	x.nloop++
	id := x.nloop
	phiMod := map[*ssa.Phi]*Term{}
	cellMod := map[cellKey]*Term{}
	mono := map[*Term]int{} // loop symbol -> +1 (never below its initial value) / -1
	tried := map[*Term]bool{}
	recPhi := map[*ssa.Phi]*RecInfo{} // loop-carried iterator results
	notRec := map[*ssa.Phi]bool{}
	lazies := map[int]*Obj{}
	rels := map[*Term]bool{} // linear relations that hold at the header
	mark0 := x.nsym
	for round := 0; ; round++ {
		q := p.fork()
		info := &Loop{ID: id, Fn: f.fn, Header: l.header, Entry: p.st, Pos: headerPos(l)}
		for _, ph := range phis {
			if recPhi[ph] != nil {
				continue
			}
			if s := phiMod[ph]; s != nil {
				q.env[ph] = s
				info.Phis = append(info.Phis, LoopVar{Name: ph.Comment, Sym: s, Init: p.env[ph]})
			}
		}
		for _, o := range lazies {
			if q.st.heap.get(o.ID) == nil {
				x.cell(&q.st, o.Lazy)
			}
		}
		for _, k := range sortedCells(cellMod) {
			s := cellMod[k]
			info.Cells = append(info.Cells, x.havocCell(&q.st, k, s))
		}
		for _, v := range append(append([]LoopVar{}, info.Phis...), info.Cells...) {
			if mono[v.Sym] != 0 {
				d := toLin(v.Sym).add(toLin(v.Init), -1)
				if mono[v.Sym] < 0 {
					d = d.scale(-1)
				}
				q.st.assume(mkGe0(d), true)
			}
		}
		for _, e := range sortedTerms(rels) {
			q.st.assume(e, true)
		}
		q.st.event(&Event{Kind: "loop", Loop: info, Pos: info.Pos, Fn: f.fn})
		mark := q.st.ev
		q.prev = nil
		lm := x.loopMark
		x.loopMark = x.nobj
		head := q.st
		symHead, objHead, base := x.nsym, x.nobj, len(q.st.facts.list)
		headEnv := q.fork().env
		rg := &region{loop: l}
		qs := []path{q}
		for _, ph := range phis {
			ri := recPhi[ph]
			if ri == nil {
				continue
			}
			info.Recs = append(info.Recs, LoopVar{Name: ph.Comment, Init: p.env[ph]})
			var nq []path
			for _, a := range qs {
				for k := 0; k < 2; k++ {
					b := a.fork()
					var v *Term = mkNil(nil)
					if k == 1 {
						r := x.newRec(&b.st, ri.Index, ri.Args, ri.Exact)
						x.recs[r] = &RecInfo{Iter: ri.Iter, Index: ri.Index, Args: ri.Args, Exact: ri.Exact, Mode: ri.Mode, Carried: true}
						v = r
						if types.IsInterface(ph.Type()) {
							v = intern(Term{K: KIface, T: r.T, Args: []*Term{r}})
						}
					}
					b.env[ph] = v
					b.st.event(&Event{Kind: "iter.cur", Name: "loop-carried record", Args: []*Term{ri.Iter}, Res: []*Term{v}, Pos: info.Pos, Fn: f.fn})
					nq = append(nq, b)
				}
			}
			qs = nq
		}
		rets := x.run(f, qs, rg)
		x.loopMark = lm
		if x.limit && x.paths > x.maxPath {
			return rets, rg.exits
		}
		changed, phiNew := false, false
		for i := range rg.backs {
			b := rg.backs[i].fork()
			idx := -1
			for j, pr := range l.header.Preds {
				if pr == b.prev {
					idx = j
				}
			}
			step := &Step{Events: eventsSince(b.st.ev, mark), St: b.st}
			next := map[*ssa.Phi]*Term{}
			for _, ph := range phis {
				nv := x.val(&b, ph.Edges[idx])
				if recPhi[ph] != nil {
					if x.recOf(b.st.facts.norm(nv), recPhi[ph].Iter) == nil && !b.st.facts.norm(nv).isNilConst() {
						delete(recPhi, ph)
						notRec[ph] = true
						phiMod[ph] = intern(Term{K: KSym, Op: fmt.Sprintf("%s@loop%d", nonEmpty(ph.Comment, ph.Name()), id), T: ph.Type()})
						changed = true
						continue
					}
					step.HeadRec = append(step.HeadRec, b.env[ph])
					step.NextRec = append(step.NextRec, b.st.facts.norm(nv))
					continue
				}
				if phiMod[ph] == nil && !notRec[ph] && nv != headEnv[ph] {
					iv, nn := p.st.facts.norm(p.env[ph]), b.st.facts.norm(nv)
					ri := x.recOf(nn, nil)
					if ri == nil && nn.isNilConst() {
						ri = x.recOf(iv, nil)
					}
					if ri != nil && ri.Iter != nil && (iv.isNilConst() || x.recOf(iv, ri.Iter) != nil) {
						recPhi[ph] = ri
						changed = true
						continue
					}
				}
				if s := phiMod[ph]; s != nil {
					step.Next = append(step.Next, nv)
					next[ph] = nv
				} else if nv != headEnv[ph] && b.st.facts.norm(nv) != b.st.facts.norm(headEnv[ph]) {
					phiMod[ph] = intern(Term{K: KSym, Op: fmt.Sprintf("%s@loop%d", nonEmpty(ph.Comment, ph.Name()), id), T: ph.Type()})
					changed, phiNew = true, true
				}
			}
			head.heap.diff(b.st.heap, func(o, n *Obj) {
				if o == nil {
					// First materialised (or allocated) during the iteration: every
					// iteration starts from its initial contents unless it denotes
					// something that existed before the loop and was written.
					if n != nil && n.Lazy != nil && (phiNew || x.ownElement(n.Lazy, phis, phiMod, next, &b.st)) {
						return
					}
					if n != nil && n.Lazy != nil && n.Val != mkOp("deref", n.T, n.Lazy) && !freshIn(n.Lazy, x.symMark(mark0)) {
						k := cellKey{n.ID, ""}
						if cellMod[k] == nil {
							lazies[n.ID] = n
							cellMod[k] = intern(Term{K: KSym, Op: fmt.Sprintf("%s@loop%d", n.Lazy.String(), id), T: n.T})
							changed = true
						}
					}
					return
				}
				if n == nil {
					return
				}
				x.diffVal(o, n, func(path string, ov, nv *Term) {
					k := cellKey{o.ID, path}
					if cellMod[k] == nil {
						nm := nonEmpty(o.Name, "cell")
						T := nv.T
						if ov.T != nil {
							T = ov.T
						}
						cellMod[k] = intern(Term{K: KSym, Op: fmt.Sprintf("%s%s@loop%d", nm, path, id), T: T})
						changed = true
					}
				})
			})
			info.Steps = append(info.Steps, step)
		}
		if !changed {
			// next values of cells, and monotone loop variables
			for _, s := range info.Steps {
				for _, c := range info.Cells {
					if c.Attr != nil {
						s.NextC = append(s.NextC, x.cell(&s.St, c.Addr).get(c.Attr))
						continue
					}
					s.NextC = append(s.NextC, x.load(&s.St, c.Addr))
				}
			}
			vars := append(append([]LoopVar{}, info.Phis...), info.Cells...)
			for i, v := range vars {
				if tried[v.Sym] || !isIntish(v.Sym.T) || isTime(v.Sym.T) || len(info.Steps) == 0 {
					continue
				}
				up, down := true, true
				for _, s := range info.Steps {
					nv := append(append([]*Term{}, s.Next...), s.NextC...)[i]
					d := toLin(nv).add(toLin(v.Sym), -1)
					b := s.St.facts.bounds(lin{m: d.m}.term(types.Typ[types.Int64]))
					if len(d.m) == 0 {
						b = interval{0, 0}
					}
					if b.lo == negInf || b.lo+d.c < 0 {
						up = false
					}
					if b.hi == posInf || b.hi+d.c > 0 {
						down = false
					}
				}
				tried[v.Sym] = true
				if up != down {
					mono[v.Sym] = 1
					if down {
						mono[v.Sym] = -1
					}
					changed = true
				}
			}
			if !changed {
				for _, e := range x.relations(info) {
					if !rels[e] {
						rels[e] = true
						changed = true
					}
				}
			}
			if !changed {
				x.collect(info, symHead, objHead, base)
				return rets, rg.exits
			}
		}
		if round > 40 {
			x.note("loop fixpoint not reached in " + f.fn.String())
			x.limit = true
			return rets, rg.exits
		}
	}
}

// relations finds sums and differences of loop variables that no iteration
// changes; they keep their initial value.
func (x *Exec) relations(l *Loop) (out []*Term) {
	type v struct{ sym, init *Term }
	var vs []v
	var next [][]*Term
	add := func(sym, init *Term, nx func(s *Step) *Term) {
		var ns []*Term
		for _, s := range l.Steps {
			ns = append(ns, nx(s))
		}
		vs = append(vs, v{sym, init})
		next = append(next, ns)
	}
	each := func(lv LoopVar, nx func(s *Step) *Term) {
		if lv.Sym == nil || lv.Init == nil {
			return
		}
		if isIntish(lv.Sym.T) && !isTime(lv.Sym.T) {
			add(lv.Sym, lv.Init, nx)
		}
		if lv.Sym.T != nil {
			_, ok := lv.Sym.T.Underlying().(*types.Slice)
			if ok || isStringy(lv.Sym.T) {
				add(mkLen(lv.Sym), mkLen(lv.Init), func(s *Step) *Term { return mkLen(nx(s)) })
			}
		}
	}
	for i, p := range l.Phis {
		i := i
		each(p, func(s *Step) *Term { return s.Next[i] })
	}
	for i, p := range l.Cells {
		i := i
		each(p, func(s *Step) *Term { return s.NextC[i] })
	}
	if len(l.Steps) == 0 {
		return nil
	}
	// Guards that every iteration establishes bound the variable afterwards:
	// E-v-c >= 0 and v' = v+k give E-v'-c+k >= 0.
	own := fmt.Sprintf("@loop%d", l.ID)
	for i := range vs {
		okk, moves := true, false
		var ds []int64
		for k := range l.Steps {
			if next[i][k] == nil {
				okk = false
				break
			}
			d := toLin(next[i][k]).add(toLin(vs[i].sym), -1)
			if len(d.m) != 0 {
				okk = false
				break
			}
			moves = moves || d.c != 0
			ds = append(ds, d.c)
		}
		if !okk || !moves {
			continue
		}
		for _, g := range l.Steps[0].St.facts.list {
			t := g.t
			if !t.isOp("ge0") {
				continue
			}
			a := toLin(t.Args[0])
			if !g.truth {
				a = a.scale(-1).add(lin{c: -1}, 1)
			}
			co := int64(0)
			for m, c := range a.m {
				if m == vs[i].sym {
					co = c
				} else if mentions(m, own) {
					co = 99
					break
				}
			}
			if co != 1 && co != -1 {
				continue
			}
			m := int64(0) // the most that an iteration takes away
			for _, d := range ds {
				if co*d < m {
					m = co * d
				}
			}
			if m == 0 {
				continue
			}
			all := true
			for _, s := range l.Steps {
				if !s.St.isTrue(mkGe0(a)) {
					all = false
				}
			}
			// after the step: a evaluated at v' is a + co*d >= m
			inv := a.add(lin{c: -m}, 1)
			at0 := inv.add(toLin(vs[i].sym), -co).add(toLin(vs[i].init), co)
			if all && l.Entry.isTrue(mkGe0(at0)) {
				out = append(out, mkGe0(inv))
			}
		}
	}
	for i := range vs {
		for j := i + 1; j < len(vs); j++ {
			for _, sg := range []int64{-1, 1} {
				ok := true
				for k := range l.Steps {
					if next[i][k] == nil || next[j][k] == nil {
						ok = false
						break
					}
					d := toLin(next[i][k]).add(toLin(vs[i].sym), -1)
					e := toLin(next[j][k]).add(toLin(vs[j].sym), -1)
					r := d.add(e, sg)
					if len(r.m) != 0 || r.c != 0 {
						ok = false
						break
					}
				}
				if ok {
					a := toLin(vs[i].sym).add(toLin(vs[j].sym), sg)
					b := toLin(vs[i].init).add(toLin(vs[j].init), sg)
					out = append(out, mkEq0(a.add(b, -1)))
				}
			}
		}
	}
	return out
}

func mentions(t *Term, sub string) bool {
	if t.K == KSym && strings.Contains(t.Op, sub) {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, sub) {
			return true
		}
	}
	return false
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

// recOf returns what is known about a record obtained from an iterator.
func (x *Exec) recOf(v, iter *Term) *RecInfo {
	if v == nil {
		return nil
	}
	ri := x.recs[unIface(v)]
	if ri == nil || ri.Iter == nil || (iter != nil && ri.Iter != iter) {
		return nil
	}
	return ri
}

// symMark/freshIn: symbols created after the loop was entered denote values that
// are new in each iteration.
// ownElement: an element of a decoded list that only this iteration visits. The
// elements of such a list are distinct.
func (x *Exec) ownElement(p *Term, phis []*ssa.Phi, mod, next map[*ssa.Phi]*Term, st *State) bool {
	if !p.isOp("index") {
		return false
	}
	root := p.Args[0]
	for root.K == KOp && root.Op == "field" {
		root = root.Args[0]
	}
	if root.K != KSym || !strings.HasPrefix(root.Op, "in:") {
		return false
	}
	d := lin{}
	l := toLin(p.Args[1])
	for _, ph := range phis {
		if s := mod[ph]; s != nil && l.m[s] != 0 {
			if next[ph] == nil {
				return false
			}
			d = d.add(toLin(st.norm(next[ph])).add(toLin(s), -1), l.m[s])
		}
	}
	return len(d.m) == 0 && d.c != 0
}

func (x *Exec) symMark(n int) int { return n }

func freshIn(t *Term, mark int) bool {
	if t.K == KSym {
		if i := strings.LastIndexByte(t.Op, '#'); i >= 0 {
			n := 0
			for _, c := range t.Op[i+1:] {
				if c < '0' || c > '9' {
					return false
				}
				n = n*10 + int(c-'0')
			}
			return n > mark
		}
		return false
	}
	for _, a := range t.Args {
		if freshIn(a, mark) {
			return true
		}
	}
	return false
}

func nonEmpty(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func headerPos(l *natLoop) (p2 token.Pos) {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (p2 == 0 || in.Pos() < p2) {
				p2 = in.Pos()
			}
		}
	}
	return p2
}

// diffVal reports the leaves of an object's value that differ.
func (x *Exec) diffVal(o, n *Obj, f func(path string, ov, nv *Term)) {
	var rec func(path string, a, b *Term, d int)
	rec = func(path string, a, b *Term, d int) {
		if a == b {
			return
		}
		if a == nil || b == nil {
			return
		}
		if b.K == KStruct && structOf(b.T) != nil && !isTime(b.T) && d < 4 && a.T != nil && structOf(a.T) != nil {
			for i := range b.Args {
				rec(fmt.Sprintf("%s.%d", path, i), mkField(a, i), b.Args[i], d+1)
			}
			return
		}
		f(path, a, b)
	}
	rec("", o.Val, n.Val, 0)
	if o.isModel() {
		// Attributes of modelled objects are tracked one by one.
		for _, e := range o.Ent {
			if k, ok := e.K.strConst(); ok {
				if nv := n.get(e.K); nv != nil && nv != e.V {
					f("@"+k, e.V, nv)
				}
			}
		}
		return
	}
	for i, e := range n.Ent {
		if i >= len(o.Ent) || o.Ent[i] != e {
			f("[]", e.V, e.V)
			break
		}
	}
}

// havocCell replaces a leaf of an object by a symbol.
func (x *Exec) havocCell(st *State, k cellKey, s *Term) LoopVar {
	o := st.heap.get(k.obj)
	if o == nil {
		return LoopVar{Name: "?", Sym: s, Init: s, Addr: s}
	}
	var addr *Term
	switch {
	case o.Lazy != nil:
		addr = o.Lazy
	default:
		addr = intern(Term{K: KAddr, Obj: o.ID, T: types.NewPointer(o.T)})
	}
	if strings.HasPrefix(k.path, "@") {
		key := mkStr(k.path[1:])
		init := o.get(key)
		if init == nil {
			init = s
		}
		st.heap = st.heap.set(o.ID, o.with(key, s))
		return LoopVar{Name: o.Name + k.path, Sym: s, Init: init, Addr: addr, Attr: key}
	}
	if k.path == "[]" {
		n := *o
		n.Ent = append(append([]Entry{}, o.Ent...), Entry{s, s})
		// Any element may have been overwritten by earlier iterations.
		n.Ent = []Entry{{s, s}}
		st.heap = st.heap.set(o.ID, &n)
		return LoopVar{Name: o.Name + "[]", Sym: s, Init: s, Addr: addr}
	}
	var idx []int
	cur := 0
	for i := 1; i <= len(k.path); i++ {
		if i == len(k.path) || k.path[i] == '.' {
			if i > 1 {
				idx = append(idx, cur)
			}
			cur = 0
			continue
		}
		cur = cur*10 + int(k.path[i]-'0')
	}
	if k.path == "" {
		idx = nil
	}
	a := addr
	for _, i := range idx {
		var ft types.Type
		if s := structOf(derefType(a.T)); s != nil {
			ft = types.NewPointer(s.Field(i).Type())
		}
		a = intern(Term{K: KFieldAd, Args: []*Term{a}, N: i, T: ft})
	}
	init := x.load(st, a)
	x.store(st, a, s)
	return LoopVar{Name: o.Name + k.path, Sym: s, Init: init, Addr: a}
}

func sortedCells(m map[cellKey]*Term) []cellKey {
	var ks []cellKey
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].obj != ks[j].obj {
			return ks[i].obj < ks[j].obj
		}
		return ks[i].path < ks[j].path
	})
	return ks
}
