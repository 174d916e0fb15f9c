package main

// Nonces (C29).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

func (c *Checker) nonceRules() {
	x := c.x
	pk := x.prog.pkg(pkgNonce)
	if pk == nil || pk.Func("Generate") == nil {
		c.fail("entry", "nonce.Generate", 0, "entry point not found", nil)
		return
	}
	fn := pk.Func("Generate")
	old := x.opaque[pkgNonce+".Generate"]
	delete(x.opaque, pkgNonce+".Generate")
	var n *Term
	rets := c.explore("nonce.Generate", fn, func(st *State, args []*Term) {
		n = args[0]
		st.assume(mkGe0(toLin(n)), true)
	})
	if n == nil {
		n = c.param(fn, 0)
	}
	if old {
		x.opaque[pkgNonce+".Generate"] = true
	}
	if len(rets) == 0 {
		c.fail("nonce-length", "result", fn.Pos(), "no nonce is ever generated", nil)
	}
	for i := range rets {
		r := &rets[i]
		st := &r.St
		if r.Panic || r.Exit {
			last := r.St.events()
			for len(last) > 0 && last[len(last)-1].Kind == "panic" {
				last = last[:len(last)-1]
			}
			if n := len(last); n > 0 && last[n-1].Kind == "rand.crypto" && !st.isNil(last[n-1].Res[1]) {
				continue // no randomness is available
			}
			c.fail("nonce-total", "panic", fn.Pos(), "generating a nonce may panic", st)
			continue
		}
		ss := segs(r, map[*Step]bool{})
		for _, sg := range ss {
			for _, e := range sg.Ev {
				if e.Kind == "outofrange" {
					i, n := sg.St.norm(e.Args[1]), sg.St.norm(e.Args[2])
					fresh := e.St.isTrue(mkGe0(toLin(i))) && e.St.isTrue(mkGe0(toLin(n).add(toLin(i), -1).add(lin{c: 1}, -1)))
					c.must(fresh, "nonce-total", x.prog.pos(e.Pos), e.Pos, &e.St, "an index may be out of range (%v of %v)", i, n)
				}
			}
		}
		c.ok("nonce-total")
		v := st.norm(r.V)
		var length *Term
		if v.isOp("string") {
			length = x.lenOf(st, st.norm(v.Args[0]))
		} else {
			length = x.lenOf(st, v)
		}
		d := toLin(st.norm(length)).add(toLin(n), -1)
		c.must(isZero(st, d), "nonce-length", "length", fn.Pos(), st, "the length of a nonce is not the requested one (%v)", length)
		c.noncePieces(fn, r, v, n)
	}
	c.seeds()
	if k, ok := x.prog.pkg(modPath).Members["NonceLength"].(*ssa.NamedConst); ok {
		i, _ := mkConst(k.Value.Value, k.Type()).intConst()
		c.must(i >= 16, "nonce-length", "NonceLength", k.Pos(), nil, "nonces have %d characters instead of 16", i)
	} else {
		c.fail("nonce-length", "NonceLength", 0, "the length of nonces is not declared", nil)
	}
	for r, n := range map[string]int{"nonce-total": 1, "nonce-length": 2, "nonce-chars": 1, "nonce-random": 1} {
		c.atLeast(r, n)
	}
}

// pieceOf is a piece of text written in an iteration of a loop (or outside).
type pieceOf struct {
	t    *Term
	st   *State
	step *Step
	loop *Loop
}

// noncePieces finds every piece the result is made of.
func (c *Checker) noncePieces(fn *ssa.Function, r *Ret, v, n *Term) {
	var out []pieceOf
	unknown := false
	loops := map[*Loop]bool{}
	for _, sg := range segs(r, map[*Step]bool{}) {
		if sg.Loop != nil {
			loops[sg.Loop] = true
		}
	}
	var walk func(t *Term, p pieceOf, self *Term)
	walk = func(t *Term, p pieceOf, self *Term) {
		t = p.st.norm(t)
		switch {
		case t == self:
		case t.K == KConcat:
			for _, a := range t.Args {
				walk(a, p, self)
			}
		case t.isOp("append"):
			walk(t.Args[0], p, self)
			for _, a := range t.Args[1:] {
				q := p
				q.t = mkOp("char", types.Typ[types.String], a)
				out = append(out, q)
			}
		case t.K == KSlice && t.N == t.Hi, t.K == KNil:
		case t.K == KSym && strings.Contains(t.Op, "@loop"):
			found := false
			for l := range loops {
				for i, cv := range append(append([]LoopVar{}, l.Phis...), l.Cells...) {
					if cv.Sym != t {
						continue
					}
					found = true
					if s, ok := cv.Init.strConst(); !ok || s != "" {
						walk(cv.Init, pieceOf{st: &l.Entry}, nil)
					}
					for _, s := range l.Steps {
						nx := append(append([]*Term{}, s.Next...), s.NextC...)[i]
						walk(nx, pieceOf{st: &s.St, step: s, loop: l}, t)
					}
				}
			}
			if !found {
				unknown = true
			}
		default:
			q := p
			q.t = t
			out = append(out, q)
		}
	}
	if v.isOp("string") && r.St.norm(v.Args[0]).K != KDyn {
		walk(v.Args[0], pieceOf{st: &r.St}, nil)
	} else if v.isOp("string") {
		c.nonceSlice(fn, r, r.St.norm(v.Args[0]), n, &out)
	} else {
		walk(v, pieceOf{st: &r.St}, nil)
	}
	if unknown {
		c.fail("nonce-chars", "result", fn.Pos(), "the contents of the nonce cannot be determined", &r.St)
	}
	for _, p := range out {
		if s, ok := p.t.strConst(); ok && s == "" {
			continue
		}
		c.noncePiece(fn, p)
	}
	if len(out) > 0 {
		c.ok("nonce-chars")
	}
}

// nonceSlice: every element of the slice is set.
func (c *Checker) nonceSlice(fn *ssa.Function, r *Ret, b, n *Term, out *[]pieceOf) {
	st := &r.St
	covered := false
	seen := map[*Step]bool{}
	for _, sg := range segs(r, seen) {
		var stores []*Event
		for _, e := range sg.Ev {
			if e.Kind == "storeelem" && sg.St.norm(e.Args[0]) == b {
				stores = append(stores, e)
				*out = append(*out, pieceOf{t: mkOp("char", types.Typ[types.String], e.Args[2]), st: sg.St, step: sg.Step, loop: sg.Loop})
			}
		}
	}
	done := map[*Loop]bool{}
	for _, sg := range segs(r, map[*Step]bool{}) {
		l := sg.Loop
		if l == nil || done[l] {
			continue
		}
		done[l] = true
		for i, ph := range l.Phis {
			ok, dir := true, int64(0)
			var at *Term
			for _, s := range l.Steps {
				d := toLin(s.Next[i]).add(toLin(ph.Sym), -1)
				if len(d.m) != 0 || d.c < -1 || d.c > 1 || d.c*dir < 0 {
					ok = false
					break
				}
				var idx *Term
				for _, e := range s.Events {
					if e.Kind == "storeelem" && s.St.norm(e.Args[0]) == b {
						idx = e.Args[1]
					}
				}
				if d.c == 0 {
					continue
				}
				dir = d.c
				if idx == nil || at != nil && at != idx {
					ok = false
					break
				}
				at = idx
			}
			if !ok || at == nil {
				continue
			}
			off := toLin(at).add(toLin(ph.Sym), -1)
			if len(off.m) != 0 {
				continue
			}
			first := toLin(l.Entry.norm(ph.Init)).add(off, 1)
			e := toLin(at)
			var from, to bool
			if dir > 0 {
				from = l.Entry.isTrue(mkEq0(first))
				to = st.isTrue(mkGe0(e.add(toLin(n), -1)))
			} else {
				from = l.Entry.isTrue(mkEq0(first.add(toLin(n), -1).add(lin{c: 1}, 1)))
				to = st.isTrue(mkGe0(e.scale(-1).add(lin{c: 1}, -1)))
			}
			covered = covered || from && to
		}
	}
	if st.isTrue(mkEq0(toLin(n))) {
		covered = true
	}
	c.must(covered, "nonce-chars", "elements", fn.Pos(), st, "not every character of the nonce is set")
}

// noncePiece: a random alphanumeric character.
func (c *Checker) noncePiece(fn *ssa.Function, p pieceOf) {
	t := p.t
	for t.isOp("char") || t.isOp("rune") || t.isOp("string") || t.K == KOp && strings.HasPrefix(t.Op, "conv:") {
		t = p.st.norm(t.Args[0])
	}
	bad := func(msg string) { c.fail("nonce-chars", "character", fn.Pos(), msg, p.st) }
	if !t.isOp("index") || len(t.Args) < 2 {
		if k := t; k.K == KConst {
			bad("part of the nonce is constant")
			return
		}
		bad("a character of the nonce is not taken from the alphanumeric ones: " + t.String())
		return
	}
	set, ok := "", false
	if s, o := p.st.norm(t.Args[0]).strConst(); o {
		set, ok = s, true
	} else if el, o := c.x.elems(p.st, p.st.norm(t.Args[0])); o {
		ok = true
		for _, e := range el {
			k, o := e.intConst()
			if !o || k < 0 || k > 127 {
				ok = false
				break
			}
			set += string(rune(k))
		}
	}
	if !ok {
		bad("the characters of the nonce are not taken from a fixed set")
		return
	}
	i := p.st.norm(t.Args[1])
	b := p.st.facts.bounds(i)
	// The guard may be stricter than the range of the operator.
	for b.hi != posInf && b.hi >= 0 && b.hi < 1<<20 && p.st.isTrue(mkGe0(toLin(mkInt(b.hi-1)).add(toLin(i), -1))) {
		b.hi--
	}
	if b.lo < 0 || b.hi == posInf || b.hi >= int64(len(set)) {
		bad("the character may not be in the set")
		return
	}
	got := map[byte]bool{}
	all := true
	for k := b.lo; k <= b.hi; k++ {
		got[set[k]] = true
		all = all && strings.IndexByte(alnum, set[k]) >= 0
	}
	c.must(all, "nonce-chars", "alphabet", fn.Pos(), p.st, "a character of the nonce may not be alphanumeric")
	c.must(len(got) == len(alnum), "nonce-chars", "alphabet size", fn.Pos(), p.st, "only %d of the 62 alphanumeric characters can occur", len(got))
	c.nonceRandom(fn, p, i)
}

func randomSym(t *Term) bool {
	return t.K == KSym && strings.Contains(t.Op, "#") && (strings.Contains(t.Op, "math/rand.") || strings.Contains(t.Op, "math/rand/v2.") || strings.Contains(t.Op, "math/rand.Rand).") || strings.Contains(t.Op, "v2.Rand).")) || t.K == KSym && strings.Contains(t.Op, "crypto/rand")
}

func symsOf(t *Term, f func(s *Term)) {
	if t.K == KSym {
		f(t)
	}
	for _, a := range t.Args {
		symsOf(a, f)
	}
}

// randomBits of a source.
func randomBits(t *Term) int64 {
	n := t.Op[:strings.LastIndexByte(t.Op, '#')]
	n = n[strings.LastIndexByte(n, '.')+1:]
	switch n {
	case "Int31", "Int32":
		return 31
	case "Uint32":
		return 32
	case "Uint64":
		return 64
	}
	return 63
}

// nonceRandom: the choice depends on random bits that no other choice uses.
func (c *Checker) nonceRandom(fn *ssa.Function, p pieceOf, i *Term) {
	if p.loop != nil {
		// Variables that function literals refer to are variables all the same.
		l := *p.loop
		l.Phis = append(append([]LoopVar{}, l.Phis...), l.Cells...)
		l.Steps = nil
		for _, s := range p.loop.Steps {
			n := *s
			n.Next = append(append([]*Term{}, s.Next...), s.NextC...)
			l.Steps = append(l.Steps, &n)
			if s == p.step {
				p.step = &n
			}
		}
		p.loop = &l
	}
	var rnd, carried *Term
	symsOf(i, func(s *Term) {
		if randomSym(s) {
			rnd = s
		} else if strings.Contains(s.Op, "@loop") && p.loop != nil {
			for k, ph := range p.loop.Phis {
				if ph.Sym != s {
					continue
				}
				// What the variable holds is random in every iteration.
				ok := containsRandom(ph.Init)
				if !ok && !firstStep(p.loop, p.st) {
					// The first iteration fills it, and this is not the first.
					ok = true
					for _, st := range p.loop.Steps {
						ok = ok && (containsRandom(st.St.norm(st.Next[k])) || !firstStep(p.loop, &st.St))
					}
				}
				for _, st := range p.loop.Steps {
					nx := st.St.norm(st.Next[k])
					ok = ok && (containsRandom(nx) || mentions(nx, s.Op))
				}
				if ok {
					carried = s
				}
			}
		}
	})
	if !c.must(rnd != nil || carried != nil, "nonce-random", "source", fn.Pos(), p.st, "the choice of a character is not random: %v", i) {
		return
	}
	if p.loop == nil || p.step == nil {
		return
	}
	// How many bits the choice takes from its source.
	base, width := i, int64(-1)
	if i.isOp("&") && len(i.Args) == 2 {
		for k, a := range i.Args {
			if m, ok := a.intConst(); ok {
				base = i.Args[1-k]
				width = 0
				for m > 0 {
					width++
					m >>= 1
				}
			}
		}
	}
	if base.K != KSym {
		return
	}
	// A value drawn before the loop gives the same choice in every iteration.
	if base == rnd {
		drawn := false
		for _, e := range p.step.Events {
			for _, v := range e.Res {
				symsOf(p.st.norm(v), func(s *Term) { drawn = drawn || s == rnd })
			}
		}
		c.must(drawn, "nonce-random", "fresh", fn.Pos(), p.st, "every character depends on the same random bits")
	}
	// What is left for the following iterations.
	for k, ph := range p.loop.Phis {
		nx := p.st.norm(p.step.Next[k])
		if nx == base {
			c.fail("nonce-random", "reuse", fn.Pos(), "the same random bits are used for several characters", p.st)
			continue
		}
		if nx.isOp(">>") && nx.Args[0] == base && width >= 0 {
			s, ok := nx.Args[1].intConst()
			c.must(ok && s >= width, "nonce-random", "reuse", fn.Pos(), p.st, "%d random bits are used and only %d discarded", width, s)
			c.nonceBudget(fn, p.loop, k, ph, s)
		}
	}
	c.ok("nonce-random")
}

// firstStep: the path may be taken in the first iteration of the loop.
func firstStep(l *Loop, st *State) bool {
	for _, ph := range l.Phis {
		if k := l.Entry.norm(ph.Init); k.K == KConst && st.isFalse(mkEq(ph.Sym, k)) {
			return false
		}
	}
	return true
}

func containsRandom(t *Term) bool {
	r := false
	symsOf(t, func(s *Term) { r = r || randomSym(s) })
	return r
}

// nonceBudget: a counter ensures that there are random bits left.
func (c *Checker) nonceBudget(fn *ssa.Function, l *Loop, k int, ph LoopVar, shift int64) {
	bits := int64(64)
	note := func(t *Term) {
		symsOf(t, func(s *Term) {
			if randomSym(s) && randomBits(s) < bits {
				bits = randomBits(s)
			}
		})
	}
	note(ph.Init)
	refreshed := containsRandomAny(l, k)
	for _, s := range l.Steps {
		note(s.St.norm(s.Next[k]))
	}
	if !c.must(refreshed, "nonce-random", "refresh", fn.Pos(), nil, "no new random bits are drawn when they are used up") {
		return
	}
	for j, r := range l.Phis {
		if j == k || !isIntish(r.Sym.T) {
			continue
		}
		top, ok := l.Entry.norm(r.Init).intConst()
		resets := false
		for _, s := range l.Steps {
			nx := s.St.norm(s.Next[j])
			if v, o := nx.intConst(); o {
				resets = true
				if v+1 > top {
					top = v + 1
				}
				// The counter is reset exactly when bits are drawn.
				ok = ok && containsRandom(s.St.norm(s.Next[k]))
				continue
			}
			d := toLin(nx).add(toLin(r.Sym), -1)
			ok = ok && len(d.m) == 0 && d.c == -1 && !containsRandom(s.St.norm(s.Next[k]))
		}
		if !ok || !resets {
			continue
		}
		c.must(top*shift <= bits, "nonce-random", "budget", fn.Pos(), nil, "up to %d times %d bits are taken from %d random ones", top, shift, bits)
	}
}

func containsRandomAny(l *Loop, k int) bool {
	for _, s := range l.Steps {
		if containsRandom(s.St.norm(s.Next[k])) {
			return true
		}
	}
	return false
}

// seeds: the source of random numbers is not seeded with a constant.
func (c *Checker) seeds() {
	n := 0
	for _, fn := range c.x.prog.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := cl.Common().StaticCallee()
				if callee == nil {
					continue
				}
				switch fnName(callee) {
				case "math/rand.Seed", "math/rand.NewSource", "math/rand/v2.NewPCG":
					n++
					con := true
					for _, a := range cl.Common().Args {
						_, k := a.(*ssa.Const)
						con = con && k
					}
					c.must(!con, "nonce-seed", c.x.prog.pos(in.Pos()), in.Pos(), nil, "random numbers are the same in every instance")
				}
			}
		}
	}
	if n == 0 {
		c.ok("nonce-seed")
	}
}

// isZero: the sum is zero, possibly by way of a linear equation.
func isZero(st *State, d lin) bool {
	is := func(d lin) bool {
		return st.isTrue(mkEq0(d)) || st.isTrue(mkGe0(d)) && st.isTrue(mkGe0(d.scale(-1)))
	}
	if is(d) {
		return true
	}
	for _, l := range st.facts.list {
		if !l.truth || !l.t.isOp("eq0") {
			continue
		}
		e := toLin(l.t.Args[0])
		if is(d.add(e, 1)) || is(d.add(e, -1)) {
			return true
		}
	}
	return false
}
