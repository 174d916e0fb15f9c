package main

// Path facts: the abstract domain that correlates branches. It is a product of
// literals over boolean terms, an interval (with excluded constants) per linear
// form, and equalities. Facts values are immutable; assume returns a new one.

import (
	"strings"

	"go/constant"
	"go/types"
	"math"
)

type interval struct{ lo, hi int64 }

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

type lit struct {
	t     *Term
	truth bool
}

type Facts struct {
	lits map[*Term]bool
	iv   map[*Term]interval
	ne   map[*Term][]int64
	rep  map[*Term]*Term
	list []lit
}

func newFacts() *Facts {
	return &Facts{lits: map[*Term]bool{}, iv: map[*Term]interval{}, ne: map[*Term][]int64{}, rep: map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{lits: make(map[*Term]bool, len(f.lits)+2), iv: make(map[*Term]interval, len(f.iv)+1), ne: make(map[*Term][]int64, len(f.ne)), rep: make(map[*Term]*Term, len(f.rep))}
	for k, v := range f.lits {
		g.lits[k] = v
	}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.ne {
		g.ne[k] = v
	}
	for k, v := range f.rep {
		g.rep[k] = v
	}
	g.list = f.list[:len(f.list):len(f.list)]
	return g
}

func (f *Facts) find(t *Term) *Term {
	for i := 0; i < 64; i++ {
		r, ok := f.rep[t]
		if !ok {
			return t
		}
		t = r
	}
	return t
}

// norm rewrites a term under the known equalities, one level into operations.
func (f *Facts) norm(t *Term) *Term {
	if len(f.rep) == 0 || t == nil {
		return t
	}
	return f.normD(t, 6)
}

func (f *Facts) normD(t *Term, d int) *Term {
	r := f.find(t)
	if r != t || d == 0 {
		return r
	}
	if t.K == KOp || t.K == KConcat || t.K == KLin {
		ch := false
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = f.normD(a, d-1)
			if as[i] != a {
				ch = true
			}
		}
		if ch {
			switch t.K {
			case KLin:
				l := lin{c: t.N0}
				for i := range as {
					l = l.add(toLin(as[i]), t.Co[i])
				}
				return l.term(t.T)
			case KConcat:
				return mkConcat(as...)
			default:
				switch t.Op {
				case "len":
					return mkLen(as[0])
				case "ge0":
					return mkGe0(toLin(as[0]))
				case "eq0":
					return mkEq0(toLin(as[0]))
				case "isnil":
					return mkIsNil(as[0])
				case "eq":
					return mkEq(as[0], as[1])
				case "not":
					return mkNot(as[0])
				}
				if strings.HasPrefix(t.Op, "conv:") && len(as) == 1 && as[0].K == KConst && isIntish(t.T) && isIntish(as[0].T) {
					return mkConst(wrapConst(as[0].C, t.T), t.T)
				}
				n := *t
				n.Args = as
				n.id = 0
				return f.find(intern(n))
			}
		}
	}
	return t
}

// same reports whether two terms are known to be equal.
func (f *Facts) same(a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = f.norm(stripTime(a)), f.norm(stripTime(b))
	if a == b {
		return true
	}
	return f.eval(mkEq(a, b)) == 1
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (f *Facts) bounds(p *Term) interval {
	r := interval{negInf, posInf}
	if v, ok := f.iv[p]; ok {
		r = v
	}
	if p.isOp("len") || p.isOp("cap") {
		lo := int64(0)
		if a := p.Args[0]; a.isOp("rune") {
			lo = 1
		} else if a.K == KConcat {
			for _, q := range a.Args {
				if s, ok := q.strConst(); ok {
					lo += int64(len(s))
				}
			}
		}
		if a := p.Args[0]; a.isOp("append") {
			lo += int64(len(a.Args) - 1)
		}
		if r.lo < lo {
			r.lo = lo
		}
	} else if isUnsigned(p.T) && r.lo < 0 {
		r.lo = 0
	}
	if p.K == KOp && len(p.Args) == 2 {
		switch p.Op {
		case "&":
			for _, a := range p.Args {
				if k, ok := a.intConst(); ok && k >= 0 {
					if r.lo < 0 {
						r.lo = 0
					}
					if r.hi > k {
						r.hi = k
					}
				}
			}
		case ">>", "%", "/":
			if k, ok := p.Args[1].intConst(); ok && k > 0 {
				b := f.bounds(p.Args[0])
				if b.lo >= 0 && r.lo < 0 {
					r.lo = 0
				}
				if p.Op == "%" && r.hi > k-1 {
					r.hi = k - 1
				}
			}
		}
	}
	if p.K == KLin && r.lo == negInf && r.hi == posInf {
		// Sum of intervals.
		lo, hi := p.N0, p.N0
		okLo, okHi := true, true
		for i, a := range p.Args {
			b := f.bounds(a)
			k := p.Co[i]
			x, y := b.lo, b.hi
			if k < 0 {
				x, y = y, x
			}
			if x == negInf || x == posInf || x > math.MaxInt32 || x < math.MinInt32 {
				okLo = false
			} else {
				lo += k * x
			}
			if y == negInf || y == posInf || y > math.MaxInt32 || y < math.MinInt32 {
				okHi = false
			} else {
				hi += k * y
			}
		}
		if okLo {
			r.lo = lo
		}
		if okHi {
			r.hi = hi
		}
	}
	for changed := true; changed; {
		changed = false
		for _, x := range f.ne[p] {
			if x == r.lo {
				r.lo++
				changed = true
			}
			if x == r.hi {
				r.hi--
				changed = true
			}
		}
	}
	return r
}

// eval returns 1 if the boolean term is known true, 0 if known false, -1 if
// undecided.
func (f *Facts) eval(t *Term) int {
	t = f.norm(t)
	if b, ok := t.boolConst(); ok {
		if b {
			return 1
		}
		return 0
	}
	if v, ok := f.lits[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if t.K != KOp {
		return -1
	}
	switch t.Op {
	case "not":
		if r := f.eval(t.Args[0]); r >= 0 {
			return 1 - r
		}
	case "ge0":
		p, s, c := toLin(t.Args[0]).canonical()
		b := f.bounds(p)
		if s > 0 {
			if b.lo != negInf && b.lo+c >= 0 {
				return 1
			}
			if b.hi != posInf && b.hi+c < 0 {
				return 0
			}
		} else {
			if b.hi != posInf && -b.hi+c >= 0 {
				return 1
			}
			if b.lo != negInf && -b.lo+c < 0 {
				return 0
			}
		}
	case "eq0":
		p, s, c := toLin(t.Args[0]).canonical()
		v := -c * s
		b := f.bounds(p)
		if b.lo == v && b.hi == v {
			return 1
		}
		if b.lo > v || b.hi < v {
			return 0
		}
		for _, x := range f.ne[p] {
			if x == v {
				return 0
			}
		}
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if s, ok := b.strConst(); ok {
			a, b = b, a
			_ = s
		}
		if s, ok := a.strConst(); ok {
			bd := f.bounds(mkLen(b))
			n := int64(len(s))
			if bd.lo > n || bd.hi < n {
				return 0
			}
		} else if isStringy(a.T) && isStringy(b.T) {
			x, y := f.bounds(mkLen(a)), f.bounds(mkLen(b))
			if x.lo > y.hi || y.lo > x.hi {
				return 0
			}
			if x.hi == 0 && y.hi == 0 {
				return 1
			}
		}
		if nonNilErr(a) && f.eval(mkIsNil(b)) == 1 || nonNilErr(b) && f.eval(mkIsNil(a)) == 1 {
			return 0
		}
	case "errIs":
		return f.errIs(t.Args[0], t.Args[1])
	case "isnil":
		if nonNil(t.Args[0]) {
			return 0
		}
	}
	return -1
}

func isStringy(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func nonNilErr(t *Term) bool {
	return t.isOp("err.global") || t.isOp("errorf") || t.isOp("errnew") || t.K == KIface
}

func nonNil(t *Term) bool {
	switch t.K {
	case KAddr, KFieldAd, KIndexAd, KSlice, KDyn, KMap, KChan, KIface, KFunc, KStruct:
		return true
	case KOp:
		switch t.Op {
		case "err.global", "errorf", "errnew", "append":
			return true
		}
		return strings_HasPrefix(t.Op, "nonnil:")
	}
	return false
}

func strings_HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func mkIsNil(t *Term) *Term {
	if t.K == KNil {
		return mkBool(true)
	}
	if nonNil(t) {
		return mkBool(false)
	}
	return mkOp("isnil", types.Typ[types.Bool], t)
}

func isIntish(t types.Type) bool {
	if t == nil {
		return false
	}
	if typeKey(t) == "time.Time" {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if a.K == KNil {
		a, b = b, a
	}
	if b.K == KNil {
		return mkIsNil(a)
	}
	if a.K == KConst && b.K == KConst {
		if a.C.Kind() == b.C.Kind() {
			return mkBool(constant.Compare(a.C, tokEQL, b.C))
		}
	}
	if v, ok := a.boolConst(); ok {
		if v {
			return b
		}
		return mkNot(b)
	}
	if v, ok := b.boolConst(); ok {
		if v {
			return a
		}
		return mkNot(a)
	}
	if isIntish(a.T) || isIntish(b.T) {
		return mkEq0(toLin(a).add(toLin(b), -1))
	}
	if s, ok := a.strConst(); ok && s == "" {
		return mkEq0(toLin(mkLen(b)))
	}
	if s, ok := b.strConst(); ok && s == "" {
		return mkEq0(toLin(mkLen(a)))
	}
	if a.K == KIface && b.K == KIface {
		if !types.Identical(a.T, b.T) {
			return mkBool(false)
		}
		return mkEq(a.Args[0], b.Args[0])
	}
	if a.K == KAddr && b.K == KAddr {
		return mkBool(a.Obj == b.Obj)
	}
	da, db := distinctRef(a), distinctRef(b)
	if da && db {
		return mkBool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkOp("eq", types.Typ[types.Bool], a, b)
}

// distinctRef: values that are equal only to themselves.
func distinctRef(t *Term) bool {
	switch t.K {
	case KAddr, KMap, KChan, KDyn, KSlice:
		return true
	case KIface:
		return false
	}
	return t.isOp("err.global") || t.isOp("errorf") || t.isOp("errnew")
}

func (f *Facts) errIs(e, target *Term) int {
	e, target = f.norm(e), f.norm(target)
	if e == target {
		return 1
	}
	if e.K == KNil || f.eval(mkIsNil(e)) == 1 {
		if target.K == KNil {
			return 1
		}
		return 0
	}
	if v, ok := f.lits[mkOp("errIs", types.Typ[types.Bool], e, target)]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch {
	case e.isOp("err.global") && target.isOp("err.global"):
		return 0
	case e.isOp("errnew"):
		return 0
	case e.isOp("errorf"):
		// Args: wrapped errors.
		un := false
		for _, w := range e.Args[1:] {
			switch f.errIs(w, target) {
			case 1:
				return 1
			case -1:
				un = true
			}
		}
		if un {
			return -1
		}
		return 0
	}
	return -1
}

// assume adds a literal; ok is false if it contradicts the known facts.
func (f *Facts) assume(t *Term, truth bool) (*Facts, bool) {
	t = f.norm(t)
	switch f.eval(t) {
	case 1:
		return f, truth
	case 0:
		return f, !truth
	}
	g := f.clone()
	ok := g.add(t, truth)
	return g, ok
}

func (f *Facts) add(t *Term, truth bool) bool {
	if t.isOp("not") {
		return f.add(t.Args[0], !truth)
	}
	switch f.eval(t) {
	case 1:
		return truth
	case 0:
		return !truth
	}
	f.lits[t] = truth
	f.list = append(f.list, lit{t, truth})
	if t.K != KOp {
		return true
	}
	switch t.Op {
	case "ge0":
		p, s, c := toLin(t.Args[0]).canonical()
		b := f.bounds(p)
		if s > 0 == truth {
			// p >= -c   or (s<0, false) p > c
			lo := -c
			if s < 0 {
				lo = c + 1
			}
			if lo > b.lo {
				b.lo = lo
			}
		} else {
			// p <= c (s<0,true) or (s>0,false) p < -c
			hi := c
			if s > 0 {
				hi = -c - 1
			}
			if hi < b.hi {
				b.hi = hi
			}
		}
		if b.lo > b.hi {
			return false
		}
		f.iv[p] = b
		return f.propagateLen(p)
	case "eq0":
		p, s, c := toLin(t.Args[0]).canonical()
		v := -c * s
		if truth {
			b := f.bounds(p)
			if v < b.lo || v > b.hi {
				return false
			}
			f.iv[p] = interval{v, v}
			if p.K != KLin {
				f.rep[p] = mkConst(constant.MakeInt64(v), p.T)
				if p.isOp("len") && v == 0 && isStringy(p.Args[0].T) {
					if p.Args[0].K != KConst {
						f.rep[p.Args[0]] = mkStr("")
					}
				}
			} else if v == 0 && len(p.Args) == 2 && p.Co[0] == -p.Co[1] {
				f.union(p.Args[0], p.Args[1])
			}
			return true
		}
		f.ne[p] = append(append([]int64{}, f.ne[p]...), v)
		b := f.bounds(p)
		return b.lo <= b.hi
	case "eq":
		if truth {
			a, b := t.Args[0], t.Args[1]
			if !f.union(a, b) {
				return false
			}
			if isStringy(a.T) || isStringy(b.T) {
				x, y := f.bounds(mkLen(a)), f.bounds(mkLen(b))
				if y.lo > x.lo {
					x.lo = y.lo
				}
				if y.hi < x.hi {
					x.hi = y.hi
				}
				if x.lo > x.hi {
					return false
				}
				r := f.find(a)
				if r.K != KConst {
					f.iv[mkLen(r)] = x
				}
			}
			if nonNil(a) || nonNil(b) {
				for _, q := range []*Term{a, b} {
					if !nonNil(q) {
						f.lits[mkIsNil(q)] = false
					}
				}
			}
		}
	case "isnil":
		if truth {
			a := t.Args[0]
			if a.T != nil {
				if _, ok := a.T.Underlying().(*types.Slice); ok {
					b := f.bounds(mkLen(a))
					if b.lo > 0 {
						return false
					}
					f.iv[mkLen(a)] = interval{0, 0}
					f.rep[mkLen(a)] = mkInt(0)
					// Relations with the length that are now contradictory.
					for _, l := range f.list {
						if l.t.isOp("ge0") && mentionsTerm(l.t, mkLen(a)) {
							if v := f.evalArith(l.t); v >= 0 && (v == 1) != l.truth {
								return false
							}
						}
					}
				}
			}
			f.rep[a] = mkNil(nil)
		}
	case "errIs":
		if truth {
			if n := mkIsNil(t.Args[0]); n.K == KOp {
				if !f.add(n, false) {
					return false
				}
			}
		}
		// What is known about an error is known about the one it wraps.
		if e := t.Args[0]; e.isOp("errorf") {
			var un []*Term
			for _, w := range e.Args[1:] {
				l := f.norm(mkOp("errIs", types.Typ[types.Bool], f.norm(w), t.Args[1]))
				switch f.eval(l) {
				case 1:
					return truth
				case -1:
					un = append(un, l)
				}
			}
			if truth && len(un) == 1 || !truth {
				for _, l := range un {
					if !f.add(l, truth) {
						return false
					}
				}
			}
		}
	}
	return true
}

func mentionsTerm(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.Args {
		if mentionsTerm(a, v) {
			return true
		}
	}
	return false
}

// evalArith evaluates an inequality by intervals only.
func (f *Facts) evalArith(t *Term) int {
	n := f.norm(t)
	if n == t || !n.isOp("ge0") {
		if b, ok := n.boolConst(); ok {
			if b {
				return 1
			}
			return 0
		}
		return -1
	}
	return f.eval(n)
}

func (f *Facts) propagateLen(p *Term) bool {
	if p.isOp("len") && isStringy(p.Args[0].T) {
		b := f.bounds(p)
		if b.lo == 0 && b.hi == 0 && p.Args[0].K != KConst {
			f.rep[p.Args[0]] = mkStr("")
		}
	}
	b := f.bounds(p)
	if b.lo == b.hi && p.K != KLin && p.K != KConst {
		f.rep[p] = mkConst(constant.MakeInt64(b.lo), p.T)
	}
	return true
}

func repRank(t *Term) int {
	switch {
	case t.K == KConst || t.K == KNil:
		return 3
	case t.isOp("err.global") || t.isOp("errnew"):
		return 2
	case t.K == KSym:
		return 1
	}
	return 0
}

func (f *Facts) union(a, b *Term) bool {
	a, b = f.find(a), f.find(b)
	if a == b {
		return true
	}
	if repRank(a) < repRank(b) || repRank(a) == repRank(b) && a.id > b.id {
		a, b = b, a
	}
	if repRank(b) == 3 || (repRank(b) == 2 && repRank(a) >= 2) {
		return false
	}
	if v, ok := f.lits[mkIsNil(b)]; ok && a.K != KNil {
		if n := mkIsNil(a); n.K == KOp {
			if w, ok := f.lits[n]; ok && w != v {
				return false
			}
			f.lits[n] = v
		} else if c, _ := n.boolConst(); c != v {
			return false
		}
	}
	f.rep[b] = a
	return true
}
