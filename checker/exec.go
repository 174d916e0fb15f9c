package main

// Interprocedural, path-sensitive forward dataflow over SSA. Repository code
// (and small helper packages) is analysed by inlining; everything else goes
// through a model or becomes an opaque event with fresh results. Nothing is
// executed: values are abstract terms and branches are pruned only by the fact
// domain in facts.go.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokEQL = token.EQL

type Model func(c *CallCtx) []Ret

type CallCtx struct {
	x    *Exec
	st   State
	f    *Frame
	site ssa.Instruction
	name string
	sig  *types.Signature
	args []*Term // receiver first for methods
	pos  token.Pos
}

type Exec struct {
	prog      *Program
	nobj      int
	nsym      int
	nloop     int
	globals   map[*ssa.Global]int
	gname     map[int]*ssa.Global
	opaque    map[string]bool              // full names of functions to treat as events
	hook      func(pkg, name string) Model // models that take precedence during an exploration
	visited   map[*ssa.Function]int
	sites     map[token.Pos]bool
	paths     int
	maxPath   int
	limit     bool
	notes     map[string]int
	base      State
	promReg   map[*Term]bool // metrics registered with the default registry
	pubs      map[string][]Ret
	schema    *Schema
	apiModel  *apiModel
	schemaRep *schemaReport
	gobTypes  map[string]bool
	recs      map[*Term]*RecInfo
	collected map[*Term]*collected
	watch     *watcher
	loopMark  int // objects up to this one exist before the current iteration
}

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	fv     []*Term
	args   []*Term
	depth  int
	loops  *loopInfo
	spawn  bool
}

type env map[ssa.Value]*Term

type path struct {
	st     State
	env    env
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []*deferred
}

type deferred struct {
	call *ssa.CallCommon
	site ssa.Instruction
	fn   *Term
	args []*Term
}

func (p path) fork() path {
	e := make(env, len(p.env)+4)
	for k, v := range p.env {
		e[k] = v
	}
	p.env = e
	p.defers = p.defers[:len(p.defers):len(p.defers)]
	return p
}

type region struct {
	loop      *natLoop
	backs     []path
	exits     []path
	concrete  bool
	undecided bool
}

func newExec(pr *Program) *Exec {
	return &Exec{prog: pr, globals: map[*ssa.Global]int{}, gname: map[int]*ssa.Global{}, opaque: map[string]bool{},
		visited: map[*ssa.Function]int{}, sites: map[token.Pos]bool{}, maxPath: 400000, notes: map[string]int{}, pubs: map[string][]Ret{}, recs: map[*Term]*RecInfo{}, collected: map[*Term]*collected{}, gobTypes: map[string]bool{}}
}

func (x *Exec) newObj(st *State, T types.Type, val *Term, name string, pos token.Pos) *Term {
	x.nobj++
	st.heap = st.heap.set(x.nobj, &Obj{ID: x.nobj, T: T, Val: val, Name: name, Pos: pos})
	return intern(Term{K: KAddr, Obj: x.nobj, T: types.NewPointer(T)})
}

func (x *Exec) sym(name string, T types.Type) *Term {
	x.nsym++
	return intern(Term{K: KSym, Op: fmt.Sprintf("%s#%d", name, x.nsym), T: T})
}

// named returns a symbol with a fixed name (parameters of an entry point).
func (x *Exec) named(name string, T types.Type) *Term {
	// Parameters of the same name but another type are different.
	id, ok := symTypes[typeKey(T)]
	if !ok {
		id = len(symTypes) + 1
		symTypes[typeKey(T)] = id
	}
	return intern(Term{K: KSym, Op: name, Obj: id, T: T})
}

var symTypes = map[string]int{}

func isTime(t types.Type) bool { return t != nil && typeKey(t) == "time.Time" }

func (x *Exec) zero(T types.Type) *Term {
	if T == nil {
		return mkNil(nil)
	}
	if isTime(T) {
		return mkOp("timezero", T)
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), T)
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), T)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), T)
		case u.Info()&types.IsComplex != 0:
			return mkOp("zero", T)
		}
		return mkNil(T)
	case *types.Struct:
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = x.zero(u.Field(i).Type())
		}
		return intern(Term{K: KStruct, T: T, Args: as})
	case *types.Array:
		if u.Len() <= 64 {
			as := make([]*Term, u.Len())
			for i := range as {
				as[i] = x.zero(u.Elem())
			}
			return intern(Term{K: KArray, T: T, Args: as})
		}
		return mkOp("zeroarray", T)
	case *types.Tuple:
		as := make([]*Term, u.Len())
		for i := range as {
			as[i] = x.zero(u.At(i).Type())
		}
		return mkTuple(as...)
	}
	return mkNil(T)
}

func mkTuple(as ...*Term) *Term { return intern(Term{K: KTuple, Args: as}) }

// ---- memory -------------------------------------------------------------------

// cell returns the object a pointer-like term denotes, materialising it lazily.
func (x *Exec) cell(st *State, p *Term) *Obj {
	switch p.K {
	case KAddr, KSlice, KDyn, KMap, KChan:
		if o := st.heap.get(p.Obj); o != nil {
			return o
		}
		return &Obj{ID: p.Obj, T: derefType(p.T), Val: mkOp("lost", derefType(p.T), p)}
	}
	id := -p.id
	if o := st.heap.get(id); o != nil {
		return o
	}
	el := derefType(p.T)
	o := &Obj{ID: id, T: el, Val: mkOp("deref", el, p), Lazy: p}
	st.heap = st.heap.set(id, o)
	return o
}

func mkField(v *Term, i int) *Term {
	if v.K == KStruct && i < len(v.Args) {
		return v.Args[i]
	}
	var ft types.Type
	if s := structOf(v.T); s != nil && i < s.NumFields() {
		ft = s.Field(i).Type()
	}
	return intern(Term{K: KOp, Op: "field", N: i, Args: []*Term{v}, T: ft})
}

func withField(v *Term, i int, nv *Term, T types.Type) *Term {
	s := structOf(T)
	if s == nil {
		s = structOf(v.T)
	}
	if s == nil {
		return mkOp("with", T, v, mkInt(int64(i)), nv)
	}
	as := make([]*Term, s.NumFields())
	for k := range as {
		as[k] = mkField(v, k)
	}
	as[i] = nv
	return intern(Term{K: KStruct, T: T, Args: as})
}

func (x *Exec) load(st *State, p *Term) *Term {
	switch p.K {
	case KFieldAd:
		return mkField(x.load(st, p.Args[0]), p.N)
	case KIndexAd:
		return x.loadIndex(st, p.Args[0], p.Args[1])
	case KNil:
		return mkOp("nilload", nil)
	}
	return x.cell(st, p).Val
}

func elemType(T types.Type) types.Type {
	if T == nil {
		return nil
	}
	switch u := T.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (x *Exec) loadIndex(st *State, base, idx *Term) *Term {
	idx = st.facts.norm(idx)
	switch base.K {
	case KSlice:
		arr := x.cell(st, base).Val
		if i, ok := idx.intConst(); ok && arr.K == KArray && int(i)+base.N < len(arr.Args) && i >= 0 {
			return arr.Args[int(i)+base.N]
		}
		if base.N == 0 {
			return mkOp("index", elemType(base.T), arr, idx)
		}
		return mkOp("index", elemType(base.T), arr, toLin(idx).add(lin{c: int64(base.N)}, 1).term(idx.T))
	case KAddr, KFieldAd:
		arr := x.load(st, base)
		return x.indexVal(arr, idx)
	}
	o := x.cell(st, base)
	if v := o.get(idx); v != nil {
		return v
	}
	ver := len(o.Ent)
	if base.K == KDyn && ver > 0 || base.K != KDyn && ver > 0 {
		return mkOp("index", elemType(base.T), base, idx, mkInt(int64(ver)))
	}
	return mkOp("index", elemType(base.T), base, idx)
}

func (x *Exec) indexVal(arr, idx *Term) *Term {
	if i, ok := idx.intConst(); ok && arr.K == KArray && i >= 0 && int(i) < len(arr.Args) {
		return arr.Args[i]
	}
	if s, ok := arr.strConst(); ok {
		if i, ok := idx.intConst(); ok && i >= 0 && int(i) < len(s) {
			return mkConst(constant.MakeInt64(int64(s[i])), types.Typ[types.Uint8])
		}
	}
	return mkOp("index", elemType(arr.T), arr, idx)
}

func (x *Exec) store(st *State, p, v *Term) {
	switch p.K {
	case KFieldAd:
		b := p.Args[0]
		x.store(st, b, withField(x.load(st, b), p.N, v, derefType(b.T)))
		return
	case KIndexAd:
		base, idx := p.Args[0], st.facts.norm(p.Args[1])
		switch base.K {
		case KAddr, KFieldAd:
			arr := x.load(st, base)
			x.store(st, base, x.withIndex(arr, idx, v))
		case KSlice:
			o := x.cell(st, base)
			n := *o
			if i, ok := idx.intConst(); ok {
				n.Val = x.withIndex(o.Val, mkInt(i+int64(base.N)), v)
			} else {
				n.Val = x.withIndex(o.Val, idx, v)
			}
			st.heap = st.heap.set(o.ID, &n)
		default:
			o := x.cell(st, base)
			st.heap = st.heap.set(o.ID, o.with(idx, v))
			st.event(&Event{Kind: "storeelem", Args: []*Term{base, idx, v}})
		}
		return
	case KNil:
		return
	}
	o := x.cell(st, p)
	if o.Val == v {
		return
	}
	n := *o
	n.Val = v
	st.heap = st.heap.set(o.ID, &n)
}

func (x *Exec) withIndex(arr, idx, v *Term) *Term {
	if arr.K == KArray {
		as := append([]*Term{}, arr.Args...)
		if i, ok := idx.intConst(); ok {
			if i >= 0 && int(i) < len(as) {
				as[i] = v
			}
		} else {
			for k := range as {
				as[k] = mkOp("maybe", as[k].T, as[k], idx, v, mkInt(int64(k)))
			}
		}
		return intern(Term{K: KArray, T: arr.T, Args: as})
	}
	return mkOp("withindex", arr.T, arr, idx, v)
}

// elems returns the elements of a slice with a known length.
func (x *Exec) elems(st *State, s *Term) ([]*Term, bool) {
	switch s.K {
	case KNil:
		return nil, true
	case KSlice:
		a := x.cell(st, s).Val
		if a.K == KArray && s.Hi <= len(a.Args) {
			return a.Args[s.N:s.Hi], true
		}
	case KIface:
		return x.elems(st, s.Args[0])
	}
	return nil, false
}

func (x *Exec) mkSlice(st *State, T types.Type, el []*Term) *Term {
	var et types.Type = types.NewInterfaceType(nil, nil)
	if e := elemType(T); e != nil {
		et = e
	}
	at := types.NewArray(et, int64(len(el)))
	a := x.newObj(st, at, intern(Term{K: KArray, T: at, Args: append([]*Term{}, el...)}), "slice", token.NoPos)
	return intern(Term{K: KSlice, Obj: a.Obj, N: 0, Hi: len(el), T: T})
}

func (x *Exec) lenOf(st *State, s *Term) *Term {
	if s.K == KDyn {
		return x.cell(st, s).Val
	}
	if s.K == KMap {
		return mkOp("len", types.Typ[types.Int], s, mkInt(int64(len(x.cell(st, s).Ent))))
	}
	return mkLen(s)
}

// havoc replaces the content of the pointee with an opaque value.
func (x *Exec) havoc(st *State, p *Term, why string) *Term {
	for p.K == KIface {
		p = p.Args[0]
	}
	switch p.K {
	case KAddr, KFieldAd, KIndexAd, KSym, KOp:
		el := derefType(p.T)
		if el == nil {
			return nil
		}
		v := x.sym(why, el)
		x.store(st, p, v)
		return v
	case KSlice, KDyn, KMap:
		o := x.cell(st, p)
		n := *o
		n.Val = x.sym(why, o.T)
		n.Ent = nil
		st.heap = st.heap.set(o.ID, &n)
		return n.Val
	}
	return nil
}

// ---- globals -------------------------------------------------------------------

func (x *Exec) globalAddr(st *State, g *ssa.Global) *Term {
	id, ok := x.globals[g]
	if !ok {
		x.nobj++
		id = x.nobj
		x.globals[g] = id
		x.gname[id] = g
	}
	el := derefType(g.Type())
	if st.heap.get(id) == nil {
		var v *Term
		full := g.Pkg.Pkg.Path() + "." + g.Name()
		switch {
		case x.prog.isRepo(g.Pkg.Pkg) && !x.prog.mutableGlobal[g]:
			v = x.zero(el)
		case types.Identical(el, types.Universe.Lookup("error").Type()):
			v = mkOp("err.global", el, mkStr(full))
		default:
			v = x.named("global:"+full, el)
		}
		st.heap = st.heap.set(id, &Obj{ID: id, T: el, Val: v, Name: full})
	}
	return intern(Term{K: KAddr, Obj: id, T: g.Type()})
}

// initGlobals abstractly evaluates the package initialisers of the repository.
func (x *Exec) initGlobals() error {
	st := State{facts: newFacts()}
	for _, p := range x.prog.repoPkgs {
		f := p.Func("init")
		if f == nil {
			continue
		}
		rets := x.callFn(st, f, nil, nil, nil, nil)
		if len(rets) != 1 {
			return fmt.Errorf("package initialiser of %s has %d outcomes", p.Pkg.Path(), len(rets))
		}
		st = rets[0].St
	}
	x.promReg = map[*Term]bool{}
	for _, e := range st.events() {
		if e.Kind == "prom.register" {
			for _, m := range e.Args {
				x.promReg[m] = true
			}
		}
	}
	st.ev = nil
	// Mutable globals hold unknown values at run time.
	for g := range x.prog.mutableGlobal {
		if id, ok := x.globals[g]; ok {
			o := *st.heap.get(id)
			o.Val = x.named("global:"+o.Name, o.T)
			st.heap = st.heap.set(id, &o)
		}
	}
	x.base = st
	return nil
}

// ---- running ---------------------------------------------------------------------

func (x *Exec) note(s string) {
	x.notes[s]++
}

var debugCalls = os.Getenv("RC_DEBUG") != ""

func (x *Exec) callFn(st State, fn *ssa.Function, args, fv []*Term, parent *Frame, site ssa.Instruction) []Ret {
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	for f := parent; f != nil; f = f.parent {
		if f.fn == fn {
			if sameArgs(f.args, args) || depth > 30 {
				return x.recursion(st, fn, args, f, site)
			}
			// Allow re-entry with different arguments once.
			n := 0
			for g := parent; g != nil; g = g.parent {
				if g.fn == fn {
					n++
				}
			}
			if n >= 2 || !strings.Contains(fn.Name(), "$") {
				return x.recursion(st, fn, args, f, site)
			}
			break
		}
	}
	if depth > 60 {
		x.note("inline depth exceeded at " + fn.String())
		x.limit = true
		return []Ret{{St: st, V: x.freshResults("deep", fn.Signature)}}
	}
	x.visited[fn]++
	f := &Frame{fn: fn, parent: parent, fv: fv, args: args, depth: depth, loops: x.prog.loopsOf(fn)}
	p := path{st: st, env: env{}, blk: fn.Blocks[0]}
	for i, a := range fn.Params {
		if i < len(args) {
			p.env[a] = args[i]
		} else {
			p.env[a] = x.sym("arg", a.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(fv) {
			p.env[v] = fv[i]
		} else {
			p.env[v] = x.sym("freevar:"+v.Name(), v.Type())
		}
	}
	return x.run(f, []path{p}, nil)
}

func sameArgs(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// recursion: the recursive call is summarised coinductively as an event.
func (x *Exec) recursion(st State, fn *ssa.Function, args []*Term, outer *Frame, site ssa.Instruction) []Ret {
	res := x.freshResults("recurse:"+fn.Name(), fn.Signature)
	e := &Event{Kind: "recurse", Name: fn.String(), Args: args, Fn: fn, Site: site, Tag: outer}
	if site != nil {
		e.Pos = site.Pos()
	}
	if res != nil && res.K == KTuple {
		e.Res = res.Args
	} else if res != nil {
		e.Res = []*Term{res}
	}
	st.event(e)
	return []Ret{{St: st, V: res}}
}

func (x *Exec) freshResults(name string, sig *types.Signature) *Term {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return x.sym(name, r.At(0).Type())
	}
	as := make([]*Term, r.Len())
	for i := range as {
		as[i] = x.sym(fmt.Sprintf("%s.%d", name, i), r.At(i).Type())
	}
	return mkTuple(as...)
}

// run explores the paths from ps. With a region, paths reaching the loop header
// again are collected in region.backs and paths leaving the loop in exits.
func (x *Exec) run(f *Frame, ps []path, rg *region) []Ret {
	var rets []Ret
	work := append([]path{}, ps...)
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if rg != nil && rg.concrete && rg.undecided {
			return nil
		}
		if p.prev != nil && rg != nil {
			if p.blk == rg.loop.header {
				rg.backs = append(rg.backs, p)
				continue
			}
			if !rg.loop.blocks[p.blk] {
				rg.exits = append(rg.exits, p)
				continue
			}
		}
		// Entering a (nested) loop?
		if l := f.loops.heads[p.blk]; l != nil && !(rg != nil && rg.loop == l && p.prev == nil) {
			if p.prev == nil || !l.blocks[p.prev] {
				r, exits := x.loop(f, p, l)
				rets = append(rets, r...)
				work = append(work, exits...)
				continue
			}
		}
		r, next := x.block(f, p, rg)
		rets = append(rets, r...)
		work = append(work, next...)
		if x.paths > x.maxPath {
			x.limit = true
			x.note("path budget exceeded in " + f.fn.String())
			return rets
		}
	}
	return rets
}

func (x *Exec) phis(p *path) {
	// Evaluate all phis of the block simultaneously.
	var vals []*Term
	var ph []*ssa.Phi
	idx := -1
	for i, q := range p.blk.Preds {
		if q == p.prev {
			idx = i
		}
	}
	for _, in := range p.blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 {
			continue
		}
		ph = append(ph, phi)
		vals = append(vals, x.val(p, phi.Edges[idx]))
	}
	for i, phi := range ph {
		p.env[phi] = vals[i]
	}
}

// block executes one basic block.
func (x *Exec) block(f *Frame, p path, rg *region) (rets []Ret, next []path) {
	if p.prev != nil {
		x.phis(&p)
	}
	return x.instrs(f, p, 0, rg)
}

func (x *Exec) instrs(f *Frame, p path, i int, rg *region) (rets []Ret, next []path) {
	for ; i < len(p.blk.Instrs); i++ {
		in := p.blk.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			p.prev, p.blk = p.blk, p.blk.Succs[0]
			return rets, append(next, p)
		case *ssa.If:
			c := x.val(&p, in.Cond)
			k := p.st.known(c)
			if k < 0 && rg != nil && rg.concrete && p.blk == rg.loop.header {
				rg.undecided = true
				return nil, nil
			}
			t, e := p.blk.Succs[0], p.blk.Succs[1]
			if k == 1 || k == 0 {
				if k == 0 {
					t = e
				}
				p.prev, p.blk = p.blk, t
				return rets, append(next, p)
			}
			x.paths++
			b := p.blk
			q := p.fork()
			if q.st.assume(c, false) {
				q.prev, q.blk = b, e
				next = append(next, q)
			}
			if p.st.assume(c, true) {
				p.prev, p.blk = b, t
				next = append(next, p)
			}
			return rets, next
		case *ssa.Return:
			var v *Term
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.val(&p, in.Results[0])
			default:
				as := make([]*Term, len(in.Results))
				for k, r := range in.Results {
					as[k] = x.val(&p, r)
				}
				v = mkTuple(as...)
			}
			return append(rets, Ret{St: p.st, V: v}), next
		case *ssa.Panic:
			p.st.event(&Event{Kind: "panic", Args: []*Term{x.val(&p, in.X)}, Pos: in.Pos(), Fn: f.fn})
			return append(rets, x.unwind(f, p, x.val(&p, in.X))...), next
		case *ssa.RunDefers:
			ds := p.defers
			p.defers = nil
			outs := x.runDefers(f, p.st, ds)
			for k, o := range outs {
				if o.Panic || o.Exit {
					rets = append(rets, o)
					continue
				}
				q := p
				if k < len(outs)-1 {
					q = p.fork()
				}
				q.st = o.St
				r, n := x.instrs(f, q, i+1, rg)
				rets = append(rets, r...)
				next = append(next, n...)
			}
			return rets, next
		case *ssa.Defer:
			d := &deferred{call: &in.Call, site: in}
			d.fn, d.args = x.callee(&p, &in.Call)
			p.defers = append(p.defers, d)
		case *ssa.Go:
			fn, args := x.callee(&p, &in.Call)
			x.spawn(f, &p.st, in, &in.Call, fn, args, "go", nil)
		case *ssa.Call:
			fn, args := x.callee(&p, &in.Call)
			outs := x.dispatch(f, p.st, in, &in.Call, fn, args)
			if len(outs) == 1 && !outs[0].Panic && !outs[0].Exit {
				p.st = outs[0].St
				p.env[in] = outs[0].V
				continue
			}
			for k, o := range outs {
				if o.Exit {
					rets = append(rets, o)
					continue
				}
				q := p
				if k < len(outs)-1 {
					q = p.fork()
				}
				q.st = o.St
				if o.Panic {
					rets = append(rets, x.unwind(f, q, o.PanicV)...)
					continue
				}
				q.env[in] = o.V
				r, n := x.instrs(f, q, i+1, rg)
				rets = append(rets, r...)
				next = append(next, n...)
			}
			return rets, next
		case *ssa.Store:
			addr := x.val(&p, in.Addr)
			if x.derefCheck(f, &p.st, addr, in.Pos()) {
				return append(rets, x.unwind(f, p, mkOp("nilderef", nil, addr))...), next
			}
			x.touch(f, &p.st, addr, true, false, in.Pos())
			x.store(&p.st, addr, x.val(&p, in.Val))
		case *ssa.MapUpdate:
			m, k, v := x.val(&p, in.Map), p.st.facts.norm(x.val(&p, in.Key)), x.val(&p, in.Value)
			if m.K == KNil {
				return append(rets, x.unwind(f, p, mkOp("nilmap", nil))...), next
			}
			if n := mkIsNil(m); m.K != KMap && p.st.known(n) < 0 && !trustedPtr(m) {
				p.st.event(&Event{Kind: "nilderef", Args: []*Term{m}, Pos: in.Pos(), Fn: f.fn, Name: "possible nil map"})
			}
			x.touch(f, &p.st, m, true, false, in.Pos())
			o := x.cell(&p.st, m)
			p.st.heap = p.st.heap.set(o.ID, o.with(k, v))
		case *ssa.Send:
			p.st.event(&Event{Kind: "chan.send", Args: []*Term{x.val(&p, in.Chan), x.val(&p, in.X)}, Pos: in.Pos(), Fn: f.fn, Site: in})
		case *ssa.Select:
			if rg != nil && rg.concrete && p.blk == rg.loop.header {
				rg.undecided = true
				return nil, nil
			}
			n := len(in.States)
			for k := -1; k < n; k++ {
				if k < 0 && in.Blocking {
					continue
				}
				q := p.fork()
				tup := []*Term{mkInt(int64(k)), x.sym("recvOk", types.Typ[types.Bool])}
				e := &Event{Kind: "select", Pos: in.Pos(), Fn: f.fn, Site: in}
				for j, s := range in.States {
					ch := x.val(&p, s.Chan)
					if s.Dir == types.RecvOnly {
						v := x.sym("recv", elemType(s.Chan.Type()))
						tup = append(tup, v)
						if j == k {
							e.Name = "recv"
							e.Args = []*Term{ch}
							e.Res = []*Term{v}
						}
					} else if j == k {
						e.Name = "send"
						e.Args = []*Term{ch, x.val(&p, s.Send)}
					}
				}
				if k < 0 {
					e.Name = "default"
				} else if e.Args[0].K == KNil {
					continue // never ready
				}
				var all []*Term
				for _, s := range in.States {
					all = append(all, x.val(&p, s.Chan))
				}
				e.Tag = all
				q.st.event(e)
				q.env[in] = mkTuple(tup...)
				x.paths++
				r, nx := x.instrs(f, q, i+1, rg)
				rets = append(rets, r...)
				next = append(next, nx...)
			}
			return rets, next
		case *ssa.TypeAssert:
			v := x.val(&p, in.X)
			outs := x.typeAssert(f, &p, in, v)
			if outs == nil {
				return append(rets, x.unwind(f, p, mkOp("badassert", nil, v))...), next
			}
			if len(outs) == 1 {
				p = outs[0]
				continue
			}
			for _, q := range outs {
				r, n := x.instrs(f, q, i+1, rg)
				rets = append(rets, r...)
				next = append(next, n...)
			}
			return rets, next
		case *ssa.UnOp:
			if in.Op == token.MUL {
				addr := x.val(&p, in.X)
				if x.derefCheck(f, &p.st, addr, in.Pos()) {
					return append(rets, x.unwind(f, p, mkOp("nilderef", nil, addr))...), next
				}
			}
			if in.Op == token.MUL {
				x.touch(f, &p.st, x.val(&p, in.X), false, false, in.Pos())
				if outs := x.element(&p.st, x.val(&p, in.X)); len(outs) > 0 {
					for _, o := range outs {
						q := p.fork()
						q.st = o.St
						q.env[in] = o.V
						r, n := x.instrs(f, q, i+1, rg)
						rets = append(rets, r...)
						next = append(next, n...)
					}
					return rets, next
				}
			}
			p.env[in] = x.unop(f, &p, in)
			if in.Op == token.MUL && x.watch != nil {
				x.loaded(&p.st, x.val(&p, in.X), p.env[in])
			}
		case *ssa.FieldAddr:
			b := x.val(&p, in.X)
			if x.derefCheck(f, &p.st, b, in.Pos()) {
				return append(rets, x.unwind(f, p, mkOp("nilderef", nil, b))...), next
			}
			p.env[in] = intern(Term{K: KFieldAd, Args: []*Term{b}, N: in.Field, T: in.Type()})
		case *ssa.Lookup:
			if outs := x.lookups(f, &p, in); len(outs) > 0 {
				for _, o := range outs {
					q := p.fork()
					q.st = o.St
					q.env[in] = o.V
					r, n := x.instrs(f, q, i+1, rg)
					rets = append(rets, r...)
					next = append(next, n...)
				}
				return rets, next
			}
			p.env[in] = x.value(f, &p, in)
		case ssa.Value:
			p.env[in] = x.value(f, &p, in)
		default:
			x.note(fmt.Sprintf("unsupported instruction %T in %s", in, f.fn))
			x.limit = true
		}
	}
	return rets, next
}

// derefCheck records possible nil dereferences; it returns true if the pointer
// is definitely nil.
func (x *Exec) derefCheck(f *Frame, st *State, p *Term, pos token.Pos) bool {
	p = st.facts.norm(p)
	switch p.K {
	case KAddr, KFieldAd, KIndexAd:
		return false
	case KNil:
		st.event(&Event{Kind: "nilderef", Args: []*Term{p}, Pos: pos, Fn: f.fn, Name: "definite"})
		return true
	}
	n := mkIsNil(p)
	switch st.known(n) {
	case 1:
		st.event(&Event{Kind: "nilderef", Args: []*Term{p}, Pos: pos, Fn: f.fn, Name: "definite"})
		return true
	case -1:
		if !trustedPtr(p) {
			st.event(&Event{Kind: "nilderef", Args: []*Term{p}, Pos: pos, Fn: f.fn, Name: "possible"})
		}
		st.assume(n, false)
	}
	return false
}

// boundsCheck records accesses to elements that are not known to exist.
func (x *Exec) boundsCheck(f *Frame, st *State, b, i *Term, pos token.Pos) {
	i = st.facts.norm(i)
	var n *Term
	switch {
	case b.T != nil && isArray(b.T):
		n = mkInt(arrayLen(b.T))
	case b.K == KSlice:
		n = mkInt(int64(b.Hi - b.N))
	case b.K == KNil:
		n = mkInt(0)
	default:
		n = x.lenOf(st, b)
	}
	n = st.facts.norm(n)
	if st.isTrue(mkGe0(toLin(i))) && st.isTrue(mkGe0(toLin(n).add(toLin(i), -1).add(lin{c: 1}, -1))) {
		return
	}
	st.event(&Event{Kind: "outofrange", Args: []*Term{b, i, n}, Pos: pos, Fn: f.fn, Name: "index"})
}

func isArray(T types.Type) bool { return arrayLen(T) >= 0 }

func arrayLen(T types.Type) int64 {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	if a, ok := T.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func (x *Exec) sliceCheck(f *Frame, st *State, p *path, in *ssa.Slice) {
	b := x.val(p, in.X)
	lo, hi := lin{}, lin{}
	if in.Low != nil {
		lo = toLin(st.facts.norm(x.val(p, in.Low)))
	}
	var n *Term
	switch {
	case b.T != nil && isArray(b.T):
		n = mkInt(arrayLen(b.T))
	case b.K == KSlice:
		n = mkInt(int64(b.Hi - b.N))
	case b.K == KNil:
		n = mkInt(0)
	default:
		n = x.lenOf(st, b)
	}
	l := toLin(st.facts.norm(n))
	hi = l
	if in.High != nil {
		hi = toLin(st.facts.norm(x.val(p, in.High)))
	}
	if st.isTrue(mkGe0(lo)) && st.isTrue(mkGe0(hi.add(lo, -1))) && st.isTrue(mkGe0(l.add(hi, -1))) {
		return
	}
	st.event(&Event{Kind: "outofrange", Args: []*Term{b, lo.term(types.Typ[types.Int]), hi.term(types.Typ[types.Int])}, Pos: in.Pos(), Fn: f.fn, Name: "slice"})
}

// trustedPtr: receivers, entry parameters and singletons assumed non-nil.
func trustedPtr(p *Term) bool {
	if p.K == KSym {
		return !strings.HasPrefix(p.Op, "in:")
	}
	return false
}

func (x *Exec) runDefers(f *Frame, st State, ds []*deferred) []Ret {
	outs := []Ret{{St: st}}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var nx []Ret
		for _, o := range outs {
			if o.Exit {
				nx = append(nx, o)
				continue
			}
			for _, r := range x.dispatch(f, o.St, d.site, d.call, d.fn, d.args) {
				r.V = nil
				if !r.Panic && o.Panic {
					r.Panic, r.PanicV = true, o.PanicV
				}
				nx = append(nx, r)
			}
		}
		outs = nx
	}
	return outs
}

func (x *Exec) unwind(f *Frame, p path, v *Term) []Ret {
	outs := x.runDefers(f, p.st, p.defers)
	for i := range outs {
		if !outs[i].Exit && !outs[i].Panic {
			outs[i].Panic = true
			outs[i].PanicV = v
		}
	}
	return outs
}

func (x *Exec) val(p *path, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.zero(v.Type())
		}
		t := v.Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkConst(constant.ToFloat(v.Value), t)
		}
		return mkConst(v.Value, t)
	case *ssa.Function:
		return intern(Term{K: KFunc, Fn: v, T: v.Type()})
	case *ssa.Global:
		return x.globalAddr(&p.st, v)
	case *ssa.Builtin:
		return intern(Term{K: KOp, Op: "builtin:" + v.Name()})
	}
	if t, ok := p.env[v]; ok {
		if t == nil {
			return mkTuple()
		}
		return t
	}
	x.note("unbound value " + v.Name() + " in " + v.Parent().String())
	return x.sym("unbound:"+v.Name(), v.Type())
}

func (x *Exec) value(f *Frame, p *path, in ssa.Value) *Term {
	st := &p.st
	switch in := in.(type) {
	case *ssa.Alloc:
		el := derefType(in.Type())
		a := x.newObj(st, el, x.zero(el), in.Comment, in.Pos())
		if isBuilder(el) {
			x.setAttr(st, a, "text", mkStr(""))
		}
		return a
	case *ssa.BinOp:
		return x.binop(st, in.Op, x.val(p, in.X), x.val(p, in.Y), in.Type(), in.X.Type())
	case *ssa.ChangeInterface:
		return x.val(p, in.X)
	case *ssa.ChangeType:
		v := x.val(p, in.X)
		if v.K == KSym || v.K == KOp || v.K == KStruct {
			return retype(v, in.Type())
		}
		if v.K == KSlice || v.K == KDyn || v.K == KMap || v.K == KAddr {
			n := *v
			n.T = in.Type()
			_ = n
		}
		return v
	case *ssa.Convert:
		return x.convert(st, x.val(p, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return x.convert(st, x.val(p, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		t := x.val(p, in.Tuple)
		if t.K == KTuple && in.Index < len(t.Args) {
			return t.Args[in.Index]
		}
		return mkOp(fmt.Sprintf("extract%d", in.Index), in.Type(), t)
	case *ssa.Field:
		return mkField(x.val(p, in.X), in.Field)
	case *ssa.Index:
		x.boundsCheck(f, st, x.val(p, in.X), x.val(p, in.Index), in.Pos())
		return x.indexVal(x.val(p, in.X), st.facts.norm(x.val(p, in.Index)))
	case *ssa.IndexAddr:
		x.boundsCheck(f, st, x.val(p, in.X), x.val(p, in.Index), in.Pos())
		return intern(Term{K: KIndexAd, Args: []*Term{x.val(p, in.X), st.facts.norm(x.val(p, in.Index))}, T: in.Type()})
	case *ssa.Lookup:
		if types.TypeString(in.X.Type(), nil) == "net/http.Header" {
			st.event(&Event{Kind: "header.get", Args: []*Term{x.val(p, in.X), x.val(p, in.Index)}, Pos: in.Pos(), Fn: in.Parent(), Site: in})
		}
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			x.touch(f, st, x.val(p, in.X), false, false, in.Pos())
		}
		return x.lookup(st, x.val(p, in.X), x.val(p, in.Index), in.CommaOk, in.X.Type())
	case *ssa.MakeChan:
		a := x.newObj(st, in.Type(), x.val(p, in.Size), "chan", in.Pos())
		return intern(Term{K: KChan, Obj: a.Obj, T: in.Type()})
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range in.Bindings {
			b = append(b, x.val(p, v))
		}
		return intern(Term{K: KFunc, Fn: in.Fn.(*ssa.Function), Args: b, T: in.Type()})
	case *ssa.MakeInterface:
		v := x.val(p, in.X)
		if v.K == KIface {
			return v
		}
		return intern(Term{K: KIface, T: in.X.Type(), Args: []*Term{v}})
	case *ssa.MakeMap:
		a := x.newObj(st, in.Type(), mkNil(nil), "map", in.Pos())
		return intern(Term{K: KMap, Obj: a.Obj, T: in.Type()})
	case *ssa.MakeSlice:
		n := st.facts.norm(x.val(p, in.Len))
		if k, ok := n.intConst(); ok && k >= 0 && k <= 64 {
			el := make([]*Term, k)
			for i := range el {
				el[i] = x.zero(elemType(in.Type()))
			}
			return x.mkSlice(st, in.Type(), el)
		}
		a := x.newObj(st, in.Type(), n, "slice", in.Pos())
		return intern(Term{K: KDyn, Obj: a.Obj, T: in.Type()})
	case *ssa.Slice:
		x.sliceCheck(f, st, p, in)
		return x.slice(st, p, in)
	case *ssa.SliceToArrayPointer:
		return mkOp("slice2array", in.Type(), x.val(p, in.X))
	case *ssa.Range:
		return mkOp("range", nil, x.val(p, in.X))
	case *ssa.Next:
		it := x.val(p, in.Iter)
		tt := in.Type().(*types.Tuple)
		ok := x.sym("next.ok", types.Typ[types.Bool])
		base := it
		if it.isOp("range") {
			base = it.Args[0]
		}
		k := x.sym("range.key", tt.At(1).Type())
		var v *Term
		if in.IsString {
			v = x.sym("range.rune", tt.At(2).Type())
		} else {
			v = mkOp("mapget", tt.At(2).Type(), base, k)
			x.touch(f, st, base, false, false, in.Pos())
			st.event(&Event{Kind: "map.next", Args: []*Term{base}, Res: []*Term{ok, k, v}, Pos: in.Pos(), Fn: f.fn, Site: in})
		}
		return mkTuple(ok, k, v)
	}
	x.note(fmt.Sprintf("unsupported value %T in %s", in, f.fn))
	x.limit = true
	return x.sym("unsupported", in.Type())
}

func retype(v *Term, T types.Type) *Term {
	if v.T != nil && types.Identical(v.T, T) {
		return v
	}
	if v.K == KStruct {
		return intern(Term{K: KStruct, T: T, Args: v.Args})
	}
	return v
}

// lookups distinguishes the entries of a table of constant keys.
func (x *Exec) lookups(f *Frame, p *path, in *ssa.Lookup) []Ret {
	m := x.val(p, in.X)
	k := p.st.facts.norm(x.val(p, in.Index))
	if m == nil || m.K != KMap || k.K == KConst {
		return nil
	}
	o := x.cell(&p.st, m)
	if o == nil || o.Val == nil || o.Val.K != KNil || len(o.Ent) == 0 || len(o.Ent) > 32 || o.get(k) != nil {
		return nil
	}
	for _, e := range o.Ent {
		if e.K.K != KConst {
			return nil
		}
	}
	x.value(f, p, in) // the access itself
	ret := func(st State, v *Term, has bool) Ret {
		if in.CommaOk {
			v = mkTuple(v, mkBool(has))
		}
		return Ret{St: st, V: v}
	}
	var out []Ret
	none, open := p.st, true
	for _, e := range o.Ent {
		st := none
		if st.assume(mkEq(k, e.K), true) {
			out = append(out, ret(st, e.V, true))
		}
		if open = open && none.assume(mkEq(k, e.K), false); !open {
			break
		}
	}
	if open {
		out = append(out, ret(none, x.zero(elemType(in.X.Type())), false))
	}
	x.paths += len(out) - 1
	return out
}

func (x *Exec) lookup(st *State, m, k *Term, commaOk bool, mt types.Type) *Term {
	k = st.facts.norm(k)
	if _, ok := mt.Underlying().(*types.Map); !ok { // string index
		return x.indexVal(m, k)
	}
	et := elemType(mt)
	var v, has *Term
	if m.K == KNil {
		v, has = x.zero(et), mkBool(false)
	} else {
		o := x.cell(st, m)
		if e := o.get(k); e != nil {
			v, has = e, mkBool(true)
		} else {
			allConst := m.K == KMap && k.K == KConst && o.Val.K == KNil
			for _, e := range o.Ent {
				if e.K.K != KConst {
					allConst = false
				}
			}
			if m.K == KMap && len(o.Ent) == 0 && o.Val.K == KNil {
				allConst = true
			}
			if allConst {
				v, has = x.zero(et), mkBool(false)
			} else {
				v, has = mkOp("mapget", et, m, k, mkInt(int64(len(o.Ent)))), mkOp("maphas", types.Typ[types.Bool], m, k, mkInt(int64(len(o.Ent))))
			}
		}
	}
	if commaOk {
		return mkTuple(v, has)
	}
	return v
}

func (x *Exec) slice(st *State, p *path, in *ssa.Slice) *Term {
	b := x.val(p, in.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return st.facts.norm(x.val(p, v))
	}
	lo, hi := get(in.Low), get(in.High)
	if b.K == KNil {
		return b
	}
	if s, ok := b.strConst(); ok {
		l, h := int64(0), int64(len(s))
		ok1, ok2 := true, true
		if lo != nil {
			l, ok1 = lo.intConst()
		}
		if hi != nil {
			h, ok2 = hi.intConst()
		}
		if ok1 && ok2 && l >= 0 && h <= int64(len(s)) && l <= h {
			return mkStr(s[l:h])
		}
	}
	known := func(n int) (int, int, bool) {
		l, h := int64(0), int64(n)
		ok := true
		if lo != nil {
			l, ok = lo.intConst()
		}
		if hi != nil && ok {
			h, ok = hi.intConst()
		}
		return int(l), int(h), ok && l >= 0 && h >= l
	}
	switch b.K {
	case KAddr:
		if at, ok := derefType(b.T).Underlying().(*types.Array); ok {
			if l, h, ok := known(int(at.Len())); ok {
				return intern(Term{K: KSlice, Obj: b.Obj, N: l, Hi: h, T: in.Type()})
			}
		}
	case KSlice:
		if l, h, ok := known(b.Hi - b.N); ok {
			return intern(Term{K: KSlice, Obj: b.Obj, N: b.N + l, Hi: b.N + h, T: in.Type()})
		}
	}
	isZero := func(t *Term) bool { v, ok := t.intConst(); return ok && v == 0 }
	if (lo == nil || isZero(lo)) && hi == nil {
		return b
	}
	if lo == nil {
		lo = mkInt(0)
	}
	if hi == nil {
		hi = x.lenOf(st, b)
	}
	return mkOp("slice", in.Type(), b, lo, hi)
}

func (x *Exec) unop(f *Frame, p *path, in *ssa.UnOp) *Term {
	v := x.val(p, in.X)
	switch in.Op {
	case token.MUL:
		return x.load(&p.st, v)
	case token.NOT:
		return mkNot(v)
	case token.SUB:
		if isIntish(in.Type()) {
			return toLin(v).scale(-1).term(in.Type())
		}
		if v.K == KConst {
			return mkConst(constant.UnaryOp(token.SUB, v.C, 0), in.Type())
		}
		return mkOp("neg", in.Type(), v)
	case token.XOR:
		return mkOp("bitnot", in.Type(), v)
	case token.ARROW:
		et := elemType(in.X.Type())
		r := x.sym("recv", et)
		p.st.event(&Event{Kind: "chan.recv", Args: []*Term{v}, Res: []*Term{r}, Pos: in.Pos(), Fn: f.fn, Site: in})
		if in.CommaOk {
			return mkTuple(r, x.sym("recvOk", types.Typ[types.Bool]))
		}
		return r
	}
	return mkOp("unop", in.Type(), v)
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, T, opT types.Type) *Term {
	a, b = st.facts.norm(a), st.facts.norm(b)
	str := isStringy(opT)
	ints := isIntish(opT)
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.K == KConst && b.K == KConst {
			return mkBool(constant.Compare(a.C, op, b.C))
		}
		if ints {
			la, lb := toLin(a), toLin(b)
			switch op {
			case token.LSS:
				return mkGe0(lb.add(la, -1).add(lin{c: 1}, -1))
			case token.LEQ:
				return mkGe0(lb.add(la, -1))
			case token.GTR:
				return mkGe0(la.add(lb, -1).add(lin{c: 1}, -1))
			default:
				return mkGe0(la.add(lb, -1))
			}
		}
		switch op { // opaque order (floats, strings)
		case token.LSS:
			return mkOp("lt", types.Typ[types.Bool], a, b)
		case token.GTR:
			return mkOp("lt", types.Typ[types.Bool], b, a)
		case token.LEQ:
			return mkNot(mkOp("lt", types.Typ[types.Bool], b, a))
		default:
			return mkNot(mkOp("lt", types.Typ[types.Bool], a, b))
		}
	}
	if a.K == KConst && b.K == KConst && !(str && op != token.ADD) {
		if r := foldConst(op, a.C, b.C, T); r != nil {
			return mkConst(r, T)
		}
	}
	if str && op == token.ADD {
		return mkConcat(a, b)
	}
	if ints {
		switch op {
		case token.ADD:
			return toLin(a).add(toLin(b), 1).term(T)
		case token.SUB:
			return toLin(a).add(toLin(b), -1).term(T)
		case token.MUL:
			if v, ok := a.intConst(); ok {
				return toLin(b).scale(v).term(T)
			}
			if v, ok := b.intConst(); ok {
				return toLin(a).scale(v).term(T)
			}
		}
	}
	if op == token.MUL || op == token.AND || op == token.OR || op == token.XOR || (op == token.ADD && !str) {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mkOp(op.String(), T, a, b)
}

func foldConst(op token.Token, a, b constant.Value, T types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	bt, _ := T.Underlying().(*types.Basic)
	switch op {
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(b)
		if !ok || s > 64 {
			return nil
		}
		r = constant.Shift(a, op, uint(s))
	case token.QUO:
		if bt != nil && bt.Info()&types.IsInteger != 0 {
			if constant.Sign(b) == 0 {
				return nil
			}
			r = constant.BinaryOp(a, token.QUO_ASSIGN, b)
		} else {
			r = constant.BinaryOp(a, op, b)
		}
	default:
		r = constant.BinaryOp(a, op, b)
	}
	return wrapConst(r, T)
}

func wrapConst(r constant.Value, T types.Type) constant.Value {
	bt, ok := T.Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 || r.Kind() != constant.Int {
		return r
	}
	sz := uint(8 * sizes.Sizeof(T))
	if sz == 0 {
		sz = 64
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, sz)
	m := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	r = constant.BinaryOp(r, token.AND, m)
	if bt.Info()&types.IsUnsigned == 0 {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, sz-1)
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

var sizes = types.SizesFor("gc", "amd64")

func (x *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if v.K == KConst {
				return mkConst(wrapConst(v.C, to), to)
			}
			if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
				break
			}
			fs, ts := sizes.Sizeof(from), sizes.Sizeof(to)
			fu, tu := fi&types.IsUnsigned != 0, ti&types.IsUnsigned != 0
			if v.T != nil && v.K != KLin {
				// The value may be known to come from a narrower type.
				if vb, ok := v.T.Underlying().(*types.Basic); ok && vb.Info()&types.IsInteger != 0 && sizes.Sizeof(v.T) < fs {
					fs, fu = sizes.Sizeof(v.T), vb.Info()&types.IsUnsigned != 0
				}
			}
			if ts >= fs && (fu == tu || fu && ts > fs) {
				return v
			}
			return mkOp("conv:"+tb.Name(), to, v)
		case v.K == KConst && ti&types.IsFloat != 0:
			return mkConst(constant.ToFloat(v.C), to)
		case v.K == KConst && ti&types.IsInteger != 0 && fi&types.IsFloat != 0:
			if iv := constant.ToInt(v.C); iv.Kind() == constant.Int {
				return mkConst(wrapConst(iv, to), to)
			}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		}
		return mkOp("conv:"+tb.Name(), to, v)
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		return mkOp("bytes", to, v)
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if v.isOp("bytes") {
			return v.Args[0]
		}
		return mkOp("string", to, v)
	}
	return v
}

func (x *Exec) typeAssert(f *Frame, p *path, in *ssa.TypeAssert, v *Term) []path {
	v = p.st.facts.norm(v)
	T := in.AssertedType
	isI := types.IsInterface(T)
	set := func(q *path, val, ok *Term) {
		if in.CommaOk {
			q.env[in] = mkTuple(val, ok)
		} else {
			q.env[in] = val
		}
	}
	fail := func(q *path) bool {
		if !in.CommaOk {
			return false
		}
		set(q, x.zero(T), mkBool(false))
		return true
	}
	switch {
	case v.K == KNil:
		if fail(p) {
			return []path{*p}
		}
		p.st.event(&Event{Kind: "badassert", Args: []*Term{v}, Pos: in.Pos(), Fn: f.fn, Name: "nil"})
		return nil
	case v.K == KIface:
		var ok bool
		if isI {
			ok = types.Implements(v.T, T.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.T, T)
		}
		if ok {
			r := v
			if !isI {
				r = v.Args[0]
			}
			set(p, r, mkBool(true))
			return []path{*p}
		}
		if fail(p) {
			return []path{*p}
		}
		p.st.event(&Event{Kind: "badassert", Args: []*Term{v}, Pos: in.Pos(), Fn: f.fn, Name: shortType(T)})
		return nil
	case v.isOp("errnew") || v.isOp("errorf") || v.isOp("err.global"):
		if isI && (T.String() == "error") {
			set(p, v, mkBool(true))
			return []path{*p}
		}
		if fail(p) {
			return []path{*p}
		}
		return nil
	}
	// An assertion to what the static type says already only needs a value.
	if ti, ok := T.Underlying().(*types.Interface); ok && types.Implements(in.X.Type(), ti) && p.st.known(mkIsNil(v)) == 0 {
		set(p, v, mkBool(true))
		return []path{*p}
	}
	// Opaque interface.
	isT := mkOp("typeis:"+typeKey(T), types.Typ[types.Bool], v)
	val := v
	if !isI {
		val = mkOp("assert:"+typeKey(T), T, v)
	} else if v.T == nil || !types.Identical(v.T, T) {
		val = mkOp("as:"+typeKey(T), T, v)
	}
	if !in.CommaOk {
		if p.st.known(isT) != 1 {
			p.st.event(&Event{Kind: "assert", Args: []*Term{v, val}, Pos: in.Pos(), Fn: f.fn, Name: typeKey(T)})
			p.st.assume(isT, true)
		}
		p.st.assume(mkIsNil(v), false)
		set(p, val, nil)
		return []path{*p}
	}
	var outs []path
	q := p.fork()
	if p.st.assume(isT, true) && p.st.assume(mkIsNil(v), false) {
		set(p, val, mkBool(true))
		outs = append(outs, *p)
	}
	if q.st.assume(isT, false) {
		set(&q, x.zero(T), mkBool(false))
		outs = append(outs, q)
	}
	x.paths++
	return outs
}

// ---- calls ----------------------------------------------------------------------

func (x *Exec) callee(p *path, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	fn := x.val(p, c.Value)
	if c.IsInvoke() {
		args = append(args, fn)
		fn = nil
	}
	for _, a := range c.Args {
		args = append(args, x.val(p, a))
	}
	return fn, args
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if ob, ok := fn.Object().(*types.Func); ok {
		return ob.FullName()
	}
	return fn.String()
}

func (x *Exec) dispatch(f *Frame, st State, site ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term) []Ret {
	x.sites[site.Pos()] = true
	sig := c.Signature()
	if c.IsInvoke() {
		return x.invoke(f, st, site, c.Method, args)
	}
	if fn.K == KOp && strings.HasPrefix(fn.Op, "builtin:") {
		return x.builtin(f, st, site, fn.Op[8:], args, c)
	}
	return x.callTerm(f, st, site, fn, args, sig)
}

func (x *Exec) callTerm(f *Frame, st State, site ssa.Instruction, fn *Term, args []*Term, sig *types.Signature) []Ret {
	fn = st.facts.norm(fn)
	switch fn.K {
	case KFunc:
		return x.callStatic(f, st, site, fn.Fn, args, fn.Args)
	case KNil:
		st.event(&Event{Kind: "nilderef", Args: []*Term{fn}, Pos: sitePos(site), Name: "call of nil function"})
		return []Ret{{St: st, Panic: true}}
	case KOp:
		// Call of an opaque function value.
		if fn.isOp("nonnil:gin.wrap") && len(args) == 1 {
			// The handler of another library gets the writer and the request.
			c := x.load(&st, args[0])
			if len(fn.Args[0].Args) > 0 || fn.Args[0].K != KNil {
				st.event(&Event{Kind: "http.handler", Name: "(net/http.Handler).ServeHTTP", Args: []*Term{fn.Args[0], mkField2(c, "Writer"), mkField2(c, "Request")}, Pos: sitePos(site), Site: site})
				return []Ret{{St: st}}
			}
		}
	}
	e := &Event{Kind: "dyncall", Name: fn.String(), Args: append([]*Term{fn}, args...), Pos: sitePos(site), Site: site}
	if f != nil {
		e.Fn = f.fn
	}
	if n := mkIsNil(fn); n.K == KOp && st.known(n) == -1 {
		if !trustedPtr(fn) {
			st.event(&Event{Kind: "nilderef", Args: []*Term{fn}, Pos: sitePos(site), Name: "possible call of nil function"})
		}
		st.assume(n, false)
	}
	res := x.freshResults("dyn", sig)
	e.Res = flat(res)
	st.event(e)
	for _, a := range args {
		x.escape(&st, a)
	}
	return []Ret{{St: st, V: res}}
}

func flat(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if t.K == KTuple {
		return t.Args
	}
	return []*Term{t}
}

func sitePos(site ssa.Instruction) token.Pos {
	if site == nil {
		return token.NoPos
	}
	return site.Pos()
}

// escape havocs what an unknown callee may write through an argument.
func (x *Exec) escape(st *State, a *Term) {
	for a.K == KIface {
		a = a.Args[0]
	}
	switch a.K {
	case KAddr:
		if g := x.gname[a.Obj]; g != nil {
			return
		}
		o := st.heap.get(a.Obj)
		if o == nil {
			return
		}
		if n, ok := o.T.(*types.Named); ok && n.Obj().Pkg() != nil && !x.prog.isRepo(n.Obj().Pkg()) {
			// Opaque library object.
			return
		}
		x.havoc(st, a, "escaped")
	}
}

func (x *Exec) callStatic(f *Frame, st State, site ssa.Instruction, fn *ssa.Function, args, fv []*Term) []Ret {
	name := fnName(fn)
	x.touchCall(f, &st, fn, args, sitePos(site))
	cc := &CallCtx{x: x, st: st, f: f, site: site, name: name, sig: fn.Signature, args: args, pos: sitePos(site)}
	if fn.Synthetic == "" || fn.Origin() != nil {
		if x.hook != nil && fn.Package() != nil {
			if m := x.hook(fn.Package().Pkg.Path(), fn.Name()); m != nil {
				return m(cc)
			}
		}
		if m, ok := models[name]; ok {
			return m(cc)
		}
		if m := prefixModel(name); m != nil {
			return m(cc)
		}
	}
	if x.opaque[name] {
		return x.external(cc)
	}
	if len(fn.Blocks) > 0 && x.inlinable(fn) {
		return x.callFn(st, fn, args, fv, f, site)
	}
	return x.external(cc)
}

func (x *Exec) inlinable(fn *ssa.Function) bool {
	if fn.Name() == "init" && fn.Synthetic != "" {
		return false
	}
	if p := fn.Package(); p != nil {
		if p.Pkg.Path() == mgo && fn.Signature.Recv() != nil && strings.HasPrefix(fn.Name(), "Set") {
			return true // builders of write models
		}
		if r := fn.Signature.Recv(); r != nil && strings.HasSuffix(typeKey(r.Type()), "options.ClientOptions") {
			return false
		}
		return x.prog.inlinePkg(p.Pkg.Path())
	}
	if o := fn.Origin(); o != nil && o.Package() != nil {
		return x.prog.inlinePkg(o.Package().Pkg.Path())
	}
	// Synthetic wrappers (bound methods, thunks).
	return true
}

// external: unknown function. Emits a call event with fresh results.
func (x *Exec) external(c *CallCtx) []Ret {
	if strings.HasSuffix(c.name, ".init") {
		return []Ret{{St: c.st}}
	}
	res := c.x.freshResults(c.name, c.sig)
	e := c.event("call", c.name)
	e.Res = flat(res)
	st := c.st
	for _, a := range c.args {
		x.escape(&st, a)
	}
	return []Ret{{St: st, V: res}}
}

func (c *CallCtx) event(kind, name string, extra ...*Term) *Event {
	e := &Event{Kind: kind, Name: name, Args: append(append([]*Term{}, c.args...), extra...), Pos: c.pos, Site: c.site}
	if c.f != nil {
		e.Fn = c.f.fn
	}
	return c.st.event(e)
}

func (x *Exec) invoke(f *Frame, st State, site ssa.Instruction, m *types.Func, args []*Term) []Ret {
	recv := st.facts.norm(args[0])
	if recv.K == KIface {
		fn := x.prog.prog.LookupMethod(recv.T, m.Pkg(), m.Name())
		if fn != nil {
			return x.callStatic(f, st, site, fn, append([]*Term{recv.Args[0]}, args[1:]...), nil)
		}
	}
	name := m.FullName()
	args = append([]*Term{recv}, args[1:]...)
	cc := &CallCtx{x: x, st: st, f: f, site: site, name: name, sig: m.Type().(*types.Signature), args: args, pos: sitePos(site)}
	if recv.K == KNil || st.known(mkIsNil(recv)) == 1 {
		st.event(&Event{Kind: "nilderef", Args: []*Term{recv}, Pos: cc.pos, Name: "method call on nil interface " + name})
		return []Ret{{St: st, Panic: true}}
	}
	if x.hook != nil && m.Pkg() != nil {
		if md := x.hook(m.Pkg().Path(), m.Name()); md != nil {
			return md(cc)
		}
	}
	if md, ok := models[name]; ok {
		return md(cc)
	}
	if md := prefixModel(name); md != nil {
		return md(cc)
	}
	return x.external(cc)
}

// spawn analyses a function started concurrently and records its outcomes.
func (x *Exec) spawn(f *Frame, st *State, site ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term, kind string, group *Term) *Event {
	e := &Event{Kind: "spawn", Name: kind, Pos: sitePos(site), Site: site, Args: []*Term{fn, group}}
	if f != nil {
		e.Fn = f.fn
	}
	st.event(e)
	st.forkAt = x.nobj
	sub := *st
	sub.ev = nil
	sub.held = nil
	sub.forks = 0
	if w := x.watch; w != nil {
		w.nthread++
		old := w.threads
		w.threads = append(old[:len(old):len(old)], thread{w.nthread, x.nobj, x.loopMark})
		defer func() { w.threads = old }()
	}
	if c != nil && c.IsInvoke() {
		e.Sub = x.invoke(f, sub, site, c.Method, args)
	} else if fn != nil && fn.K == KFunc {
		e.Sub = x.callStatic(f, sub, site, fn.Fn, args, fn.Args)
	} else if fn != nil && strings.HasPrefix(fn.Op, "builtin:") {
		e.Sub = x.builtin(f, sub, site, fn.Op[8:], args, c)
	}
	// Cells written by the spawned function are unknown from here on.
	for _, r := range e.Sub {
		st.heap.diff(r.St.heap, func(a, b *Obj) {
			if a == nil || b == nil {
				return
			}
			if _, isG := x.gname[a.ID]; isG || a.Lazy != nil {
				return
			}
			cur := st.heap.get(a.ID)
			if cur == nil || cur.Val == nil || cur.T == nil {
				return
			}
			n := *cur
			n.Val = x.sym("shared:"+a.Name, cur.T)
			st.heap = st.heap.set(a.ID, &n)
		})
	}
	return e
}

func (x *Exec) builtin(f *Frame, st State, site ssa.Instruction, name string, args []*Term, c *ssa.CallCommon) []Ret {
	one := func(v *Term) []Ret { return []Ret{{St: st, V: v}} }
	sig := c.Signature()
	switch name {
	case "len":
		return one(x.lenOf(&st, st.facts.norm(args[0])))
	case "cap":
		return one(mkOp("cap", types.Typ[types.Int], args[0]))
	case "append":
		base := st.facts.norm(args[0])
		T := c.Args[0].Type()
		be, ok1 := x.elems(&st, base)
		var ee []*Term
		ok2 := true
		if len(args) > 1 {
			ee, ok2 = x.elems(&st, st.facts.norm(args[1]))
		}
		switch {
		case ok1 && ok2:
			if len(ee) == 0 {
				return one(base)
			}
			return one(x.mkSlice(&st, T, append(append([]*Term{}, be...), ee...)))
		case ok2:
			if len(ee) == 0 {
				return one(base)
			}
			if base.isOp("append") {
				return one(mkOp("append", T, append(append([]*Term{}, base.Args...), ee...)...))
			}
			return one(mkOp("append", T, append([]*Term{base}, ee...)...))
		case ok1 && len(be) == 0:
			return one(mkOp("copyof", T, args[1]))
		}
		return one(mkOp("appendslice", T, base, args[1]))
	case "copy":
		x.touch(f, &st, args[0], true, false, sitePos(site))
		x.touch(f, &st, args[1], false, false, sitePos(site))
		st.event(&Event{Kind: "copy", Args: args, Pos: sitePos(site)})
		d, ok1 := x.elems(&st, args[0])
		s, ok2 := x.elems(&st, args[1])
		if ok1 && ok2 {
			for i := range s {
				if i < len(d) {
					x.store(&st, intern(Term{K: KIndexAd, Args: []*Term{args[0], mkInt(int64(i))}}), s[i])
				}
			}
		} else {
			x.havoc(&st, args[0], "copied")
		}
		return one(x.sym("copied", types.Typ[types.Int]))
	case "delete":
		x.touch(f, &st, args[0], true, false, sitePos(site))
		o := x.cell(&st, args[0])
		n := *o
		n.Ent = nil
		k := st.facts.norm(args[1])
		for _, e := range o.Ent {
			if e.K != k {
				n.Ent = append(n.Ent, e)
			}
		}
		st.heap = st.heap.set(o.ID, &n)
		return one(nil)
	case "close":
		st.event(&Event{Kind: "chan.close", Args: args, Pos: sitePos(site), Site: site})
		return one(nil)
	case "print", "println":
		return one(nil)
	case "recover":
		return one(mkNil(nil))
	case "panic":
		return []Ret{{St: st, Panic: true, PanicV: args[0]}}
	case "min", "max":
		a, b := st.facts.norm(args[0]), st.facts.norm(args[1])
		if len(args) == 2 && isIntish(sig.Results().At(0).Type()) {
			c := mkGe0(toLin(b).add(toLin(a), -1)) // a <= b
			var outs []Ret
			s2 := st
			if st.assume(c, true) {
				v := a
				if name == "max" {
					v = b
				}
				outs = append(outs, Ret{St: st, V: v})
			}
			if s2.assume(c, false) {
				v := b
				if name == "max" {
					v = a
				}
				outs = append(outs, Ret{St: s2, V: v})
			}
			return outs
		}
		return one(mkOp(name, sig.Results().At(0).Type(), args...))
	case "clear":
		x.havoc(&st, args[0], "cleared")
		return one(nil)
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	x.note("unsupported builtin " + name)
	return one(x.freshResults(name, sig))
}
