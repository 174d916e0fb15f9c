package main

// Which memory shared between concurrent activities is accessed, and under
// which locks (a lockset analysis on top of the abstract interpretation).

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Access is one way in which an entry point accesses a shared location.
type Access struct {
	Loc    string
	Entry  string
	Write  bool
	Atomic bool
	Locks  []string // held exclusively
	RLocks []string // held for reading
	Pos    token.Pos
	Fn     *ssa.Function
	Who    int  // activity within the entry point (0: itself)
	Obj    int  // object of the entry point's own, 0 if shared with other requests
	Many   bool // several instances of the activity run at a time
	Single bool // the entry point runs once
}

type lockUse struct {
	entry, a, b string
	pos         token.Pos
	st          *State
}

type watcher struct {
	entry   string
	nobj    int // objects up to this one exist before the entry point is called
	nsym    int
	recv    *Term
	threads []thread
	nthread int
	all     map[string]*Access
	order   map[string]lockUse // lock b is acquired while a is held
	twice   map[string]lockUse
	shared  map[*Term]bool // pointers found in shared memory
	single  bool           // the entry point runs once
}

func newWatcher() *watcher {
	return &watcher{all: map[string]*Access{}, order: map[string]lockUse{}, twice: map[string]lockUse{}, shared: map[*Term]bool{}}
}

// loaded: what is found in shared memory is shared.
func (x *Exec) loaded(st *State, addr, v *Term) {
	w := x.watch
	if w == nil || w.entry == "" || v == nil || v.T == nil {
		return
	}
	switch v.T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
	default:
		return
	}
	if x.sharedTerm(rootObj(st.facts.norm(addr))) {
		for v.K == KIface {
			v = v.Args[0]
		}
		if v.K == KOp || v.K == KSym {
			w.shared[v] = true
		}
	}
}

type thread struct{ id, mark, loop int }

func (w *watcher) enter(x *Exec, entry string, recv *Term) {
	w.entry, w.nobj, w.nsym, w.recv, w.threads = entry, x.nobj, x.nsym, recv, nil
	w.shared = map[*Term]bool{}
}

// sharedTerm: the value exists before the entry point is called, and other
// requests see it too.
func (x *Exec) sharedTerm(t *Term) bool {
	w := x.watch
	if w.shared[t] {
		return true
	}
	switch t.K {
	case KAddr, KMap, KDyn, KSlice, KChan:
		if x.gname[t.Obj] != nil {
			return true
		}
		return t.Obj <= w.nobj
	case KSym:
		if t == w.recv {
			return true
		}
		if i := strings.LastIndexByte(t.Op, '#'); i >= 0 {
			n, err := strconv.Atoi(t.Op[i+1:])
			return err == nil && n <= w.nsym
		}
		return false
	case KFieldAd, KIndexAd:
		return x.sharedTerm(t.Args[0])
	case KIface:
		return x.sharedTerm(t.Args[0])
	case KOp:
		switch {
		case t.Op == "deref", t.Op == "field", t.Op == "index", t.Op == "mapget", strings.HasPrefix(t.Op, "assert:"), strings.HasPrefix(t.Op, "as:"):
			return len(t.Args) > 0 && x.sharedTerm(t.Args[0])
		}
	}
	return false
}

// locOf names a location independently of the request.
func (x *Exec) locOf(st *State, t *Term) string {
	switch t.K {
	case KFieldAd:
		b := x.locOf(st, t.Args[0])
		if s := structOf(derefType(t.Args[0].T)); s != nil && t.N < s.NumFields() {
			return b + "." + s.Field(t.N).Name()
		}
		return fmt.Sprintf("%s.%d", b, t.N)
	case KIndexAd:
		return x.locOf(st, t.Args[0]) + "[]"
	case KAddr, KMap, KDyn, KSlice, KChan:
		if g := x.gname[t.Obj]; g != nil {
			return g.RelString(nil)
		}
		if o := st.heap.get(t.Obj); o != nil {
			return fmt.Sprintf("%s(%s)", nonEmpty(o.Name, "object"), x.prog.pos(o.Pos))
		}
		return "object"
	case KSym:
		if t == x.watch.recv {
			return typeKey(derefType(t.T))
		}
		if i := strings.LastIndexByte(t.Op, '#'); i >= 0 {
			return t.Op[:i]
		}
		return t.Op
	case KIface:
		return x.locOf(st, t.Args[0])
	case KOp:
		if len(t.Args) > 0 {
			b := x.locOf(st, t.Args[0])
			switch t.Op {
			case "deref":
				return b + "->"
			case "field":
				if s := structOf(t.Args[0].T); s != nil && t.N < s.NumFields() {
					return b + "." + s.Field(t.N).Name()
				}
				return fmt.Sprintf("%s.%d", b, t.N)
			case "index", "mapget":
				return b + "[]"
			}
			return b
		}
	}
	return t.String()
}

func rootObj(t *Term) *Term {
	for t.K == KFieldAd || t.K == KIndexAd || t.K == KIface {
		t = t.Args[0]
	}
	return t
}

// touch records an access to memory.
func (x *Exec) touch(f *Frame, st *State, addr *Term, write, atomic bool, pos token.Pos) {
	w := x.watch
	if w == nil || w.entry == "" || f == nil || addr == nil {
		return
	}
	fn := f.fn
	if !x.inRepo(fn) {
		return
	}
	addr = st.facts.norm(addr)
	root := rootObj(addr)
	a := &Access{Entry: w.entry, Write: write, Atomic: atomic, Pos: pos, Fn: fn, Single: w.single}
	switch {
	case x.sharedTerm(root):
		// Before it starts anything else, main is alone.
		if w.single && len(w.threads) == 0 && st.forks == 0 {
			return
		}
		if w.single && len(w.threads) > 0 {
			a.Who = w.threads[len(w.threads)-1].id
		}
	case root.K == KAddr || root.K == KMap || root.K == KDyn || root.K == KSlice:
		// Memory of the entry point, possibly shared with goroutines it started.
		a.Obj = root.Obj
		own := true
		for _, t := range w.threads {
			if root.Obj <= t.mark {
				a.Who, a.Many, own = t.id, root.Obj <= t.loop, false
				break
			}
		}
		if own && (st.forks == 0 || root.Obj > st.forkAt) {
			return
		}
		if own && len(w.threads) > 0 {
			a.Who = w.threads[len(w.threads)-1].id
		}
	default:
		return
	}
	a.Loc = x.locOf(st, addr)
	if T := addr.T; T != nil {
		if _, ok := T.Underlying().(*types.Map); ok {
			a.Loc += "{}"
		}
	}
	for h := st.held; h != nil; h = h.prev {
		l := x.lockName(st, h.mu)
		if h.read {
			a.RLocks = append(a.RLocks, l)
		} else {
			a.Locks = append(a.Locks, l)
		}
	}
	k := fmt.Sprintf("%s|%s|%v|%v|%v|%v|%d|%d|%v|%d", a.Loc, a.Entry, write, atomic, a.Locks, a.RLocks, a.Who, a.Obj, a.Many, pos)
	if w.all[k] == nil {
		w.all[k] = a
	}
}

func (x *Exec) lockName(st *State, mu *Term) string {
	if mu.isOp("once") || mu.isOp("writer") {
		return mu.Op + ":" + x.locOf(st, mu.Args[0])
	}
	n := x.locOf(st, mu)
	// A lock of the request itself protects nothing from other requests.
	if r := rootObj(mu); !x.sharedTerm(r) {
		n += fmt.Sprintf("@%s:%d", x.watch.entry, r.Obj)
	}
	return n
}

// acquire and release follow the locks held.
func (x *Exec) acquire(st *State, mu *Term, read bool, pos token.Pos) {
	if w := x.watch; w != nil && w.entry != "" {
		n := x.lockName(st, mu)
		for h := st.held; h != nil; h = h.prev {
			if h.done {
				continue
			}
			if h.mu == mu && !(h.read && read) {
				if _, ok := w.twice[n]; !ok {
					s := *st
					w.twice[n] = lockUse{w.entry, n, n, pos, &s}
				}
			} else if h.mu != mu {
				k := x.lockName(st, h.mu) + "|" + n
				if _, ok := w.order[k]; !ok {
					s := *st
					w.order[k] = lockUse{w.entry, x.lockName(st, h.mu), n, pos, &s}
				}
			}
		}
	}
	st.held = &heldLock{prev: st.held, mu: mu, read: read}
}

func (x *Exec) release(st *State, mu *Term, read bool) bool {
	var keep []*heldLock
	done := false
	for h := st.held; h != nil; h = h.prev {
		if !done && h.mu == mu && h.read == read && !h.done {
			done = true
			continue
		}
		keep = append(keep, h)
	}
	if !done {
		return false
	}
	st.held = nil
	for i := len(keep) - 1; i >= 0; i-- {
		h := *keep[i]
		h.prev = st.held
		st.held = &h
	}
	return true
}

// Library types whose methods must not be called concurrently.
var unsafeTypes = []string{"math/rand.Rand", "math/rand/v2.Rand", "bytes.Buffer", "strings.Builder", "bufio.Writer", "bufio.Reader",
	"encoding/json.Encoder", "encoding/json.Decoder", "encoding/gob.Encoder", "encoding/gob.Decoder", "container/list.List",
	"container/ring.Ring", "github.com/hashicorp/go-memdb.Txn", "hash/maphash.Hash", "math/big.Int"}

var mapMethods = map[string]bool{"Set": true, "Add": true, "Del": true, "Get": false, "Values": false, "Has": false, "Encode": false, "Clone": false}

// touchCall records what a library function does to the memory passed to it.
func (x *Exec) touchCall(f *Frame, st *State, fn *ssa.Function, args []*Term, pos token.Pos) {
	w := x.watch
	if w == nil || w.entry == "" || f == nil || fn == nil || x.inRepo(fn) || len(args) == 0 {
		return
	}
	name := fnName(fn)
	if strings.HasPrefix(name, "sync/atomic.") {
		x.touch(f, st, args[0], !strings.Contains(fn.Name(), "Load"), true, pos)
		return
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		k := typeKey(derefType(t))
		if derefType(t) == nil {
			k = typeKey(t)
		}
		for _, u := range unsafeTypes {
			if k == u {
				x.touch(f, st, args[0], true, false, pos)
			}
		}
		if _, isMap := t.Underlying().(*types.Map); isMap {
			if wr, ok := mapMethods[fn.Name()]; ok {
				x.touch(f, st, args[0], wr, false, pos)
			}
		}
	}
	if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || name == "slices.Reverse" {
		x.touch(f, st, args[0], true, false, pos)
		return
	}
	wr := false
	for _, s := range []string{"Bind", "Unmarshal", "Decode", "Scan"} {
		wr = wr || strings.Contains(fn.Name(), s)
	}
	first := 0
	if fn.Signature.Recv() != nil {
		first = 1
	}
	for _, a := range args[first:] {
		for a.K == KIface {
			a = a.Args[0]
		}
		if a.K != KAddr && a.K != KFieldAd && a.K != KMap {
			continue
		}
		if n, ok := derefType(a.T).(*types.Named); ok && n.Obj().Pkg() != nil && !x.prog.isRepo(n.Obj().Pkg()) {
			continue
		}
		x.touch(f, st, a, wr, false, pos)
	}
}

func (x *Exec) inRepo(fn *ssa.Function) bool {
	for fn != nil && fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn == nil {
		return false
	}
	p := fn.Package()
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Package()
		}
	}
	return p != nil && x.prog.isRepo(p.Pkg)
}
