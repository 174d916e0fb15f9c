package main

// Abstract program state: a persistent heap, path facts and an event trace.

import (
	"strings"

	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- persistent map from object IDs to objects ------------------------------

type pnode struct {
	kids [16]*pnode
	val  *Obj
}

type Heap struct{ root *pnode }

func hkey(id int) uint32 {
	if id < 0 {
		return uint32(-id)<<1 | 1
	}
	return uint32(id) << 1
}

func (h Heap) get(id int) *Obj {
	n := h.root
	for k := hkey(id); n != nil; k >>= 4 {
		if k == 0 {
			return n.val
		}
		n = n.kids[k&15]
	}
	return nil
}

func pset(n *pnode, k uint32, v *Obj) *pnode {
	var c pnode
	if n != nil {
		c = *n
	}
	if k == 0 {
		c.val = v
	} else {
		c.kids[k&15] = pset(c.kids[k&15], k>>4, v)
	}
	return &c
}

func (h Heap) set(id int, o *Obj) Heap { return Heap{pset(h.root, hkey(id), o)} }

func pdiff(a, b *pnode, f func(o, n *Obj)) {
	if a == b {
		return
	}
	var x, y pnode
	if a != nil {
		x = *a
	}
	if b != nil {
		y = *b
	}
	if x.val != y.val {
		f(x.val, y.val)
	}
	for i := range x.kids {
		pdiff(x.kids[i], y.kids[i], f)
	}
}

// diff calls f for every object that differs (nil if absent).
func (h Heap) diff(o Heap, f func(a, b *Obj)) { pdiff(h.root, o.root, f) }

// Obj is an immutable abstract object.
type Obj struct {
	ID   int
	T    types.Type
	Val  *Term
	Ent  []Entry // map entries / symbolic slice elements / model attributes
	Name string
	Lazy *Term // pointer term of a lazily materialised object
	Pos  token.Pos
}

type Entry struct{ K, V *Term }

func (o *Obj) get(k *Term) *Term {
	if o == nil {
		return nil
	}
	for i := len(o.Ent) - 1; i >= 0; i-- {
		if o.Ent[i].K == k {
			return o.Ent[i].V
		}
	}
	return nil
}

// isModel: the object stands for a modelled resource (transaction, iterator...).
func (o *Obj) isModel() bool {
	if isBuilder(o.T) && len(o.Ent) > 0 {
		return true
	}
	if o.Val == nil || o.Val.K != KOp || len(o.Ent) == 0 || strings.HasPrefix(o.Name, "map") {
		return false
	}
	switch o.Val.Op {
	case "txn", "iterator", "file", "timer", "ticker":
		return true
	}
	return false
}

func (o *Obj) with(k, v *Term) *Obj {
	n := *o
	n.Ent = nil
	done := false
	for _, e := range o.Ent {
		if e.K == k {
			e.V = v
			done = true
		}
		n.Ent = append(n.Ent, e)
	}
	if !done {
		n.Ent = append(n.Ent, Entry{k, v})
	}
	return &n
}

// ---- events -----------------------------------------------------------------

type Event struct {
	Kind string
	Name string
	Args []*Term
	Res  []*Term
	Pos  token.Pos
	Fn   *ssa.Function
	Site ssa.Instruction
	St   State // state right after the event's arguments were evaluated
	Loop *Loop
	Sub  []Ret // outcomes of a spawned function
	Tag  any
}

type evNode struct {
	prev *evNode
	ev   *Event
	n    int
}

// Loop summarises the iterations of a loop on a path.
type Loop struct {
	ID     int
	Pos    token.Pos
	Fn     *ssa.Function
	Phis   []LoopVar
	Cells  []LoopVar // heap cells carried by the loop
	Recs   []LoopVar // loop-carried iterator results
	Steps  []*Step
	Header *ssa.BasicBlock
	Entry  State
}

type LoopVar struct {
	Name string
	Sym  *Term
	Init *Term
	Addr *Term // for cells
	Attr *Term // for attributes of modelled objects
}

// Step is one abstract complete iteration: the path from the header back to it.
type Step struct {
	Events []*Event
	Next   []*Term // next value of each Phi
	NextC  []*Term // next value of each Cell
	St     State

	HeadRec []*Term // loop-carried iterator results: at the header, and next
	NextRec []*Term
}

// RecInfo tells where a record came from.
type RecInfo struct {
	Iter    *Term // iterator, nil for First
	Index   *IndexInfo
	Args    []*Term
	Exact   bool
	Mode    string
	N       *Term // number of records delivered before
	Carried bool
	Txn     *Term
	Ver     *Term
}

type State struct {
	heap   Heap
	facts  *Facts
	ev     *evNode
	chain  *ginChain
	held   *heldLock
	coll   *collNode
	forks  int // goroutines started and not waited for
	forkAt int // objects up to this one exist when the last of them is started
	alloc  *int
}

type heldLock struct {
	prev *heldLock
	mu   *Term
	read bool // shared with other readers
	done bool // not a lock, but an order (sync.Once)
}

func (s *State) event(e *Event) *Event {
	n := 0
	if s.ev != nil {
		n = s.ev.n + 1
	}
	e.St = *s
	switch e.Kind {
	case "spawn":
		s.forks++
	case "group.wait", "wg.wait", "chan.recv":
		s.forks = 0
	case "select":
		if e.Name == "recv" {
			s.forks = 0
		}
	}
	s.ev = &evNode{s.ev, e, n}
	return e
}

func (s State) events() []*Event { return eventsSince(s.ev, nil) }

func eventsSince(n, stop *evNode) []*Event {
	var r []*Event
	for ; n != nil && n != stop; n = n.prev {
		r = append(r, n.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) assume(t *Term, truth bool) bool {
	f, ok := s.facts.assume(t, truth)
	s.facts = f
	return ok
}

func (s *State) known(t *Term) int { return s.facts.eval(t) }

func (s *State) isTrue(t *Term) bool  { return s.facts.eval(t) == 1 }
func (s *State) isFalse(t *Term) bool { return s.facts.eval(t) == 0 }
func (s *State) isNil(t *Term) bool   { return t != nil && s.isTrue(mkIsNil(s.facts.norm(t))) }
func (s *State) notNil(t *Term) bool  { return t != nil && s.isFalse(mkIsNil(s.facts.norm(t))) }
func (s *State) norm(t *Term) *Term   { return s.facts.norm(t) }

// Ret is one outcome of a call.
type Ret struct {
	St     State
	V      *Term // result (KTuple for several)
	Panic  bool
	PanicV *Term
	Exit   bool // process exit
}

func (r Ret) res(i int) *Term {
	if r.V != nil && r.V.K == KTuple {
		if i < len(r.V.Args) {
			return r.V.Args[i]
		}
		return nil
	}
	if i == 0 {
		return r.V
	}
	return nil
}

type ssaFn = *ssa.Function

// isBuilder: text accumulated by a strings.Builder or bytes.Buffer.
func isBuilder(T types.Type) bool {
	if T == nil {
		return false
	}
	k := typeKey(T)
	return k == "strings.Builder" || k == "bytes.Buffer"
}
