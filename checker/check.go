package main

// Checking framework: a property is decided by a set of rules, each a predicate
// over every outcome (path) of the analysed entry points.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Message   string `json:"message"`
	Path      []string
}

func (v Violation) key() string { return v.Rule + "@" + v.Construct }

type Checker struct {
	x       *Exec
	id      string
	viol    map[string]*Violation
	rules   map[string]int // obligations per rule
	entries map[string]int // outcomes per analysed entry point
	need    map[string]int // rule -> minimum number of obligations
	cache   map[string][]Ret
	schema  *schemaReport
	signs   map[string]map[bool]bool
	cur     string // entry point under analysis
	notes   []string
}

func newChecker(x *Exec) *Checker {
	return &Checker{x: x, viol: map[string]*Violation{}, rules: map[string]int{}, entries: map[string]int{}, need: map[string]int{}, cache: map[string][]Ret{}}
}

// ok records a discharged obligation of a rule.
func (c *Checker) ok(rule string) { c.rules[rule]++ }

func (c *Checker) fail(rule, construct string, pos token.Pos, msg string, st *State) {
	c.rules[rule]++
	v := &Violation{Rule: rule, Construct: construct, Where: c.x.prog.pos(pos), Message: msg}
	if c.viol[v.key()] != nil {
		return
	}
	if st != nil {
		v.Path = c.trail(st)
	}
	c.viol[v.key()] = v
}

// must records an obligation that holds iff cond.
func (c *Checker) must(cond bool, rule, construct string, pos token.Pos, st *State, format string, a ...any) bool {
	if cond {
		c.ok(rule)
	} else {
		c.fail(rule, construct, pos, fmt.Sprintf(format, a...), st)
	}
	return cond
}

// atLeast guards against rules that are vacuous because nothing was found.
// atLeast guards against rules that no longer apply to anything. How often a
// rule applies depends on how the code is divided into paths, so that only a
// fraction of the number on the original tree is required.
func (c *Checker) atLeast(rule string, n int) {
	if n >= 10 {
		n = n/8 + 1
	} else if n > 2 {
		n = n/2 + 1
	}
	c.need[rule] = n
}

func (c *Checker) trail(st *State) []string {
	var r []string
	for _, e := range st.events() {
		s := fmt.Sprintf("%s: %s %s", c.x.prog.pos(e.Pos), e.Kind, e.Name)
		var as []string
		for _, a := range e.Args {
			as = append(as, a.String())
		}
		s += "(" + strings.Join(as, ", ") + ")"
		if len(e.Res) > 0 {
			var rs []string
			for _, a := range e.Res {
				rs = append(rs, a.String())
			}
			s += " = " + strings.Join(rs, ", ")
		}
		r = append(r, s)
	}
	for _, l := range st.facts.list {
		r = append(r, fmt.Sprintf("assuming %v is %v", l.t, l.truth))
	}
	if len(r) > 120 {
		r = append(r[:120], "...")
	}
	return r
}

// explore returns every outcome of a function called with symbolic arguments.
func (c *Checker) explore(name string, fn *ssa.Function, prep func(st *State, args []*Term)) []Ret {
	if r, ok := c.cache[name]; ok {
		c.entries[name] = len(r)
		return r
	}
	if fn == nil {
		c.fail("entry", name, 0, "entry point not found", nil)
		return nil
	}
	x := c.x
	x.paths, x.limit = 0, false
	for k := range x.notes {
		delete(x.notes, k)
	}
	st := x.base
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, x.named(nonEmpty(p.Name(), "_"), p.Type()))
	}
	if prep != nil {
		prep(&st, args)
	}
	rets := x.callFn(st, fn, args, nil, nil, nil)
	c.cache[name] = rets
	c.entries[name] = len(rets)
	c.limits(name, fn.Pos())
	return rets
}

func (c *Checker) limits(name string, pos token.Pos) {
	if c.x.limit {
		c.fail("analysis", name, pos, "the analysis could not enumerate every path", nil)
	}
	for n := range c.x.notes {
		c.fail("analysis", name, pos, "construct outside the analysed language: "+n, nil)
	}
}

// method explores an exported method.
func (c *Checker) method(pkg, typ, name string) []Ret {
	fn := c.x.prog.method(pkg, typ, name)
	short := strings.TrimPrefix(pkg, modPath+"/")
	return c.explore(short+"."+typ+"."+name, fn, nil)
}

// param finds the symbol of a parameter by its type (or position among equals).
func (c *Checker) param(fn *ssa.Function, i int) *Term {
	if fn == nil || i >= len(fn.Params) {
		return nil
	}
	p := fn.Params[i]
	return c.x.named(nonEmpty(p.Name(), "_"), p.Type())
}

// ---- views over outcomes -------------------------------------------------------

// Seg is a straight run of events: an outcome, or one abstract loop iteration.
type Seg struct {
	Ev   []*Event
	St   *State
	Step *Step
	Loop *Loop
	Ret  *Ret
}

// segs lists the outcome's own segment followed by the loop iterations on it.
func segs(r *Ret, seen map[*Step]bool) []Seg {
	out := []Seg{{Ev: r.St.events(), St: &r.St, Ret: r}}
	var rec func(ev []*Event)
	rec = func(ev []*Event) {
		for _, e := range ev {
			if e.Loop == nil {
				continue
			}
			for _, s := range e.Loop.Steps {
				if seen[s] {
					continue
				}
				seen[s] = true
				out = append(out, Seg{Ev: s.Events, St: &s.St, Step: s, Loop: e.Loop})
				rec(s.Events)
			}
		}
	}
	rec(out[0].Ev)
	return out
}

// steps lists the iterations of all loops on the outcome.
func eachStep(ev []*Event, f func(l *Loop, s *Step)) {
	for _, e := range ev {
		if e.Loop != nil {
			for _, s := range e.Loop.Steps {
				f(e.Loop, s)
				eachStep(s.Events, f)
			}
		}
	}
}

func (c *Checker) field(st *State, v *Term, name string) *Term {
	if v == nil {
		return mkOp("nofield", nil)
	}
	return st.norm(mkField2(v, name))
}

// deref loads the value behind a pointer that is known to be non-nil.
func (c *Checker) deref(st *State, p *Term) *Term {
	p = st.norm(p)
	if p.K == KIface {
		p = p.Args[0]
	}
	if p.K == KNil {
		return mkOp("nilload", nil)
	}
	s := *st
	return c.x.load(&s, p)
}

// sameVal: equal values, or pointers to equal values.
func (c *Checker) sameVal(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	a, b = st.norm(unIface(a)), st.norm(unIface(b))
	if a == b || st.facts.same(a, b) || stripTime(a) == stripTime(b) {
		return true
	}
	if a.K == KStruct || b.K == KStruct {
		if n := structOf(nonNilT(a.T, b.T)); n != nil && !isTime(nonNilT(a.T, b.T)) {
			for i := 0; i < n.NumFields(); i++ {
				if !c.sameVal(st, mkField(a, i), mkField(b, i)) {
					return false
				}
			}
			return n.NumFields() > 0
		}
	}
	if derefType(a.T) != nil && derefType(b.T) != nil {
		if st.isNil(a) && st.isNil(b) {
			return true
		}
		if st.notNil(a) && st.notNil(b) || a.K == KAddr && st.notNil(b) || b.K == KAddr && st.notNil(a) {
			return c.sameVal(st, c.deref(st, a), c.deref(st, b))
		}
	}
	return false
}

func nonNilT(a, b types.Type) types.Type {
	if a != nil {
		return a
	}
	return b
}

// sentinel returns the value of an error variable of the ratus package.
func (c *Checker) sentinel(name string) *Term {
	g, _ := c.x.prog.pkg(modPath).Members[name].(*ssa.Global)
	if g == nil {
		return nil
	}
	st := c.x.base
	return c.x.load(&st, c.x.globalAddr(&st, g))
}

var sentinels = []string{"ErrBadRequest", "ErrNotFound", "ErrConflict", "ErrClientClosedRequest", "ErrInternalServerError", "ErrServiceUnavailable"}

// errClass names what an error result is: "nil", a sentinel, or "other".
func (c *Checker) errClass(st *State, e *Term) string {
	e = st.norm(e)
	if st.isNil(e) {
		return "nil"
	}
	for _, s := range sentinels {
		if t := c.sentinel(s); t != nil && st.isTrue(mkOp("errIs", types.Typ[types.Bool], e, t)) {
			return s
		}
	}
	if st.notNil(e) {
		return "other"
	}
	return "unknown"
}

// failed lists operations on the trail whose error result is known (or may be)
// non-nil.
func opErr(e *Event) *Term {
	if n := len(e.Res); n > 0 {
		return e.Res[n-1]
	}
	return nil
}

func kindIn(e *Event, kinds ...string) bool {
	for _, k := range kinds {
		if e.Kind == k {
			return true
		}
	}
	return false
}

// ---- running ---------------------------------------------------------------------

type Property struct {
	ID     string
	Check  func(c *Checker)
	Rule   string // what is decided, for the evidence
	Assume []string
}

var properties = map[string]*Property{}

func register(id, rule string, f func(c *Checker)) {
	properties[id] = &Property{ID: id, Check: f, Rule: rule}
}

func assume(id string, a ...string) { properties[id].Assume = append(properties[id].Assume, a...) }

// needSchema derives the schema of the database once.
func (c *Checker) needSchema() {
	if c.schema != nil {
		return
	}
	if c.x.schemaRep == nil {
		c.x.schemaRep = c.x.deriveSchema()
	}
	c.schema = c.x.schemaRep
	for _, p := range c.schema.Problems {
		c.fail("schema", p, 0, p, nil)
	}
	for range c.schema.Lines {
		c.ok("schema")
	}
	c.atLeast("schema", 2)
}

func (c *Checker) runProperty(p *Property) {
	c.id = p.ID
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.fail("analysis", "internal", 0, fmt.Sprintf("the analysis could not decide the property: %v", e), nil)
				if os.Getenv("RC_DEBUG") != "" {
					fmt.Println(string(debug.Stack()))
				}
			}
		}()
		p.Check(c)
	}()
	for r, n := range c.need {
		if c.rules[r] < n {
			c.fail("coverage", r, 0, fmt.Sprintf("rule %s applied %d times, expected at least %d", r, c.rules[r], n), nil)
		}
	}
}

func (c *Checker) violations() []*Violation {
	var vs []*Violation
	for _, v := range c.viol {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].key() < vs[j].key() })
	return vs
}
