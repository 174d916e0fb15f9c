package main

// Abstract values. Every value is a hash-consed term: constants, opaque values
// with a provenance ("sym"), addresses of abstract objects, composites and pure
// operations over other terms. Terms are immutable; equality is pointer equality.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst   Kind = iota // constant (C may be nil only for KNil)
	KNil                 // nil of some type
	KSym                 // opaque value
	KAddr                // address of an abstract object (Obj)
	KFieldAd             // address of field N of Args[0]
	KIndexAd             // address of element Args[1] of Args[0]
	KStruct              // struct value
	KArray               // array value with known elements
	KSlice               // slice of known length: object Obj, Lo..Hi
	KDyn                 // slice of unknown length backed by object Obj
	KMap                 // map object
	KChan                // channel object
	KIface               // interface holding Args[0] of dynamic type T
	KFunc                // function value (Fn, Args = bindings)
	KTuple               // tuple
	KLin                 // linear combination: C + sum Coef[i]*Args[i]
	KOp                  // pure operation
	KConcat              // string concatenation
)

type Term struct {
	K    Kind
	Op   string
	Args []*Term
	C    constant.Value
	T    types.Type
	Fn   *ssa.Function
	Obj  int
	N    int // field index / slice Lo
	Hi   int // slice Hi
	Co   []int64
	N0   int64 // constant of a linear combination
	id   int
}

var (
	internTab = map[string]*Term{}
	nextTerm  = 1
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func intern(t Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d|%d|%d|%d|", t.K, t.Op, t.Obj, t.N, t.Hi, t.N0)
	if t.C != nil {
		b.WriteString(t.C.ExactString())
		b.WriteByte(byte('0' + int(t.C.Kind())))
	}
	b.WriteByte('|')
	switch t.K {
	case KIface, KNil, KStruct, KArray:
		b.WriteString(typeKey(t.T))
	}
	if t.Fn != nil {
		fmt.Fprintf(&b, "|%p", t.Fn)
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, c := range t.Co {
		fmt.Fprintf(&b, ";%d", c)
	}
	k := b.String()
	if x, ok := internTab[k]; ok {
		return x
	}
	n := t
	n.id = nextTerm
	nextTerm++
	internTab[k] = &n
	return &n
}

func mkConst(v constant.Value, t types.Type) *Term { return intern(Term{K: KConst, C: v, T: t}) }
func mkInt(n int64) *Term                          { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkStr(s string) *Term                         { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkBool(b bool) *Term                          { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkNil(t types.Type) *Term                     { return intern(Term{K: KNil}) }

func mkOp(op string, t types.Type, args ...*Term) *Term {
	return intern(Term{K: KOp, Op: op, T: t, Args: args})
}

func (t *Term) isNilConst() bool { return t != nil && t.K == KNil }
func (t *Term) isOp(op string) bool {
	return t != nil && t.K == KOp && t.Op == op
}
func (t *Term) boolConst() (bool, bool) {
	if t != nil && t.K == KConst && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}
func (t *Term) intConst() (int64, bool) {
	if t != nil && t.K == KConst && t.C.Kind() == constant.Int {
		if v, ok := constant.Int64Val(t.C); ok {
			return v, true
		}
	}
	return 0, false
}
func (t *Term) strConst() (string, bool) {
	if t != nil && t.K == KConst && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

// ---- linear arithmetic -----------------------------------------------------

type lin struct {
	c int64
	m map[*Term]int64
}

func toLin(t *Term) lin {
	t = stripTime(t)
	switch t.K {
	case KConst:
		if v, ok := t.intConst(); ok {
			return lin{c: v}
		}
	case KLin:
		l := lin{c: t.N0, m: map[*Term]int64{}}
		for i, a := range t.Args {
			l.m[a] = t.Co[i]
		}
		return l
	}
	return lin{m: map[*Term]int64{t: 1}}
}

// stripTime removes conversions that do not change the instant of a time.
func stripTime(t *Term) *Term {
	for t.K == KOp && (t.Op == "time.UTC" || t.Op == "time.Local" || t.Op == "time.In" || t.Op == "time.nomono") {
		t = t.Args[0]
	}
	return t
}

func (a lin) add(b lin, k int64) lin {
	r := lin{c: a.c + k*b.c, m: map[*Term]int64{}}
	for t, c := range a.m {
		r.m[t] += c
	}
	for t, c := range b.m {
		r.m[t] += k * c
	}
	for t, c := range r.m {
		if c == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (a lin) scale(k int64) lin { return lin{}.add(a, k) }

func (a lin) term(ty types.Type) *Term {
	if len(a.m) == 0 {
		return mkConst(constant.MakeInt64(a.c), ty)
	}
	var as []*Term
	for t := range a.m {
		as = append(as, t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && a.c == 0 && a.m[as[0]] == 1 {
		return as[0]
	}
	co := make([]int64, len(as))
	for i, t := range as {
		co[i] = a.m[t]
	}
	return intern(Term{K: KLin, Args: as, Co: co, N0: a.c, T: ty})
}

// canonical splits a into sign*part + c where part has no constant and a
// positive leading coefficient.
func (a lin) canonical() (part *Term, sign int64, c int64) {
	p := lin{m: a.m}
	t := p.term(types.Typ[types.Int64])
	lead := int64(1)
	if t.K == KLin {
		lead = t.Co[0]
	}
	if lead < 0 {
		return p.scale(-1).term(types.Typ[types.Int64]), -1, a.c
	}
	return t, 1, a.c
}

func mkGe0(a lin) *Term {
	if len(a.m) == 0 {
		return mkBool(a.c >= 0)
	}
	if len(a.m) == 1 {
		for t, k := range a.m {
			if t.isOp("sgn") && (k == 1 || k == -1) {
				l := toLin(t.Args[0])
				if k == -1 {
					l = l.scale(-1)
				}
				switch {
				case a.c >= 1:
					return mkBool(true)
				case a.c == 0:
					return mkGe0(l)
				case a.c == -1:
					return mkGe0(l.add(lin{c: 1}, -1))
				default:
					return mkBool(false)
				}
			}
			if k > 1 || k < -1 {
				// k*t + c >= 0  <=>  sign*t + floor(c/|k|) >= 0
				ak := k
				s := int64(1)
				if ak < 0 {
					ak, s = -ak, -1
				}
				fl := a.c / ak
				if a.c%ak != 0 && a.c < 0 {
					fl--
				}
				return mkGe0(lin{c: fl, m: map[*Term]int64{t: s}})
			}
		}
	}
	p, s, c := a.canonical()
	if s < 0 {
		// -p + c >= 0  <=>  !(p >= c+1)
		return mkNot(mkOp("ge0", types.Typ[types.Bool], toLin(p).add(lin{c: -c - 1}, 1).term(types.Typ[types.Int64])))
	}
	return mkOp("ge0", types.Typ[types.Bool], toLin(p).add(lin{c: c}, 1).term(types.Typ[types.Int64]))
}

func mkEq0(a lin) *Term {
	if len(a.m) == 0 {
		return mkBool(a.c == 0)
	}
	if len(a.m) == 1 {
		for t, k := range a.m {
			if t.isOp("sgn") && (k == 1 || k == -1) {
				l := toLin(t.Args[0])
				switch a.c * k {
				case 0:
					return mkEq0(l)
				case -1: // sgn == 1
					return mkGe0(l.add(lin{c: 1}, -1))
				case 1: // sgn == -1
					return mkGe0(l.scale(-1).add(lin{c: 1}, -1))
				default:
					return mkBool(false)
				}
			}
		}
	}
	p, s, c := a.canonical()
	return mkOp("eq0", types.Typ[types.Bool], toLin(p).add(lin{c: s * c}, 1).term(types.Typ[types.Int64]))
}

func mkNot(t *Term) *Term {
	if b, ok := t.boolConst(); ok {
		return mkBool(!b)
	}
	if t.isOp("not") {
		return t.Args[0]
	}
	return mkOp("not", types.Typ[types.Bool], t)
}

// ---- strings ---------------------------------------------------------------

func mkConcat(parts ...*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		if p.K == KConcat {
			fl = append(fl, p.Args...)
		} else {
			fl = append(fl, p)
		}
	}
	var out []*Term
	for _, p := range fl {
		if s, ok := p.strConst(); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if q, ok := out[n-1].strConst(); ok {
					out[n-1] = mkStr(q + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return intern(Term{K: KConcat, Args: out, T: types.Typ[types.String]})
}

func mkLen(t *Term) *Term {
	switch t.K {
	case KConst:
		if s, ok := t.strConst(); ok {
			return mkInt(int64(len(s)))
		}
	case KNil:
		return mkInt(0)
	case KConcat:
		l := lin{}
		for _, p := range t.Args {
			l = l.add(toLin(mkLen(p)), 1)
		}
		return l.term(types.Typ[types.Int])
	case KSlice:
		return mkInt(int64(t.Hi - t.N))
	case KArray:
		return mkInt(int64(len(t.Args)))
	}
	switch {
	case t.isOp("char"):
		return mkInt(1)
	case (t.isOp("rune") || t.isOp("conv:string")) && len(t.Args) == 1 && asciiChar(t.Args[0]):
		return mkInt(1)
	case t.isOp("append") && len(t.Args) > 0:
		return toLin(mkLen(t.Args[0])).add(lin{c: int64(len(t.Args) - 1)}, 1).term(types.Typ[types.Int])
	case t.isOp("bytes"), t.isOp("string") && byteSlice(t.Args[0].T):
		return mkLen(t.Args[0])
	}
	return mkOp("len", types.Typ[types.Int], t)
}

// ---- display ---------------------------------------------------------------

func (t *Term) String() string { return t.str(6) }

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d <= 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.K {
	case KConst:
		return t.C.String()
	case KNil:
		return "nil"
	case KSym:
		return t.Op
	case KAddr:
		return fmt.Sprintf("&obj%d", t.Obj)
	case KFieldAd:
		return t.Args[0].str(d-1) + "." + fieldName(t)
	case KIndexAd:
		return "&" + t.Args[0].str(d-1) + "[" + t.Args[1].str(d-1) + "]"
	case KStruct:
		return shortType(t.T) + "{" + args() + "}"
	case KArray:
		return "[" + args() + "]"
	case KSlice:
		return fmt.Sprintf("slice(obj%d)[%d:%d]", t.Obj, t.N, t.Hi)
	case KDyn:
		return fmt.Sprintf("slice(obj%d)", t.Obj)
	case KMap:
		return fmt.Sprintf("map(obj%d)", t.Obj)
	case KChan:
		return fmt.Sprintf("chan(obj%d)", t.Obj)
	case KIface:
		return t.Args[0].str(d)
	case KFunc:
		return t.Fn.Name()
	case KTuple:
		return "(" + args() + ")"
	case KLin:
		var s []string
		for i, a := range t.Args {
			switch t.Co[i] {
			case 1:
				s = append(s, "+"+a.str(d-1))
			case -1:
				s = append(s, "-"+a.str(d-1))
			default:
				s = append(s, fmt.Sprintf("%+d*%s", t.Co[i], a.str(d-1)))
			}
		}
		if t.N0 != 0 {
			s = append(s, fmt.Sprintf("%+d", t.N0))
		}
		return strings.TrimPrefix(strings.Join(s, ""), "+")
	case KConcat:
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, "+")
	case KOp:
		switch t.Op {
		case "ge0":
			return t.Args[0].str(d) + " >= 0"
		case "eq0":
			return t.Args[0].str(d) + " == 0"
		case "not":
			return "!(" + t.Args[0].str(d) + ")"
		case "eq":
			return t.Args[0].str(d-1) + " == " + t.Args[1].str(d-1)
		case "isnil":
			return t.Args[0].str(d) + " == nil"
		case "field":
			if n := opField(t); n != "" {
				return t.Args[0].str(d) + "." + n
			}
		case "deref":
			return "*" + t.Args[0].str(d)
		}
		return t.Op + "(" + args() + ")"
	}
	return "?"
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func fieldName(t *Term) string {
	if s := structOf(derefType(t.Args[0].T)); s != nil && t.N < s.NumFields() {
		return s.Field(t.N).Name()
	}
	return fmt.Sprint(t.N)
}

func opField(t *Term) string {
	if s := structOf(t.Args[0].T); s != nil && t.N < s.NumFields() {
		return s.Field(t.N).Name()
	}
	return fmt.Sprint(t.N)
}

func constInt(n int64) constant.Value { return constant.MakeInt64(n) }

func byteSlice(T types.Type) bool {
	if T == nil {
		return false
	}
	s, ok := T.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte])
}

// asciiChar: a character that is encoded as one byte.
func asciiChar(t *Term) bool {
	for t.K == KOp && strings.HasPrefix(t.Op, "conv:") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if k, ok := t.intConst(); ok {
		return k >= 0 && k < 128
	}
	if !t.isOp("index") {
		return false
	}
	s, ok := t.Args[0].strConst()
	for i := 0; i < len(s); i++ {
		ok = ok && s[i] < 128
	}
	return ok
}
