package main

// Models of library functions the repository builds on. Each model lists the
// possible outcomes of a call as documented by the library.

import (
	"go/constant"
	"go/types"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"
)

var models map[string]Model

const (
	pkgMemdb = modPath + "/internal/engine/memdb"
	pkgMongo = modPath + "/internal/engine/mongodb"
	pkgCtl   = modPath + "/internal/controller"
	pkgMW    = modPath + "/internal/middleware"
	pkgRoute = modPath + "/internal/router"
	pkgNonce = modPath + "/internal/nonce"
	pkgMet   = modPath + "/internal/metrics"
	pkgMain  = modPath + "/cmd/ratus"
	hMemdb   = "github.com/hashicorp/go-memdb"
	mgo      = "go.mongodb.org/mongo-driver/mongo"
)

var tErr = types.Universe.Lookup("error").Type()

func (c *CallCtx) resT(i int) types.Type {
	if c.sig.Results().Len() > i {
		return c.sig.Results().At(i).Type()
	}
	return nil
}

func (c *CallCtx) one(v *Term) []Ret { return []Ret{{St: c.st, V: v}} }

func (c *CallCtx) norm(i int) *Term { return c.st.facts.norm(c.args[i]) }

// failErr returns a fresh non-nil error.
func (x *Exec) failErr(st *State, name string) *Term {
	e := x.sym("err:"+name, tErr)
	st.assume(mkIsNil(e), false)
	return e
}

// pureOp models a side-effect free function.
// folded functions are evaluated for constant arguments.
var folded = map[string]any{
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte, "strings.Count": strings.Count, "strings.Contains": strings.Contains,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.HasSuffix": strings.HasSuffix, "strings.EqualFold": strings.EqualFold,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimSuffix": strings.TrimSuffix, "strings.ToUpper": strings.ToUpper, "strings.ReplaceAll": strings.ReplaceAll, "strings.Compare": strings.Compare,
	"strings.ToValidUTF8": strings.ToValidUTF8, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
}

// foldCall evaluates a call with constant arguments.
func foldCall(c *CallCtx) *Term {
	fn, ok := folded[c.name]
	if !ok {
		return nil
	}
	f := reflect.ValueOf(fn)
	var in []reflect.Value
	for i := range c.args {
		a := c.norm(i)
		if i >= f.Type().NumIn() {
			return nil
		}
		P := f.Type().In(i)
		if s, ok := a.strConst(); ok && P.Kind() == reflect.String {
			in = append(in, reflect.ValueOf(s))
		} else if n, ok := a.intConst(); ok && (P.Kind() == reflect.Int32 || P.Kind() == reflect.Uint8) {
			in = append(in, reflect.ValueOf(n).Convert(P))
		} else {
			return nil
		}
	}
	switch v := f.Call(in)[0]; v.Kind() {
	case reflect.Bool:
		return mkBool(v.Bool())
	case reflect.String:
		return mkStr(v.String())
	default:
		return mkInt(v.Int())
	}
}

func pureOp(c *CallCtx) []Ret {
	if v := foldCall(c); v != nil {
		return c.one(v)
	}
	n := c.sig.Results().Len()
	as := make([]*Term, len(c.args))
	for i := range c.args {
		as[i] = c.norm(i)
		// Resolve slices of known elements so that equal contents give equal results.
		if el, ok := c.x.elems(&c.st, as[i]); ok && as[i].K == KSlice {
			as[i] = intern(Term{K: KArray, T: as[i].T, Args: el})
		}
	}
	if n == 1 {
		return c.one(mkOp("fn:"+c.name, c.resT(0), as...))
	}
	rs := make([]*Term, n)
	for i := range rs {
		rs[i] = mkOp("fn:"+c.name+"."+string(rune('0'+i)), c.resT(i), as...)
	}
	return c.one(mkTuple(rs...))
}

func okFail(c *CallCtx, kind string, mk func(st *State) *Term) []Ret {
	// Two outcomes: success with mk's value and a nil error, or a zero value and
	// an error.
	ok, bad := c.st, c.st
	cc := *c
	cc.st = ok
	e1 := cc.event(kind, c.name)
	v := mk(&cc.st)
	e1.Res = []*Term{v, mkNil(nil)}
	cb := *c
	cb.st = bad
	e2 := cb.event(kind, c.name)
	er := c.x.failErr(&cb.st, kind)
	z := c.x.zero(c.resT(0))
	e2.Res = []*Term{z, er}
	c.x.paths++
	return []Ret{{St: cc.st, V: mkTuple(v, mkNil(nil))}, {St: cb.st, V: mkTuple(z, er)}}
}

// errOnly: nil or an error.
func errOnly(c *CallCtx, kind string) []Ret {
	ok, bad := *c, *c
	e1 := ok.event(kind, c.name)
	e1.Res = []*Term{mkNil(nil)}
	e2 := bad.event(kind, c.name)
	er := c.x.failErr(&bad.st, kind)
	e2.Res = []*Term{er}
	c.x.paths++
	return []Ret{{St: ok.st, V: mkNil(nil)}, {St: bad.st, V: er}}
}

func eventModel(kind string) Model {
	return func(c *CallCtx) []Ret {
		e := c.event(kind, c.name)
		r := c.x.freshResults(kind, c.sig)
		e.Res = flat(r)
		return c.one(r)
	}
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "path": true, "net/url": true, "path/filepath": true, "math/bits": true, "bytes": true, "encoding/hex": true, "net/textproto": true}

func prefixModel(name string) Model {
	if i := strings.LastIndexByte(name, '.'); i > 0 && name[0] != '(' {
		if purePkgs[name[:i]] && !strings.HasPrefix(name[i+1:], "NewBu") && !strings.HasPrefix(name[i+1:], "NewRe") {
			return pureOp
		}
	}
	switch {
	case strings.HasPrefix(name, "(time.Time)."), strings.HasPrefix(name, "(time.Duration)."), strings.HasPrefix(name, "(time.Month)."):
		return pureOp
	case strings.HasPrefix(name, "(reflect.Value)."), strings.HasPrefix(name, "(reflect.Kind)."):
		return pureOp
	case strings.HasPrefix(name, "(go.mongodb.org/mongo-driver/mongo.") && strings.HasSuffix(name, "HasErrorCode"):
		return pureOp
	}
	return nil
}

func registerTime() {
	dur := func() types.Type { return types.Typ[types.Int64] }
	_ = dur
	bin := func(f func(a, b lin, c *CallCtx) *Term) Model {
		return func(c *CallCtx) []Ret { return c.one(f(toLin(c.norm(0)), toLin(c.norm(1)), c)) }
	}
	models["time.Now"] = func(c *CallCtx) []Ret {
		t := c.x.sym("now", c.resT(0))
		e := c.event("time.now", c.name)
		e.Res = []*Term{t}
		return c.one(t)
	}
	models["(time.Time).Add"] = bin(func(a, b lin, c *CallCtx) *Term { return a.add(b, 1).term(c.resT(0)) })
	models["(time.Time).Sub"] = bin(func(a, b lin, c *CallCtx) *Term { return a.add(b, -1).term(c.resT(0)) })
	models["(time.Time).Before"] = bin(func(a, b lin, c *CallCtx) *Term { return mkGe0(b.add(a, -1).add(lin{c: 1}, -1)) })
	models["(time.Time).After"] = bin(func(a, b lin, c *CallCtx) *Term { return mkGe0(a.add(b, -1).add(lin{c: 1}, -1)) })
	models["(time.Time).Equal"] = bin(func(a, b lin, c *CallCtx) *Term { return mkEq0(a.add(b, -1)) })
	models["(time.Time).Compare"] = bin(func(a, b lin, c *CallCtx) *Term {
		d := a.add(b, -1)
		t := d.term(types.Typ[types.Int64])
		if v, ok := t.intConst(); ok {
			switch {
			case v < 0:
				return mkInt(-1)
			case v > 0:
				return mkInt(1)
			}
			return mkInt(0)
		}
		return mkOp("sgn", types.Typ[types.Int], t)
	})
	for _, n := range []string{"UTC", "Local", "In"} {
		op := "time." + n
		models["(time.Time)."+n] = func(c *CallCtx) []Ret { return c.one(mkOp(op, c.resT(0), c.norm(0))) }
	}
	models["(time.Time).Round"] = func(c *CallCtx) []Ret {
		if v, ok := c.norm(1).intConst(); ok && v == 0 {
			return c.one(mkOp("time.nomono", c.resT(0), c.norm(0)))
		}
		return pureOp(c)
	}
	models["(time.Time).IsZero"] = func(c *CallCtx) []Ret {
		return c.one(mkEq0(toLin(c.norm(0)).add(toLin(mkOp("timezero", c.args[0].T)), -1)))
	}
	models["(time.Time).UnixMilli"] = func(c *CallCtx) []Ret { return c.one(mkOp("unixmilli", c.resT(0), stripTime(c.norm(0)))) }
	models["time.UnixMilli"] = func(c *CallCtx) []Ret { return c.one(mkOp("frommilli", c.resT(0), c.norm(0))) }
	models["time.Unix"] = func(c *CallCtx) []Ret { return c.one(mkOp("fromunix", c.resT(0), c.norm(0), c.norm(1))) }
	since := func(k int64) Model {
		return func(c *CallCtx) []Ret {
			t := c.x.sym("now", c.args[0].T)
			e := c.event("time.now", c.name)
			e.Res = []*Term{t}
			return c.one(toLin(t).add(toLin(c.norm(0)), -1).scale(k).term(c.resT(0)))
		}
	}
	models["time.Since"] = since(1)
	models["time.Until"] = since(-1)
	models["time.ParseDuration"] = func(c *CallCtx) []Ret {
		s := c.norm(0)
		if k, isC := s.strConst(); isC {
			d, err := time.ParseDuration(k)
			if err != nil {
				return c.one(mkTuple(mkConst(constant.MakeInt64(0), c.resT(0)), c.x.failErr(&c.st, "duration")))
			}
			return c.one(mkTuple(mkConst(constant.MakeInt64(int64(d)), c.resT(0)), mkNil(nil)))
		}
		ok := mkOp("durOK", types.Typ[types.Bool], s)
		var outs []Ret
		a, b := c.st, c.st
		if a.assume(ok, true) {
			outs = append(outs, Ret{St: a, V: mkTuple(mkOp("parsedur", c.resT(0), s), mkNil(nil))})
		}
		if b.assume(ok, false) {
			outs = append(outs, Ret{St: b, V: mkTuple(mkConst(constant.MakeInt64(0), c.resT(0)), c.x.failErr(&b, "duration"))})
		}
		return outs
	}
	timer := func(kind string) Model {
		return func(c *CallCtx) []Ret {
			T := derefType(c.resT(0))
			v := c.x.zero(T)
			s := structOf(T)
			var ch *Term
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "C" {
					o := c.x.newObj(&c.st, s.Field(i).Type(), mkInt(1), kind, c.pos)
					ch = intern(Term{K: KChan, Obj: o.Obj, T: s.Field(i).Type()})
					v = withField(v, i, ch, T)
				}
			}
			p := c.x.newObj(&c.st, T, v, kind, c.pos)
			e := c.event(kind+".new", c.name)
			e.Res = []*Term{p, ch}
			return c.one(p)
		}
	}
	models["time.NewTicker"] = timer("ticker")
	models["time.NewTimer"] = timer("timer")
	chanOnly := func(kind string) Model {
		return func(c *CallCtx) []Ret {
			o := c.x.newObj(&c.st, c.resT(0), mkInt(1), kind, c.pos)
			ch := intern(Term{K: KChan, Obj: o.Obj, T: c.resT(0)})
			e := c.event(kind+".new", c.name)
			e.Res = []*Term{ch, ch}
			return c.one(ch)
		}
	}
	models["time.After"] = chanOnly("timer")
	models["time.Tick"] = chanOnly("ticker")
	for _, k := range []string{"Ticker", "Timer"} {
		models["(*time."+k+").Reset"] = eventModel(strings.ToLower(k) + ".reset")
		models["(*time."+k+").Stop"] = eventModel(strings.ToLower(k) + ".stop")
	}
	models["time.Sleep"] = eventModel("sleep")
}

// ---- formatting and errors ---------------------------------------------------

func fmtArg(verb byte, a *Term) *Term {
	v := a
	if v.K == KIface {
		v = v.Args[0]
	}
	if (verb == 's' || verb == 'v') && isStringy(v.T) {
		return v
	}
	if verb == 'd' || verb == 'v' {
		if n, ok := v.intConst(); ok && isBasicInt(v.T) {
			return mkStr(constant.MakeInt64(n).String())
		}
		if isBasicInt(v.T) {
			return mkOp("itoa", types.Typ[types.String], v)
		}
	}
	if v.isOp("errnew") || v.isOp("errorf") {
		return v.Args[0]
	}
	if (verb == 's' || verb == 'v' || verb == 'w') && a.T != nil && types.Identical(a.T, tErr) {
		return errText(a)
	}
	return mkOp("fmt:"+string(verb), types.Typ[types.String], a)
}

func isBasicInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func errText(e *Term) *Term {
	if e.isOp("errnew") || e.isOp("errorf") {
		return e.Args[0]
	}
	return mkOp("errtext", types.Typ[types.String], e)
}

func sprintf(c *CallCtx, format, argS *Term) (*Term, []*Term, bool) {
	f, ok := format.strConst()
	if !ok {
		return nil, nil, false
	}
	el, ok := c.x.elems(&c.st, c.st.facts.norm(argS))
	if !ok {
		return nil, nil, false
	}
	var parts, wrapped []*Term
	i := 0
	for k := 0; k < len(f); k++ {
		if f[k] != '%' {
			j := k
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, mkStr(f[k:j]))
			k = j - 1
			continue
		}
		k++
		start := k
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			return nil, nil, false
		}
		if f[k] == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		if i >= len(el) {
			parts = append(parts, mkStr("%!"+f[k:k+1]+"(MISSING)"))
			continue
		}
		a := c.st.facts.norm(el[i])
		i++
		if f[k] == 'w' {
			wrapped = append(wrapped, a)
		}
		if start != k {
			parts = append(parts, mkOp("fmt:"+f[start:k+1], types.Typ[types.String], a))
		} else {
			parts = append(parts, fmtArg(f[k], a))
		}
	}
	if i < len(el) {
		parts = append(parts, mkStr("%!(EXTRA)"))
	}
	return mkConcat(parts...), wrapped, true
}

func registerErrors() {
	models["errors.New"] = func(c *CallCtx) []Ret {
		c.x.nsym++
		return c.one(mkOp("errnew", tErr, c.norm(0), mkInt(int64(c.x.nsym))))
	}
	models["fmt.Errorf"] = func(c *CallCtx) []Ret {
		m, w, ok := sprintf(c, c.norm(0), c.args[1])
		if !ok {
			m = c.x.sym("message", types.Typ[types.String])
			w = []*Term{c.x.sym("wrapped", tErr)}
		}
		var ws []*Term
		for _, t := range w {
			if t.K == KIface && !t.isNilConst() {
				ws = append(ws, t)
				continue
			}
			ws = append(ws, t)
		}
		return c.one(mkOp("errorf", tErr, append([]*Term{m}, ws...)...))
	}
	models["errors.Join"] = func(c *CallCtx) []Ret {
		el, ok := c.x.elems(&c.st, c.norm(0))
		if !ok {
			return c.one(c.x.sym("joined", tErr))
		}
		var nn []*Term
		for _, e := range el {
			if c.st.known(mkIsNil(e)) != 1 {
				nn = append(nn, e)
			}
		}
		if len(nn) == 0 {
			return c.one(mkNil(nil))
		}
		// All remaining errors must be decided; fork on the undecided ones.
		outs := []Ret{}
		var rec func(st State, i int, acc []*Term)
		rec = func(st State, i int, acc []*Term) {
			if i == len(nn) {
				if len(acc) == 0 {
					outs = append(outs, Ret{St: st, V: mkNil(nil)})
				} else {
					outs = append(outs, Ret{St: st, V: mkOp("errorf", tErr, append([]*Term{c.x.sym("message", types.Typ[types.String])}, acc...)...)})
				}
				return
			}
			a, b := st, st
			if a.assume(mkIsNil(nn[i]), true) {
				rec(a, i+1, acc)
			}
			if b.assume(mkIsNil(nn[i]), false) {
				rec(b, i+1, append(acc[:len(acc):len(acc)], nn[i]))
			}
		}
		rec(c.st, 0, nil)
		return outs
	}
	models["errors.Is"] = func(c *CallCtx) []Ret {
		return c.one(mkOp("errIs", types.Typ[types.Bool], c.norm(0), c.norm(1)))
	}
	for n, t := range map[string]string{"os.IsNotExist": "io/fs.ErrNotExist", "os.IsExist": "io/fs.ErrExist", "os.IsPermission": "io/fs.ErrPermission"} {
		t := t
		models[n] = func(c *CallCtx) []Ret {
			return c.one(mkOp("errIs", types.Typ[types.Bool], c.norm(0), errGlobal(t)))
		}
	}
	models["errors.As"] = func(c *CallCtx) []Ret {
		t := c.args[1]
		for t.K == KIface {
			t = t.Args[0]
		}
		er := c.norm(0)
		if er.K == KNil || er.isOp("errnew") || er.isOp("err.global") || er.isOp("errorf") && len(er.Args) == 1 {
			if derefType(t.T).String() != "error" {
				return c.one(mkBool(false))
			}
		}
		if er.K == KIface && types.Identical(er.T, derefType(t.T)) {
			c.x.store(&c.st, t, er.Args[0])
			return c.one(mkBool(true))
		}
		ok := mkOp("errAs:"+typeKey(derefType(t.T)), types.Typ[types.Bool], er)
		a, b := c.st, c.st
		var outs []Ret
		if a.assume(ok, true) {
			a.assume(mkIsNil(c.norm(0)), false)
			T := derefType(t.T)
			val := mkOp("assert:"+typeKey(T), T, c.norm(0))
			if types.IsInterface(T) {
				val = mkOp("as:"+typeKey(T), T, c.norm(0))
			}
			c.x.store(&a, t, val)
			outs = append(outs, Ret{St: a, V: mkBool(true)})
		}
		if b.assume(ok, false) {
			outs = append(outs, Ret{St: b, V: mkBool(false)})
		}
		return outs
	}
	models["errors.Unwrap"] = pureOp
	models["(error).Error"] = func(c *CallCtx) []Ret { return c.one(errText(c.norm(0))) }
	models["fmt.Sprintf"] = func(c *CallCtx) []Ret {
		m, _, ok := sprintf(c, c.norm(0), c.args[1])
		if !ok {
			m = c.x.sym("sprintf", types.Typ[types.String])
		}
		return c.one(m)
	}
	models["fmt.Sprint"] = pureOp
	models["fmt.Sprintln"] = pureOp
	models["strconv.Itoa"] = func(c *CallCtx) []Ret {
		if n, ok := c.norm(0).intConst(); ok {
			return c.one(mkStr(constant.MakeInt64(n).String()))
		}
		return c.one(mkOp("itoa", types.Typ[types.String], c.norm(0)))
	}
	models["strconv.FormatInt"] = func(c *CallCtx) []Ret {
		if b, ok := c.norm(1).intConst(); ok && b == 10 {
			return models["strconv.Itoa"](c)
		}
		return pureOp(c)
	}
	models["strings.TrimPrefix"] = func(c *CallCtx) []Ret {
		s, ok1 := c.norm(0).strConst()
		p, ok2 := c.norm(1).strConst()
		if ok1 && ok2 {
			return c.one(mkStr(strings.TrimPrefix(s, p)))
		}
		return pureOp(c)
	}
	models["strings.CutPrefix"] = func(c *CallCtx) []Ret {
		w := strings.TrimPrefix(c.name, "strings.Cut")
		part := func(name string, T types.Type) *Term {
			if h := models[name]; h != nil {
				hc := *c
				hc.name = name
				hc.sig = types.NewSignatureType(nil, nil, nil, c.sig.Params(), types.NewTuple(types.NewVar(0, nil, "", T)), false)
				if r := h(&hc); len(r) == 1 {
					return r[0].V
				}
			}
			return mkOp("fn:"+name, T, c.norm(0), c.norm(1))
		}
		return c.one(mkTuple(part("strings.Trim"+w, types.Typ[types.String]), part("strings.Has"+w, types.Typ[types.Bool])))
	}
	models["strings.CutSuffix"] = models["strings.CutPrefix"]
	// Membership of a constant substring, however it is asked for.
	member := func(c *CallCtx) (*Term, bool) {
		k := c.norm(1)
		if s, ok := k.strConst(); ok {
			if strings.HasSuffix(c.name, "Any") && len(s) != 1 {
				return nil, false
			}
			return k, len(s) > 0
		}
		if n, ok := k.intConst(); ok && n >= 0 && n < 128 {
			return mkStr(string(rune(n))), true
		}
		return nil, false
	}
	for _, n := range []string{"Contains", "ContainsRune", "ContainsAny"} {
		models["strings."+n] = func(c *CallCtx) []Ret {
			k, ok := member(c)
			if !ok {
				return pureOp(c)
			}
			s := c.norm(0)
			if v, ok := s.strConst(); ok {
				w, _ := k.strConst()
				return c.one(mkBool(strings.Contains(v, w)))
			}
			return c.one(mkOp("contains", types.Typ[types.Bool], s, k))
		}
	}
	for _, n := range []string{"Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte", "Count"} {
		n := n
		models["strings."+n] = func(c *CallCtx) []Ret {
			k, ok := member(c)
			if _, isC := c.norm(0).strConst(); !ok || isC {
				return pureOp(c)
			}
			has := mkOp("contains", types.Typ[types.Bool], c.norm(0), k)
			r := mkOp("fn:"+c.name, c.resT(0), c.norm(0), c.norm(1))
			none := int64(-1)
			if n == "Count" {
				none = 0
			}
			var outs []Ret
			a, b := c.st, c.st
			if a.assume(has, true) && a.assume(mkGe0(toLin(r).add(lin{c: none + 1}, -1)), true) {
				outs = append(outs, Ret{St: a, V: r})
			}
			if b.assume(has, false) {
				outs = append(outs, Ret{St: b, V: mkConst(constant.MakeInt64(none), c.resT(0))})
			}
			c.x.paths++
			return outs
		}
	}
	models["strings.ToLower"] = func(c *CallCtx) []Ret {
		if s, ok := c.norm(0).strConst(); ok {
			return c.one(mkStr(strings.ToLower(s)))
		}
		return pureOp(c)
	}
	models["strings.HasSuffix"] = func(c *CallCtx) []Ret {
		if s, ok := c.norm(1).strConst(); ok {
			switch v := c.norm(0); v.K {
			case KConst:
				q, _ := v.strConst()
				return c.one(mkBool(strings.HasSuffix(q, s)))
			case KConcat:
				last := v.Args[len(v.Args)-1]
				if q, ok := last.strConst(); ok && len(q) >= len(s) {
					return c.one(mkBool(strings.HasSuffix(q, s)))
				}
				if last.isOp("itoa") && s != "" && (s[len(s)-1] < '0' || s[len(s)-1] > '9') {
					return c.one(mkBool(false))
				}
			}
		}
		return pureOp(c)
	}
	models["strings.HasPrefix"] = func(c *CallCtx) []Ret {
		if s, ok := c.norm(1).strConst(); ok {
			switch v := c.norm(0); v.K {
			case KConst:
				q, _ := v.strConst()
				return c.one(mkBool(strings.HasPrefix(q, s)))
			case KConcat:
				if q, ok := v.Args[0].strConst(); ok && len(q) >= len(s) {
					return c.one(mkBool(strings.HasPrefix(q, s)))
				}
			}
		}
		return pureOp(c)
	}
	models["strings.Join"] = func(c *CallCtx) []Ret {
		if el, ok := c.x.elems(&c.st, c.norm(0)); ok {
			var ps []*Term
			for i, e := range el {
				if i > 0 {
					ps = append(ps, c.norm(1))
				}
				ps = append(ps, e)
			}
			return c.one(mkConcat(ps...))
		}
		return pureOp(c)
	}
	models["reflect.ValueOf"] = pureOp
	models["reflect.Indirect"] = pureOp
	models["reflect.TypeOf"] = pureOp
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		models[n] = func(c *CallCtx) []Ret {
			e := c.event("exit", c.name)
			_ = e
			return []Ret{{St: c.st, Exit: true}}
		}
	}
	for _, n := range []string{"log.Print", "log.Printf", "log.Println", "runtime.Gosched", "runtime.KeepAlive", "runtime.GC"} {
		models[n] = func(c *CallCtx) []Ret { return c.one(c.x.freshResults("log", c.sig)) }
	}
	// Random numbers are within their range.
	for _, p := range []string{"math/rand.", "math/rand/v2.", "(*math/rand.Rand).", "(*math/rand/v2.Rand)."} {
		for _, n := range []string{"Int", "Int31", "Int63", "Int32", "Int64", "Intn", "Int31n", "Int63n", "IntN", "Int32N", "Int64N", "Uint32N", "Uint64N", "UintN"} {
			lim := strings.HasSuffix(strings.ToLower(n), "n")
			models[p+n] = func(c *CallCtx) []Ret {
				e := c.event("call", c.name)
				v := c.x.sym(c.name, c.resT(0))
				c.st.assume(mkGe0(toLin(v)), true)
				if lim {
					c.st.assume(mkGe0(toLin(c.norm(len(c.args)-1)).add(toLin(v), -1).add(lin{c: 1}, -1)), true)
				}
				e.Res = []*Term{v}
				return c.one(v)
			}
		}
	}
	models["crypto/rand.Int"] = func(c *CallCtx) []Ret {
		return okFail(c, "rand.crypto", func(st *State) *Term {
			v := c.x.sym("crypto/rand.Int", types.Typ[types.Int64])
			st.assume(mkGe0(toLin(v)), true)
			if m := c.norm(1); m.isOp("fn:math/big.NewInt") {
				st.assume(mkGe0(toLin(m.Args[0]).add(toLin(v), -1).add(lin{c: 1}, -1)), true)
			}
			return mkOp("nonnil:big", c.resT(0), v)
		})
	}
	models["math/big.NewInt"] = pureOp
	for _, n := range []string{"Int64", "Uint64"} {
		models["(*math/big.Int)."+n] = func(c *CallCtx) []Ret {
			if b := c.norm(0); b.isOp("nonnil:big") {
				return c.one(b.Args[0])
			}
			return pureOp(c)
		}
	}
	// Builders accumulate text.
	wr := func(c *CallCtx, piece *Term) {
		p := c.args[0]
		o := c.x.cell(&c.st, p)
		cur := o.get(mkStr("text"))
		if cur == nil {
			cur = mkStr("")
		}
		c.st.heap = c.st.heap.set(o.ID, o.with(mkStr("text"), mkConcat(cur, piece)))
	}
	for _, T := range []string{"strings.Builder", "bytes.Buffer"} {
		models["(*"+T+").WriteString"] = func(c *CallCtx) []Ret {
			c.event("text.write", c.name)
			wr(c, c.norm(1))
			return c.one(mkTuple(mkLen(c.norm(1)), mkNil(nil)))
		}
		models["(*"+T+").WriteByte"] = func(c *CallCtx) []Ret {
			c.event("text.write", c.name)
			wr(c, mkOp("char", types.Typ[types.String], c.norm(1)))
			return c.one(mkNil(nil))
		}
		models["(*"+T+").WriteRune"] = func(c *CallCtx) []Ret {
			c.event("text.write", c.name)
			wr(c, mkOp("rune", types.Typ[types.String], c.norm(1)))
			return c.one(mkTuple(c.x.sym("n", types.Typ[types.Int]), mkNil(nil)))
		}
		models["(*"+T+").Reset"] = func(c *CallCtx) []Ret {
			c.event("text.reset", c.name)
			c.x.setAttr(&c.st, c.args[0], "text", mkStr(""))
			return c.one(nil)
		}
		models["(*"+T+").Len"] = func(c *CallCtx) []Ret {
			if t := c.x.cell(&c.st, c.args[0]).get(mkStr("text")); t != nil {
				return c.one(mkLen(t))
			}
			return pureOp(c)
		}
		models["(*"+T+").Grow"] = func(c *CallCtx) []Ret { return c.one(nil) }
		models["(*"+T+").String"] = func(c *CallCtx) []Ret {
			o := c.x.cell(&c.st, c.args[0])
			t := o.get(mkStr("text"))
			if t == nil {
				t = mkStr("")
			}
			e := c.event("text.string", c.name)
			e.Res = []*Term{t}
			return c.one(t)
		}
	}
}

// ---- concurrency ---------------------------------------------------------------

func registerSync() {
	lock := func(kind string) Model {
		return func(c *CallCtx) []Ret {
			c.event(kind, c.name)
			switch kind {
			case "lock", "rlock":
				c.x.acquire(&c.st, c.args[0], kind == "rlock", c.pos)
			default:
				if !c.x.release(&c.st, c.args[0], kind == "runlock") {
					c.event("lock.unheld", c.name)
				}
			}
			return c.one(nil)
		}
	}
	for _, m := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		models[m+"Lock"] = lock("lock")
		models[m+"Unlock"] = lock("unlock")
	}
	models["(*sync.RWMutex).RLock"] = lock("rlock")
	models["(*sync.RWMutex).RUnlock"] = lock("runlock")
	for _, T := range []string{"Int32", "Int64", "Bool", "Uint32", "Uint64"} {
		for _, m := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "Or", "And"} {
			kind := "atomic." + strings.ToLower(m)
			models["(*sync/atomic."+T+")."+m] = eventModel(kind)
		}
	}
	const eg = "golang.org/x/sync/errgroup"
	models[eg+".WithContext"] = func(c *CallCtx) []Ret {
		T := derefType(c.resT(0))
		g := c.x.newObj(&c.st, T, c.x.zero(T), "errgroup", c.pos)
		ctx := mkOp("groupctx", c.resT(1), c.norm(0), g)
		e := c.event("group.new", c.name)
		e.Res = []*Term{g, ctx}
		return c.one(mkTuple(g, ctx))
	}
	models["(*"+eg+".Group).Go"] = func(c *CallCtx) []Ret {
		c.x.spawn(c.f, &c.st, c.site, nil, c.norm(1), nil, "group.go", c.args[0])
		return c.one(nil)
	}
	models["(*"+eg+".Group).SetLimit"] = eventModel("group.limit")
	models["(*"+eg+".Group).Wait"] = func(c *CallCtx) []Ret { return errOnly(c, "group.wait") }
	models["(*sync.WaitGroup).Add"] = eventModel("wg.add")
	models["(*sync.WaitGroup).Done"] = eventModel("wg.done")
	models["(*sync.WaitGroup).Wait"] = eventModel("wg.wait")
	models["(*sync.Once).Do"] = func(c *CallCtx) []Ret {
		a := c.st
		mu := mkOp("once", nil, c.args[0])
		c.x.acquire(&a, mu, false, c.pos)
		outs := c.x.callTerm(c.f, a, c.site, c.norm(1), nil, nil)
		for i := range outs {
			outs[i].V = nil
			c.x.release(&outs[i].St, mu, false)
		}
		outs = append(outs, Ret{St: c.st})
		// What is done once happens before everything after the call.
		for i := range outs {
			outs[i].St.held = &heldLock{prev: outs[i].St.held, mu: mu, read: true, done: true}
		}
		return outs
	}
	models["context.Background"] = func(c *CallCtx) []Ret { return c.one(mkOp("nonnil:ctx.bg", c.resT(0))) }
	models["context.TODO"] = models["context.Background"]
	wctx := func(kind string) Model {
		return func(c *CallCtx) []Ret {
			ctx := mkOp("nonnil:"+kind, c.resT(0), append([]*Term{c.norm(0), c.x.sym("c", types.Typ[types.Int])}, c.args[1:]...)...)
			cancel := mkOp("nonnil:cancel", c.resT(1), ctx)
			e := c.event(kind, c.name)
			e.Res = []*Term{ctx, cancel}
			return c.one(mkTuple(ctx, cancel))
		}
	}
	models["context.WithTimeout"] = wctx("ctx.timeout")
	models["context.WithDeadline"] = wctx("ctx.deadline")
	models["context.WithCancel"] = wctx("ctx.cancel")
	models["context.WithoutCancel"] = func(c *CallCtx) []Ret { return c.one(mkOp("nonnil:ctx.without", c.resT(0), c.norm(0))) }
	models["context.WithValue"] = func(c *CallCtx) []Ret { return c.one(mkOp("nonnil:ctx.value", c.resT(0), c.args...)) }
	models["(context.Context).Err"] = eventModel("ctx.err")
	models["(context.Context).Done"] = func(c *CallCtx) []Ret { return c.one(mkOp("nonnil:ctx.done", c.resT(0), c.norm(0))) }
	models["(context.Context).Value"] = pureOp
	models["os/signal.Notify"] = func(c *CallCtx) []Ret { c.event("signal.notify", c.name); return c.one(nil) }
	models["os/signal.Stop"] = func(c *CallCtx) []Ret { c.event("signal.stop", c.name); return c.one(nil) }
	models["os/signal.Reset"] = func(c *CallCtx) []Ret { c.event("signal.reset", c.name); return c.one(nil) }
	models["os/signal.Ignore"] = func(c *CallCtx) []Ret { c.event("signal.reset", c.name); return c.one(nil) }
	models["os/signal.NotifyContext"] = func(c *CallCtx) []Ret {
		ctx := mkOp("nonnil:ctx.signal", c.resT(0), c.norm(0), c.x.sym("c", types.Typ[types.Int]))
		e := c.event("signal.notify", c.name)
		stop := mkOp("nonnil:stop", c.resT(1), ctx)
		e.Res = []*Term{ctx, stop}
		return c.one(mkTuple(ctx, stop))
	}
	models["(*net/http.Server).ListenAndServe"] = func(c *CallCtx) []Ret {
		e := c.event("http.serve", c.name)
		er := c.x.failErr(&c.st, "http.serve")
		e.Res = []*Term{er}
		return c.one(er)
	}
	models["(*net/http.Server).ListenAndServeTLS"] = models["(*net/http.Server).ListenAndServe"]
	models["(*net/http.Server).Serve"] = models["(*net/http.Server).ListenAndServe"]
	models["(*net/http.Server).Shutdown"] = func(c *CallCtx) []Ret { return errOnly(c, "http.shutdown") }
	models["(*net/http.Server).Close"] = func(c *CallCtx) []Ret { return errOnly(c, "http.close") }
	models["(*net/http.Request).Context"] = func(c *CallCtx) []Ret {
		if r := c.norm(0); r.K == KAddr {
			if f := c.st.norm(mkField2(c.x.load(&c.st, r), "ctx")); c.st.notNil(f) || f.K == KOp || f.K == KIface {
				return c.one(f)
			}
		}
		return c.one(mkOp("nonnil:reqctx", c.resT(0), c.norm(0)))
	}
	for _, n := range []string{"Get", "Values"} {
		models["(net/http.Header)."+n] = func(c *CallCtx) []Ret {
			c.st.event(&Event{Kind: "header.get", Name: c.name, Args: []*Term{c.norm(0), c.norm(1)}, Pos: c.pos})
			return pureOp(c)
		}
	}
	models["(*net/http.Server).RegisterOnShutdown"] = eventModel("http.onshutdown")
	models["(*net/http.Server).SetKeepAlivesEnabled"] = eventModel("http.keepalive")
	models["(*net/http.Client).Do"] = func(c *CallCtx) []Ret {
		return okFail(c, "http.do", func(st *State) *Term {
			return c.x.sym("response", c.resT(0))
		})
	}
	models["net/http.NewRequestWithContext"] = func(c *CallCtx) []Ret {
		return okFail(c, "http.newrequest", func(st *State) *Term {
			return c.x.sym("request", c.resT(0))
		})
	}
	models["net/http.NewRequest"] = func(c *CallCtx) []Ret {
		bg := mkOp("nonnil:ctx.bg", nil)
		c.args = append([]*Term{bg}, c.args...)
		return okFail(c, "http.newrequest", func(st *State) *Term {
			return c.x.sym("request", c.resT(0))
		})
	}
	// A copy of a request with another context counts as another request.
	rectx := func(c *CallCtx) []Ret {
		for _, e := range c.st.events() {
			if e.Kind == "http.newrequest" && len(e.Res) == 2 && c.st.norm(e.Res[0]) == c.norm(0) {
				v := c.x.sym("request", c.resT(0))
				args := append([]*Term{c.norm(1)}, e.Args[1:]...)
				c.args = args
				n := c.event("http.newrequest", e.Name)
				n.Res = []*Term{v, mkNil(nil)}
				return c.one(v)
			}
		}
		// Otherwise the copy has the same fields and the other context.
		p := c.norm(0)
		T := derefType(c.resT(0))
		S := structOf(T)
		if S == nil || p.K == KNil {
			return c.one(c.x.sym("request", c.resT(0)))
		}
		v := c.x.load(&c.st, p)
		var fs []*Term
		for i := 0; i < S.NumFields(); i++ {
			f := c.st.norm(mkField(v, i))
			switch n := S.Field(i).Name(); {
			case n == "ctx":
				f = c.norm(1)
			case n == "URL" && strings.HasSuffix(c.name, ".Clone") && (c.st.notNil(f) || f.K == KAddr):
				f = c.x.newObj(&c.st, derefType(S.Field(i).Type()), c.x.load(&c.st, f), "url", c.pos)
			}
			fs = append(fs, f)
		}
		return c.one(c.x.newObj(&c.st, T, intern(Term{K: KStruct, T: T, Args: fs}), "request", c.pos))
	}
	models["(*net/http.Request).WithContext"] = rectx
	models["(*net/http.Request).Clone"] = rectx
	models["github.com/alexflint/go-arg.MustParse"] = func(c *CallCtx) []Ret {
		el, _ := c.x.elems(&c.st, c.norm(0))
		var vals []*Term
		for _, a := range el {
			for a.K == KIface {
				a = a.Args[0]
			}
			if T := derefType(a.T); T != nil {
				v := c.x.named("args", T)
				c.x.store(&c.st, a, v)
				vals = append(vals, v)
			}
		}
		c.event("args", c.name).Res = vals
		return c.one(c.x.freshResults("parser", c.sig))
	}
	models["encoding/binary.bigEndian.PutUint64"] = nil
	delete(models, "encoding/binary.bigEndian.PutUint64")
	models["(encoding/binary.bigEndian).PutUint64"] = func(c *CallCtx) []Ret {
		b := c.norm(1)
		if b.K == KSlice && b.Hi-b.N >= 8 {
			for i := 0; i < 8; i++ {
				c.x.store(&c.st, intern(Term{K: KIndexAd, Args: []*Term{b, mkInt(int64(i))}}), mkOp("be64", types.Typ[types.Uint8], c.norm(2), mkInt(int64(i))))
			}
			return c.one(nil)
		}
		c.x.havoc(&c.st, b, "putuint64")
		return c.one(nil)
	}
	models["(encoding/binary.bigEndian).AppendUint64"] = func(c *CallCtx) []Ret {
		if el, ok := c.x.elems(&c.st, c.norm(1)); ok {
			el = append([]*Term{}, el...)
			for i := 0; i < 8; i++ {
				el = append(el, mkOp("be64", types.Typ[types.Uint8], c.norm(2), mkInt(int64(i))))
			}
			return c.one(c.x.mkSlice(&c.st, c.resT(0), el))
		}
		return pureOp(c)
	}
}

func init() {
	models = map[string]Model{}
	registerTime()
	registerErrors()
	registerSync()
	registerMemdb()
	registerMongo()
	registerGin()
	registerFiles()
}
