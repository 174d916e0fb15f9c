package main

// Models of gin and the Prometheus client.

import (
	"go/types"
	"strings"
)

const ginP = "github.com/gin-gonic/gin"

// ginChain is the position in the handler chain of a request.
type ginChain struct {
	path     string
	handlers []*Term
	idx      int
	ctx      *Term
}

const ginAbort = 1 << 20

func (x *Exec) runChain(f *Frame, st State, ctx *Term) []Ret {
	// Emulates (*gin.Context).Next: index++, then run handlers in order.
	ch := st.chain
	if ch == nil {
		st.event(&Event{Kind: "gin.next"})
		return []Ret{{St: st}}
	}
	n := *ch
	n.idx++
	st.chain = &n
	outs := []Ret{}
	work := []State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		i := s.chain.idx
		if i >= len(s.chain.handlers) {
			outs = append(outs, Ret{St: s})
			continue
		}
		h := s.chain.handlers[i]
		s.event(&Event{Kind: "gin.handler", Args: []*Term{h}, Name: h.String()})
		for _, r := range x.callTerm(f, s, nil, h, []*Term{ctx}, h.sig()) {
			if r.Panic || r.Exit {
				outs = append(outs, r)
				continue
			}
			c := *r.St.chain
			c.idx++
			r.St.chain = &c
			work = append(work, r.St)
		}
	}
	for i := range outs {
		outs[i].V = nil
	}
	return outs
}

func (t *Term) sig() *types.Signature {
	if t.K == KFunc {
		return t.Fn.Signature
	}
	if t.T != nil {
		if s, ok := t.T.Underlying().(*types.Signature); ok {
			return s
		}
	}
	return types.NewSignatureType(nil, nil, nil, nil, nil, false)
}

func registerGin() {
	C := "(*" + ginP + ".Context)."
	ev := func(kind string) Model {
		return func(c *CallCtx) []Ret {
			e := c.event(kind, c.name)
			r := c.x.freshResults(kind, c.sig)
			e.Res = flat(r)
			return c.one(r)
		}
	}
	abort := func(c *CallCtx) {
		if c.st.chain != nil {
			n := *c.st.chain
			n.idx = ginAbort
			c.st.chain = &n
		}
	}
	models[C+"Next"] = func(c *CallCtx) []Ret { return c.x.runChain(c.f, c.st, c.args[0]) }
	models[C+"Abort"] = func(c *CallCtx) []Ret { abort(c); c.event("gin.abort", c.name); return c.one(nil) }
	models[C+"IsAborted"] = func(c *CallCtx) []Ret {
		if c.st.chain != nil {
			return c.one(mkBool(c.st.chain.idx >= ginAbort/2))
		}
		return c.one(c.x.sym("aborted", types.Typ[types.Bool]))
	}
	models[C+"Set"] = func(c *CallCtx) []Ret {
		c.event("gin.set", c.name)
		o := c.x.cell(&c.st, c.args[0])
		c.st.heap = c.st.heap.set(o.ID, o.with(mkOp("key", nil, c.norm(1)), c.norm(2)))
		return c.one(nil)
	}
	look := func(c *CallCtx) *Term {
		return c.x.cell(&c.st, c.args[0]).get(mkOp("key", nil, c.norm(1)))
	}
	models[C+"Get"] = func(c *CallCtx) []Ret {
		if v := look(c); v != nil {
			return c.one(mkTuple(v, mkBool(true)))
		}
		return c.one(mkTuple(mkNil(nil), mkBool(false)))
	}
	models[C+"MustGet"] = func(c *CallCtx) []Ret {
		if v := look(c); v != nil {
			return c.one(v)
		}
		c.event("panic", "MustGet of a missing key")
		return []Ret{{St: c.st, Panic: true}}
	}
	for _, n := range []string{"GetInt", "GetInt64", "GetString", "GetBool", "GetTime", "GetDuration"} {
		models[C+n] = func(c *CallCtx) []Ret {
			if v := look(c); v != nil && v.K == KIface && types.Identical(v.T, c.resT(0)) {
				return c.one(v.Args[0])
			}
			return c.one(c.x.zero(c.resT(0)))
		}
	}
	models[C+"Param"] = func(c *CallCtx) []Ret {
		// Parameters that the route does not declare are empty.
		if k, ok := c.norm(1).strConst(); ok && c.st.chain != nil && c.st.chain.path != "" {
			found := false
			for _, seg := range strings.Split(c.st.chain.path, "/") {
				if seg == ":"+k || seg == "*"+k {
					found = true
				}
			}
			if !found {
				return c.one(mkStr(""))
			}
		}
		return c.one(mkOp("param", c.resT(0), c.norm(1)))
	}
	for _, n := range []string{"Query", "PostForm", "GetHeader", "FullPath", "ClientIP", "RemoteIP", "ContentType", "HandlerName"} {
		models[C+n] = func(c *CallCtx) []Ret { return c.one(mkOp("gin."+c.name[len(C):], c.resT(0), c.args[1:]...)) }
	}
	models[C+"DefaultQuery"] = pureOp
	models[C+"GetQuery"] = pureOp
	bind := func(kind string, eof bool) Model {
		return func(c *CallCtx) []Ret {
			x := c.x
			p := unIface(c.norm(1))
			var outs []Ret
			ok := *c
			e := ok.event("bind."+kind, c.name)
			e.Res = []*Term{mkNil(nil)}
			e.Tag = x.havoc(&ok.st, p, "in:"+kind)
			outs = append(outs, Ret{St: ok.st, V: mkNil(nil)})
			eo := errGlobal("io.EOF")
			if eof {
				en := *c
				e := en.event("bind."+kind, c.name)
				e.Res = []*Term{eo}
				e.Tag = x.load(&en.st, p)
				outs = append(outs, Ret{St: en.st, V: eo})
			}
			bad := *c
			e = bad.event("bind."+kind, c.name)
			e.Tag = x.havoc(&bad.st, p, "in:partial-"+kind)
			er := x.failErr(&bad.st, "bind")
			bad.st.assume(mkEq(er, eo), false)
			bad.st.assume(mkOp("errIs", types.Typ[types.Bool], er, eo), false)
			e.Res = []*Term{er}
			outs = append(outs, Ret{St: bad.st, V: er})
			x.paths += 2
			return outs
		}
	}
	models[C+"ShouldBindJSON"] = bind("json", true)
	models[C+"ShouldBindQuery"] = bind("query", false)
	for _, n := range []string{"ShouldBindWith", "ShouldBindBodyWith"} {
		models[C+n] = func(c *CallCtx) []Ret {
			switch b := c.norm(2).String(); {
			case strings.Contains(b, "binding.JSON"):
				return bind("json", true)(c)
			case strings.Contains(b, "binding.Query"):
				return bind("query", false)(c)
			}
			return bind("other", true)(c)
		}
	}
	respond := func(codeArg int, ab bool) Model {
		return func(c *CallCtx) []Ret {
			e := c.event("gin.respond", c.name)
			e.Tag = c.norm(codeArg)
			if ab {
				abort(c)
			}
			return c.one(c.x.freshResults("respond", c.sig))
		}
	}
	for _, n := range []string{"JSON", "IndentedJSON", "PureJSON", "SecureJSON", "AsciiJSON", "String", "Data", "XML", "YAML", "Render", "Redirect", "HTML"} {
		models[C+n] = respond(1, false)
	}
	models[C+"AbortWithStatusJSON"] = respond(1, true)
	models[C+"AbortWithStatus"] = respond(1, true)
	models[C+"AbortWithError"] = respond(1, true)
	models[C+"Status"] = func(c *CallCtx) []Ret {
		e := c.event("gin.status", c.name)
		e.Tag = c.norm(1)
		return c.one(nil)
	}
	models[C+"Error"] = ev("gin.error")
	models[C+"Header"] = ev("gin.header")
	models["("+ginP+".ResponseWriter).Status"] = func(c *CallCtx) []Ret {
		e := c.event("gin.writerstatus", c.name)
		r := c.x.sym("status", c.resT(0))
		e.Res = []*Term{r}
		return c.one(r)
	}
	models[ginP+".WrapH"] = func(c *CallCtx) []Ret { return c.one(mkOp("nonnil:gin.wrap", c.resT(0), c.norm(0))) }
	models["(net/http.Handler).ServeHTTP"] = ev("http.handler")
	models["("+ginP+".HandlerFunc)."] = nil
	delete(models, "("+ginP+".HandlerFunc).")

	// Routing.
	models[ginP+".New"] = func(c *CallCtx) []Ret {
		T := derefType(c.resT(0))
		p := c.x.newObj(&c.st, T, c.x.sym("gin.Engine", T), "engine", c.pos)
		e := c.event("gin.new", c.name)
		e.Res = []*Term{p}
		return c.one(p)
	}
	models[ginP+".Default"] = models[ginP+".New"]
	models[ginP+".Mode"] = func(c *CallCtx) []Ret { return c.one(c.x.named("gin.Mode", c.resT(0))) }
	models["(*"+ginP+".RouterGroup).Group"] = func(c *CallCtx) []Ret {
		hs, _ := c.x.elems(&c.st, c.norm(2))
		r := mkOp("nonnil:group", c.resT(0), c.args[0], c.norm(1), c.x.sym("g", types.Typ[types.Int]), mkTuple(hs...))
		e := c.event("route.group", "")
		e.Args = append([]*Term{c.args[0], c.norm(1)}, hs...)
		e.Res = []*Term{r}
		return c.one(r)
	}
	route := func(method string) Model {
		return func(c *CallCtx) []Ret {
			m, p, h := mkStr(method), c.norm(1), c.norm(2)
			if method == "" {
				m, p, h = c.norm(1), c.norm(2), c.norm(3)
			}
			hs, ok := c.x.elems(&c.st, h)
			e := c.event("route", "")
			e.Args = append([]*Term{c.args[0], m, p}, hs...)
			if !ok {
				e.Name = "unknown handlers"
			}
			return c.one(c.x.freshResults("routes", c.sig))
		}
	}
	R := "(*" + ginP + ".RouterGroup)."
	for _, m := range []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
		models[R+m] = route(m)
	}
	models[R+"Any"] = route("ANY")
	models[R+"Handle"] = route("")
	useM := func(c *CallCtx) []Ret {
		hs, _ := c.x.elems(&c.st, c.norm(1))
		e := c.event("route.use", "")
		e.Args = append([]*Term{c.args[0]}, hs...)
		return c.one(c.x.freshResults("routes", c.sig))
	}
	models[R+"Use"] = useM
	models["(*"+ginP+".Engine).Use"] = useM
	for _, n := range []string{"NoRoute", "NoMethod"} {
		models["(*"+ginP+".Engine)."+n] = func(c *CallCtx) []Ret {
			hs, _ := c.x.elems(&c.st, c.norm(1))
			e := c.event("route.none", strings.TrimPrefix(c.name, "(*"+ginP+".Engine)."))
			e.Args = append([]*Term{c.args[0]}, hs...)
			return c.one(nil)
		}
	}
	models["(*"+ginP+".Engine).Handler"] = func(c *CallCtx) []Ret {
		return c.one(intern(Term{K: KIface, T: c.args[0].T, Args: []*Term{c.args[0]}}))
	}

	// Prometheus.
	const prom = "github.com/prometheus/client_golang/prometheus"
	for _, v := range []string{"CounterVec", "GaugeVec", "HistogramVec", "SummaryVec"} {
		models["(*"+prom+"."+v+").WithLabelValues"] = func(c *CallCtx) []Ret {
			hs, _ := c.x.elems(&c.st, c.norm(1))
			e := c.event("prom.with", c.name)
			r := mkOp("nonnil:prom.with", c.resT(0), append([]*Term{c.norm(0)}, hs...)...)
			e.Res = []*Term{r}
			return c.one(r)
		}
	}
	for _, t := range []string{"Counter", "Gauge", "Histogram", "Observer", "Summary"} {
		for _, m := range []string{"Add", "Inc", "Set", "Observe", "Sub", "Dec", "SetToCurrentTime"} {
			m := m
			models["("+prom+"."+t+")."+m] = func(c *CallCtx) []Ret {
				e := c.event("prom", m)
				_ = e
				return c.one(nil)
			}
		}
	}
	for _, v := range []string{"CounterVec", "GaugeVec", "HistogramVec", "SummaryVec"} {
		models["(*"+prom+"."+v+").With"] = func(c *CallCtx) []Ret {
			vec, m := c.norm(0), c.norm(1)
			if vec.isOp("nonnil:metric") && len(vec.Args) > 2 && vec.Args[1].K == KTuple && m.K == KMap {
				o, args := c.x.cell(&c.st, m), []*Term{vec}
				for _, l := range vec.Args[1].Args {
					if v := o.get(c.st.norm(l)); v != nil {
						args = append(args, c.st.norm(v))
					}
				}
				e := c.event("prom.with", c.name)
				r := mkOp("nonnil:prom.with", c.resT(0), args...)
				e.Res = []*Term{r}
				return c.one(r)
			}
			return c.one(c.x.sym("prom.with", c.resT(0)))
		}
	}
	// Metrics: the options, the labels and an identity. Those that are created with
	// promauto are registered with the default registry at once (see promRegistered).
	metric := func(c *CallCtx, from int) *Term {
		var args []*Term
		for i := from; i < len(c.args); i++ {
			a := c.norm(i)
			if el, ok := c.x.elems(&c.st, a); ok {
				a = mkTuple(el...)
			}
			args = append(args, a)
		}
		c.x.nsym++
		return mkOp("nonnil:metric", c.resT(0), append(args, mkInt(int64(c.x.nsym)))...)
	}
	register := func(c *CallCtx, reg *Term, ms ...*Term) {
		if promDefault(reg) {
			e := c.event("prom.register", c.name)
			e.Args = nil
			for _, m := range ms {
				e.Args = append(e.Args, unIface(c.st.norm(m)))
			}
		}
	}
	const auto = prom + "/promauto"
	dflt := mkOp("promdefault", nil)
	models[auto+".With"] = func(c *CallCtx) []Ret {
		return c.one(mkOp("promfactory", c.resT(0), c.norm(0)))
	}
	for _, n := range []string{"NewCounter", "NewCounterVec", "NewGauge", "NewGaugeVec", "NewHistogram", "NewHistogramVec", "NewSummary", "NewSummaryVec"} {
		models[prom+"."+n] = func(c *CallCtx) []Ret { return c.one(metric(c, 0)) }
		models[auto+"."+n] = func(c *CallCtx) []Ret {
			m := metric(c, 0)
			register(c, dflt, m)
			return c.one(m)
		}
		models["("+auto+".Factory)."+n] = func(c *CallCtx) []Ret {
			m := metric(c, 1)
			if f := c.norm(0); f.isOp("promfactory") {
				register(c, f.Args[0], m)
			}
			return c.one(m)
		}
	}
	many := func(from int) func(c *CallCtx) []Ret {
		return func(c *CallCtx) []Ret {
			reg := dflt
			if from == 1 {
				reg = c.norm(0)
			}
			if ms, ok := c.x.elems(&c.st, c.norm(from)); ok {
				register(c, reg, ms...)
			}
			return c.one(nil)
		}
	}
	models[prom+".MustRegister"] = many(0)
	models["("+prom+".Registerer).MustRegister"] = many(1)
	models[prom+".Register"] = func(c *CallCtx) []Ret {
		register(c, dflt, c.norm(0))
		return c.one(mkNil(nil))
	}
	models["("+prom+".Registerer).Register"] = func(c *CallCtx) []Ret {
		register(c, c.norm(0), c.norm(1))
		return c.one(mkNil(nil))
	}

	// The handlers that report metrics: the gatherer they ask.
	const ph = prom + "/promhttp"
	models[ph+".Handler"] = func(c *CallCtx) []Ret { return c.one(mkOp("nonnil:promhandler", c.resT(0), dflt)) }
	models[ph+".HandlerFor"] = func(c *CallCtx) []Ret {
		return c.one(mkOp("nonnil:promhandler", c.resT(0), c.norm(0)))
	}
	models[ph+".InstrumentMetricHandler"] = func(c *CallCtx) []Ret { return c.one(c.norm(1)) }
}

// promDefault: the registry in which the metrics are expected and that is reported.
func promDefault(t *Term) bool {
	t = unIface(t)
	if t.isOp("promdefault") {
		return true
	}
	return t.K == KSym && (strings.HasSuffix(t.Op, "prometheus.DefaultRegisterer") || strings.HasSuffix(t.Op, "prometheus.DefaultGatherer"))
}
