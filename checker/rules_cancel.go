package main

// Rules about cancellation: work is bound to the context of those who asked for it.

import (
	"go/types"
	"strings"
)

// sameLife: the context ends when the base ends, and is not given a time limit.
func sameLife(st *State, v *Term, base func(*Term) bool) bool {
	return derivedCtx(st, v, base) && !containsOp(st.norm(v), "nonnil:ctx.timeout") && !containsOp(st.norm(v), "nonnil:ctx.deadline")
}

// derivedCtx: the context ends when the base ends.
func derivedCtx(st *State, v *Term, base func(*Term) bool) bool {
	for n := 0; v != nil && n < 20; n++ {
		v = unIface(st.norm(v))
		if base(v) {
			return true
		}
		if v.K != KOp || len(v.Args) == 0 {
			return false
		}
		switch v.Op {
		case "groupctx", "nonnil:ctx.timeout", "nonnil:ctx.deadline", "nonnil:ctx.cancel", "nonnil:ctx.value", "nonnil:ctx.signal":
			v = v.Args[0]
		default:
			return false
		}
	}
	return false
}

// endedCtx: the context, or one it derives from, has been ended by the events before.
func (c *Checker) endedCtx(st *State, v *Term, before []*Event) bool {
	for n := 0; v != nil && n < 20; n++ {
		v = unIface(st.norm(v))
		for _, e := range before {
			if c.cancels(st, e, v) {
				return true
			}
			if v.isOp("groupctx") && len(v.Args) > 1 && e.Kind == "group.wait" && len(e.Args) > 0 && st.norm(e.Args[0]) == st.norm(v.Args[1]) {
				return true
			}
		}
		if v.K != KOp || len(v.Args) == 0 || !(v.Op == "groupctx" || strings.HasPrefix(v.Op, "nonnil:ctx.")) {
			return false
		}
		v = v.Args[0]
	}
	return false
}

func isCtxType(T types.Type) bool { return T != nil && typeKey(T) == "context.Context" }

// eachEvent visits all events of an outcome, those of loops and of activities it
// starts included, with the events known to come before.
func eachEvent(st *State, ev, before []*Event, depth int, f func(st *State, e *Event, before []*Event)) {
	if depth > 6 {
		return
	}
	b := append([]*Event{}, before...)
	for _, e := range ev {
		f(st, e, b)
		if e.Loop != nil {
			for _, s := range e.Loop.Steps {
				eachEvent(&s.St, s.Events, b, depth+1, f)
			}
		}
		for i := range e.Sub {
			eachEvent(&e.Sub[i].St, e.Sub[i].St.events(), b, depth+1, f)
		}
		b = append(b, e)
	}
}

func (c *Checker) cancelRules() {
	// The database commands of the MongoDB engine.
	for _, name := range append(append([]string{}, mongoMethods...), "Ready", "Open", "Close") {
		where := mongoWhere(name)
		fn := c.mongoFn(name)
		if fn == nil {
			continue
		}
		var ctx *Term
		for i, p := range fn.Params {
			if isCtxType(p.Type()) {
				ctx = c.param(fn, i)
			}
		}
		if !c.must(ctx != nil, "cancel-command", where, fn.Pos(), nil, "%s does not take a context", name) {
			continue
		}
		base := func(v *Term) bool { return v == ctx }
		rets := c.mongo(name)
		n := 0
		for i := range rets {
			eachEvent(&rets[i].St, rets[i].St.events(), nil, 0, func(st *State, e *Event, before []*Event) {
				if !strings.HasPrefix(e.Kind, "mongo") && !(e.Kind == "call" && strings.Contains(e.Name, "mongo-driver")) {
					return
				}
				for _, a := range e.Args {
					if a == nil || !isCtxType(a.T) && !isCtxType(st.norm(a).T) && !strings.HasPrefix(st.norm(a).Op, "nonnil:ctx.") {
						continue
					}
					n++
					c.must(derivedCtx(st, a, base), "cancel-command", where, e.Pos, st, "the command is not sent in the context of the caller, but in %v", a)
					c.must(!c.endedCtx(st, a, before), "cancel-early", where, e.Pos, st, "the command is sent in a context that has ended")
				}
			})
		}
		c.must(n > 0, "cancel-command", where, fn.Pos(), nil, "no command takes the context")
	}
	c.atLeast("cancel-command", 200)
	// The operations of the handlers.
	req := func(v *Term) bool { return v.isOp("nonnil:reqctx") }
	c.eachAPI(func(o *apiOut) {
		for _, e := range o.eng {
			if len(e.Args) < 2 {
				continue
			}
			c.must(derivedCtx(&e.St, e.Args[1], req), "cancel-operation", o.where, e.Pos, &e.St, "the operation is not canceled with the request")
			c.must(!c.endedCtx(&e.St, e.Args[1], evBefore(o.ev, e)), "cancel-early", o.where, e.Pos, &e.St, "the operation is performed in a context that has ended")
		}
	})
	c.atLeast("cancel-operation", 200)
	// The requests of the client.
	for _, n := range clientMethods {
		c.clientOuts(n, func(o *cliOut) {
			for _, e := range o.ret.St.events() {
				st := &o.ret.St
				sent := false
				for _, d := range o.sends {
					sent = sent || len(e.Res) == 2 && st.norm(d.Args[1]) == st.norm(e.Res[0])
				}
				if e.Kind != "http.newrequest" || !sent {
					continue
				}
				c.must(derivedCtx(st, e.Args[0], func(v *Term) bool { return v == st.norm(o.ctx) }), "cancel-request", o.name, e.Pos, st, "the request is not canceled with the context of the caller")
				c.must(!c.endedCtx(st, e.Args[0], evBefore(st.events(), e)), "cancel-early", o.name, e.Pos, st, "the request is sent in a context that has ended")
			}
		})
	}
	c.atLeast("cancel-request", 60)
}
