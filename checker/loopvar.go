package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A variable of a for statement that a function literal refers to is compiled
// as a new variable for each iteration, copied from the previous one. Where no
// reference to it outlives its iteration this is one variable.

// mergeLoopVars gives f one variable in place of one per iteration.
func mergeLoopVars(f *ssa.Function) {
	for _, b := range f.Blocks {
		for again := true; again; {
			again = false
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok && mergeLoopVar(p) {
					again = true
					break
				}
			}
		}
	}
}

func mergeLoopVar(p *ssa.Phi) bool {
	if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	var first *ssa.Alloc
	var rest []*ssa.Alloc
	for _, e := range p.Edges {
		if e == ssa.Value(p) {
			continue
		}
		a, ok := e.(*ssa.Alloc)
		if !ok || !a.Heap {
			return false
		}
		if a.Block() != p.Block() && a.Block().Dominates(p.Block()) {
			if first != nil && first != a {
				return false
			}
			first = a
			continue
		}
		dup := false
		for _, r := range rest {
			dup = dup || r == a
		}
		if !dup {
			rest = append(rest, a)
		}
	}
	if first == nil || len(rest) == 0 {
		return false
	}
	if !confined(p, p) || !confined(first, p) {
		return false
	}
	for _, a := range rest {
		if !confined(a, p) || !copiedFrom(a, p) {
			return false
		}
	}
	replaceValue(p, first)
	removeInstr(p)
	for _, a := range rest {
		replaceValue(a, first)
		removeInstr(a)
	}
	return true
}

// confined: the variable at v is only read, assigned and referred to by
// function literals that are called where they stand.
func confined(v ssa.Value, p *ssa.Phi) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Addr != v || r.Val == v {
				return false
			}
		case *ssa.Phi:
			if r != p {
				return false
			}
		case *ssa.MakeClosure:
			for _, u := range *r.Referrers() {
				switch u := u.(type) {
				case *ssa.DebugRef:
				case *ssa.Call:
					if u.Call.Value != ssa.Value(r) {
						return false
					}
					for _, a := range u.Call.Args {
						if a == ssa.Value(r) {
							return false
						}
					}
				default:
					return false
				}
			}
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !confined(g.FreeVars[i], nil) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// copiedFrom: a starts as a copy of the variable at p.
func copiedFrom(a *ssa.Alloc, p *ssa.Phi) bool {
	var ins []ssa.Instruction
	on := false
	for _, in := range a.Block().Instrs {
		if in == ssa.Instruction(a) {
			on = true
			continue
		}
		if _, ok := in.(*ssa.DebugRef); on && !ok {
			ins = append(ins, in)
		}
	}
	for _, in := range ins {
		switch in := in.(type) {
		case *ssa.Alloc:
			continue
		case *ssa.UnOp:
			if in.Op == token.MUL {
				continue
			}
		case *ssa.Store:
			if in.Addr != ssa.Value(a) {
				continue
			}
			l, ok := in.Val.(*ssa.UnOp)
			return ok && l.Op == token.MUL && l.X == ssa.Value(p) && l.Block() == a.Block()
		}
		return false
	}
	return false
}

func replaceValue(from, to ssa.Value) {
	refs := from.Referrers()
	for _, in := range *refs {
		for _, op := range in.Operands(nil) {
			if *op == from {
				*op = to
			}
		}
		*to.Referrers() = append(*to.Referrers(), in)
	}
	*refs = nil
}

func removeInstr(in ssa.Instruction) {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			b.Instrs = append(append([]ssa.Instruction{}, b.Instrs[:i]...), b.Instrs[i+1:]...)
			return
		}
	}
}
