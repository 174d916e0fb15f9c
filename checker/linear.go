package main

// Linear entailment: the facts of a path, seen as an element of the polyhedra
// domain, include a linear inequality. Used where intervals are too coarse.

import "math"

type row struct {
	m map[*Term]int64
	c int64
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (r row) reduce() row {
	var g int64
	for _, k := range r.m {
		g = gcd64(g, k)
	}
	if g > 1 {
		n := row{m: map[*Term]int64{}, c: floorDiv(r.c, g)}
		for v, k := range r.m {
			n.m[v] = k / g
		}
		return n
	}
	return r
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func rowOf(l lin) row {
	r := row{m: map[*Term]int64{}, c: l.c}
	for v, k := range l.m {
		if k != 0 {
			r.m[v] = k
		}
	}
	return r
}

// linearFacts lists the linear inequalities known on a path.
func (s *State) linearFacts() (rows []row) {
	addLin := func(l lin) { rows = append(rows, rowOf(l)) }
	for _, f := range s.facts.list {
		t := s.norm(f.t)
		truth := f.truth
		for t.isOp("not") {
			t, truth = t.Args[0], !truth
		}
		switch {
		case t.isOp("ge0") && truth:
			addLin(toLin(t.Args[0]))
		case t.isOp("ge0"):
			addLin(lin{c: -1}.add(toLin(t.Args[0]), -1))
		case t.isOp("eq0") && truth:
			addLin(toLin(t.Args[0]))
			addLin(toLin(t.Args[0]).scale(-1))
		}
		// An equality that was turned into a substitution is kept by it.
		if t != f.t && (f.t.isOp("eq0")) && f.truth {
			addLin(toLin(f.t.Args[0]))
			addLin(toLin(f.t.Args[0]).scale(-1))
		}
	}
	return
}

// entails reports whether the facts of the path imply goal >= 0.
func (s *State) entails(goal lin) bool {
	goal = toLin(s.norm(goal.term(nil)))
	if len(goal.m) == 0 {
		return goal.c >= 0
	}
	rows := s.linearFacts()
	neg := rowOf(lin{c: -1}.add(goal, -1))
	// Keep what is connected to the goal.
	rel := map[*Term]bool{}
	for v := range neg.m {
		rel[v] = true
	}
	used := make([]bool, len(rows))
	for again := true; again; {
		again = false
		for i, r := range rows {
			if used[i] || len(r.m) == 0 {
				continue
			}
			for v := range r.m {
				if rel[v] {
					used[i], again = true, true
					break
				}
			}
			if used[i] {
				for v := range r.m {
					rel[v] = true
				}
			}
		}
	}
	sys := []row{neg.reduce()}
	for i, r := range rows {
		if used[i] {
			sys = append(sys, r.reduce())
		}
	}
	for v := range rel {
		b := s.facts.bounds(v)
		if b.lo != negInf {
			sys = append(sys, row{map[*Term]int64{v: 1}, -b.lo})
		}
		if b.hi != posInf {
			sys = append(sys, row{map[*Term]int64{v: -1}, b.hi})
		}
		if v.isOp("len") {
			sys = append(sys, row{map[*Term]int64{v: 1}, 0})
		}
	}
	return infeasible(sys)
}

func (s *State) entailsEq(l lin) bool { return s.entails(l) && s.entails(l.scale(-1)) }

// infeasible eliminates the variables one by one (Fourier-Motzkin).
func infeasible(sys []row) bool {
	for {
		best, cost := (*Term)(nil), math.MaxInt
		cnt := map[*Term][2]int{}
		for _, r := range sys {
			if len(r.m) == 0 {
				if r.c < 0 {
					return true
				}
				continue
			}
			for v, k := range r.m {
				n := cnt[v]
				if k > 0 {
					n[0]++
				} else {
					n[1]++
				}
				cnt[v] = n
			}
		}
		for v, n := range cnt {
			if w := n[0] * n[1]; w < cost || w == cost && best != nil && v.id < best.id {
				best, cost = v, w
			}
		}
		if best == nil {
			return false
		}
		var pos, neg, rest []row
		for _, r := range sys {
			switch k := r.m[best]; {
			case k > 0:
				pos = append(pos, r)
			case k < 0:
				neg = append(neg, r)
			case len(r.m) > 0 || r.c < 0:
				rest = append(rest, r)
			}
		}
		seen := map[string]bool{}
		for _, p := range pos {
			for _, n := range neg {
				a, b := -n.m[best], p.m[best]
				if big(a) || big(b) || big(p.c) || big(n.c) {
					continue // would overflow: drop the consequence
				}
				r := row{m: map[*Term]int64{}, c: a*p.c + b*n.c}
				for v, k := range p.m {
					r.m[v] += a * k
				}
				for v, k := range n.m {
					r.m[v] += b * k
				}
				for v, k := range r.m {
					if k == 0 {
						delete(r.m, v)
					}
				}
				r = r.reduce()
				key := lin{m: r.m, c: r.c}.term(nil).String()
				if !seen[key] {
					seen[key] = true
					rest = append(rest, r)
				}
			}
		}
		if len(rest) > 2000 {
			return false
		}
		sys = rest
	}
}

func big(a int64) bool { return a > 1<<40 || a < -(1<<40) }
