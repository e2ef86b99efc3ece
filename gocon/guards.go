package main

// strip simplifies the hypotheses of a query by what is known without
// condition: the guards of facts are mostly part of the path condition of
// the goal.
func (q *Query) strip() *Query {
	known := map[*Term]bool{}
	var units, rest []*Term
	var add func(t *Term)
	add = func(t *Term) {
		for _, x := range conj(t) {
			if x.op == OpAnd {
				add(x)
				continue
			}
			if x.op == OpOr {
				rest = append(rest, x)
				continue
			}
			if !known[x] {
				known[x] = true
				units = append(units, x)
			}
		}
	}
	for _, h := range q.hyps {
		add(h)
	}
	for round := 0; round < 6; round++ {
		todo := rest
		rest = nil
		n := len(units)
		for _, x := range todo {
			add(stripOr(x, known))
		}
		if len(units) == n {
			break
		}
	}
	s := *q
	seen := map[*Term]bool{}
	s.hyps = nil
	for _, l := range [][]*Term{units, rest} {
		for _, x := range l {
			if !seen[x] && x != True {
				seen[x] = true
				s.hyps = append(s.hyps, x)
			}
		}
	}
	if s.goal.op == OpOr {
		s.goal = stripOr(s.goal, known)
	}
	return &s
}

func stripOr(x *Term, known map[*Term]bool) *Term {
	if x.op != OpOr {
		return x
	}
	var l []*Term
	for _, d := range x.args {
		if known[d] {
			return True
		}
		if d.op == OpNot && d.args[0].op == OpAnd {
			var g []*Term
			for _, y := range d.args[0].args {
				if known[y] {
					continue
				}
				if known[Not(y)] {
					return True
				}
				g = append(g, y)
			}
			if len(g) == 0 {
				continue
			}
			if len(g) < len(d.args[0].args) {
				d = Not(And(g...))
			}
			l = append(l, d)
			continue
		}
		if known[Not(d)] {
			continue
		}
		if d.op == OpAnd {
			var g []*Term
			for _, y := range d.args {
				if known[Not(y)] {
					g = nil
					break
				}
				if !known[y] {
					g = append(g, y)
				}
			}
			if g == nil {
				// denied, or all known
				all := true
				for _, y := range d.args {
					all = all && known[y]
				}
				if all {
					return True
				}
				continue
			}
			d = And(g...)
		}
		l = append(l, d)
	}
	return Or(l...)
}
