package main

import "os"

// Case splits of goals about texts. A text built on different paths is an
// ite; comparing it with the specified text is done path by path, so that
// equal parts can be removed before a solver sees the goal.

type subgoal struct {
	pc, goal *Term
	facts    []*Term
}

const maxSplit = 300

type splitter struct {
	n    int
	out  []subgoal
	over bool
	root *Term // holds in all cases
	// pairs of repetitions to compare, and what holds whenever they are
	pairs map[[2]*Term]*Term
	queue [][2]*Term
}

func hasStrIte(t *Term) bool {
	switch t.op {
	case OpAnd, OpOr, OpNot:
		for _, a := range t.args {
			if hasStrIte(a) {
				return true
			}
		}
	case OpEq:
		if t.args[0].sort != SStr {
			return false
		}
		if _, _, ok := foldPair(t); ok {
			return true
		}
		return splitCond(t) != nil
	case OpIte:
		return t.sort == SBool && (hasStrEq(t.args[1]) || hasStrEq(t.args[2]))
	}
	return false
}

func hasStrEq(t *Term) bool {
	switch t.op {
	case OpAnd, OpOr, OpNot, OpIte:
		for _, a := range t.args {
			if hasStrEq(a) {
				return true
			}
		}
	case OpEq:
		return t.args[0].sort == SStr
	}
	return false
}

// splitCond is the condition of the first ite at which the texts differ
func splitCond(t *Term) *Term {
	a, b := t.args[0], t.args[1]
	pa, pb := parts(a), parts(b)
	for _, p := range [][]*Term{pa, pb} {
		if len(p) == 1 && p[0].op == OpIte {
			return p[0].args[0]
		}
	}
	for _, p := range [][]*Term{pa, pb} {
		if len(p) > 0 && p[0].op == OpIte {
			return p[0].args[0]
		}
	}
	for _, p := range [][]*Term{pa, pb} {
		if len(p) > 0 && p[len(p)-1].op == OpIte {
			return p[len(p)-1].args[0]
		}
	}
	for _, p := range [][]*Term{pa, pb} {
		for _, x := range p {
			if x.op == OpIte {
				return x.args[0]
			}
		}
	}
	return nil
}

// foldPair: both texts start with a repetition (a fold), after what they
// have in common
func foldPair(t *Term) (a, b *Term, ok bool) {
	pa, pb := parts(t.args[0]), parts(t.args[1])
	if len(pa) == 0 || len(pb) == 0 {
		return nil, nil, false
	}
	a, b = pa[0], pb[0]
	ok = isFold(a) && isFold(b) && (a.name != b.name || a.args[0] != b.args[0])
	return
}

func isFold(t *Term) bool {
	return t.op == OpApp && theEngine.foldByName[t.name] != nil
}

// common gives conjuncts of both conditions
func common(a, b *Term) *Term {
	in := map[*Term]bool{}
	for _, c := range conj(b) {
		in[c] = true
	}
	var l []*Term
	for _, c := range conj(a) {
		if in[c] {
			l = append(l, c)
		}
	}
	return And(l...)
}

func (s *splitter) drain() {
	done := map[[2]*Term]*Term{}
	for len(s.queue) > 0 && !s.over {
		k := s.queue[0]
		s.queue = s.queue[1:]
		pc := s.pairs[k]
		if done[k] == pc {
			continue
		}
		done[k] = pc
		pc = And(s.root, pc)
		a, b := k[0], k[1]
		s.step(pc, Eq(a.args[0], b.args[0]))
		sk := NewVar("sk", SInt, 0)
		x, y := theEngine.foldBody(a, sk), theEngine.foldBody(b, sk)
		pc = And(pc, Le(Int(0), sk), Lt(sk, a.args[0]))
		if l, ok := diffs(x, y); ok {
			// the same text of equal elements
			for _, d := range l {
				s.out = append(s.out, subgoal{pc: pc, goal: d})
			}
			continue
		}
		s.step(pc, Eq(x, y))
	}
}

// folds compares two repetitions: they are equal if they have the same number
// of rounds and equal texts in each. (This is enough, not necessary.)
func (s *splitter) folds(pc, goal *Term) {
	if g := emptied(pc, goal); g != goal {
		s.step(pc, g)
		return
	}
	a, b, ok := foldPair(goal)
	if !ok {
		s.out = append(s.out, subgoal{pc: pc, goal: goal})
		return
	}
	k := [2]*Term{a, b}
	if old, ok := s.pairs[k]; ok {
		c := common(old, pc)
		if c != old {
			s.queue = append(s.queue, k)
		}
		s.pairs[k] = c
	} else {
		s.pairs[k] = pc
		s.queue = append(s.queue, k)
	}
	s.step(pc, Eq(Concat(parts(goal.args[0])[1:]...), Concat(parts(goal.args[1])[1:]...)))
}

// atomOf gives a condition without connectives
func atomOf(c *Term) *Term {
	for c.op == OpAnd || c.op == OpOr || c.op == OpNot || c.op == OpIte {
		c = c.args[0]
	}
	return c
}

func (s *splitter) step(pc, goal *Term) {
	if goal == True {
		return
	}
	s.n++
	if debugSplit {
		println("step", s.n, len(s.out), goal.op, goal.str(5))
	}
	if s.n > 40*maxSplit || len(s.out) > maxSplit {
		s.over = true
	}
	if s.over || pc == False || goal == True {
		return
	}
	switch goal.op {
	case OpAnd:
		for _, a := range goal.args {
			s.step(pc, a)
		}
		return
	case OpOr:
		for i, a := range goal.args {
			if hasStrIte(a) {
				rest := pc
				for j, b := range goal.args {
					if j != i {
						rest = And(rest, Not(b))
					}
				}
				s.step(rest, a)
				return
			}
		}
	case OpEq, OpIte:
		var c *Term
		if goal.op == OpIte {
			c = goal.args[0]
		} else {
			if goal.args[0].sort != SStr {
				break
			}
			c = splitCond(goal)
			if c == nil {
				s.folds(pc, goal)
				return
			}
		}
		c = atomOf(c)
		if c.op == OpIte || c.bound {
			break
		}
		for _, v := range []*Term{True, False} {
			m := map[*Term]*Term{c: v}
			if v == True && c.op == OpEq && c.args[0].sort == SInt {
				if c.args[1].op == OpInt && c.args[0].op != OpLin {
					m[c.args[0]] = c.args[1]
				} else if c.args[0].op == OpInt && c.args[1].op != OpLin {
					m[c.args[1]] = c.args[0]
				}
			}
			lit := c
			if v == False {
				lit = Not(c)
			}
			s.step(And(Subst(pc, m), lit), Subst(goal, m))
		}
		return
	}
	s.out = append(s.out, subgoal{pc: pc, goal: goal})
}

// split gives subgoals that together imply the goal, or nil
func splitGoal(pc, goal *Term) ([]subgoal, bool) {
	if !hasStrIte(goal) {
		return nil, false
	}
	s := &splitter{root: pc, pairs: map[[2]*Term]*Term{}}
	s.step(pc, goal)
	s.drain()
	if s.over {
		return nil, false
	}
	return s.out, true
}

var debugSplit = os.Getenv("GOCON_SPLIT") != ""

// diffs gives equations between elements of arrays that make two terms of one
// shape equal
func diffs(a, b *Term) ([]*Term, bool) {
	var l []*Term
	seen := map[[2]*Term]bool{}
	var rec func(a, b *Term) bool
	rec = func(a, b *Term) bool {
		k := [2]*Term{a, b}
		if a == b || seen[k] {
			return true
		}
		seen[k] = true
		if a.op == OpIte && b.op == OpIte && a.args[0] == Not(b.args[0]) {
			return rec(a.args[1], b.args[2]) && rec(a.args[2], b.args[1])
		}
		if a.op == OpSelect && b.op == OpSelect && a.sort == b.sort && a.args[0] != b.args[0] {
			if a.sort != SInt && a.sort != SBool && a.sort != SStr {
				return false
			}
			l = append(l, Eq(a, b))
			return len(l) <= 6
		}
		if a.op != b.op || a.name != b.name || a.sort != b.sort || a.ival != b.ival || len(a.args) != len(b.args) || len(a.args) == 0 {
			if debugSplit {
				println("DIFF", a.op, b.op, a.str(3), "|||", b.str(3))
			}
			return false
		}
		if len(a.coefs) != len(b.coefs) || a.op == OpForall {
			return false
		}
		for i := range a.coefs {
			if a.coefs[i] != b.coefs[i] {
				return false
			}
		}
		for i := range a.args {
			if !rec(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	ok := rec(a, b)
	if debugSplit {
		println("DIFFS", ok, len(l))
	}
	return l, ok
}

// premises moves the premises of an implication into the path condition and
// simplifies the conclusion with what is certain then
func premises(pc, goal *Term) (*Term, *Term) {
	if goal.op != OpOr {
		return pc, goal
	}
	var pre, concl []*Term
	for _, a := range goal.args {
		if a.op == OpForall || a.op == OpOr && mentionsQuant(a) || mentionsQuant(a) {
			concl = append(concl, a)
		} else {
			pre = append(pre, Not(a))
		}
	}
	if len(concl) != 1 || len(pre) == 0 {
		return pc, goal
	}
	p := And(append(append([]*Term{}, pre...), pc)...)
	for i := 0; i < 8; i++ {
		q := unitPC(p)
		if q == p {
			break
		}
		p = q
	}
	g := concl[0]
	for i := 0; i < 4; i++ {
		h := underPC(p, g)
		if h == g {
			break
		}
		g = h
	}
	return p, g
}

func mentionsQuant(t *Term) bool {
	switch t.op {
	case OpForall:
		return true
	case OpNot, OpAnd, OpOr, OpIte:
		for _, a := range t.args {
			if mentionsQuant(a) {
				return true
			}
		}
	}
	return false
}

// pcCases gives the cases of a condition, at most 24
func pcCases(c *Term) []*Term {
	var out []*Term
	var rec func(c *Term, depth int)
	rec = func(c *Term, depth int) {
		for i := 0; i < 6; i++ {
			d := unitPC(c)
			if d == c {
				break
			}
			c = d
		}
		var fl []*Term
		for _, x := range conj(c) {
			if x.op == OpNot && x.args[0].op == OpOr {
				for _, a := range x.args[0].args {
					fl = append(fl, Not(a))
				}
			} else {
				fl = append(fl, x)
			}
		}
		c = And(fl...)
		if c == False || len(out) > 24 {
			return
		}
		l := conj(c)
		for _, x := range l {
			var p, q *Term
			switch {
			case x.op == OpOr:
				p, q = x.args[0], And(Not(x.args[0]), Or(x.args[1:]...))
			case x.op == OpIte:
				p, q = And(x.args[0], x.args[1]), And(Not(x.args[0]), x.args[2])
			case x.op == OpNot && x.args[0].op == OpAnd:
				a := x.args[0].args
				p, q = Not(a[0]), And(a[0], Not(And(a[1:]...)))
			case x.op == OpNot && x.args[0].op == OpIte:
				a := x.args[0].args
				p, q = And(a[0], Not(a[1])), And(Not(a[0]), Not(a[2]))
			default:
				continue
			}
			if depth == 0 {
				break
			}
			var o []*Term
			for _, y := range l {
				if y != x {
					o = append(o, y)
				}
			}
			rest := And(o...)
			for _, v := range []*Term{p, q} {
				m := And(rest, v)
				if b := 20; !impossible(m, &b) {
					rec(m, depth-1)
				}
			}
			return
		}
		out = append(out, c)
	}
	rec(c, 8)
	if len(out) > 24 {
		return nil
	}
	return out
}

// emptied simplifies a goal by the texts that the path condition says are
// empty: those of length 0, and the repetitions of nothing.
func emptied(pc, goal *Term) *Term {
	m := map[*Term]*Term{}
	none := map[*Term]bool{}
	for _, c := range conj(pc) {
		if c.op != OpGe0 {
			continue
		}
		x := c.args[0]
		if x.op != OpLin || x.ival != 0 || len(x.args) != 1 || x.coefs[0] >= 0 {
			continue
		}
		n := x.args[0]
		if n.op == OpApp && n.name == "strlen" {
			m[n.args[0]] = Str("")
		}
		none[n] = true
	}
	if len(none) == 0 {
		return goal
	}
	known := map[*Term]bool{}
	for _, c := range conj(pc) {
		known[c] = true
	}
	if known[goal] {
		return True
	}
	findTerm(goal, map[*Term]bool{}, func(t *Term) bool {
		if isFold(t) && t.sort == SStr && none[t.args[0]] {
			m[t] = Str("")
		}
		return false
	})
	if len(m) == 0 {
		return goal
	}
	return Subst(goal, m)
}
