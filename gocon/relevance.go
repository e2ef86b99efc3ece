package main

// relevant selects hypotheses that are likely to matter: those connected to
// the goal by variables. The first hypothesis is the path condition. Leaving
// hypotheses out is always sound.
func relevant(hyps []*Term, goal *Term) (out []*Term, noFold bool) {
	memo := map[*Term]map[*Term]bool{}
	var syms func(t *Term) map[*Term]bool
	syms = func(t *Term) map[*Term]bool {
		if s, ok := memo[t]; ok {
			return s
		}
		var s map[*Term]bool
		if t.op == OpVar {
			if !t.bound && keySym(t) {
				s = map[*Term]bool{t: true}
			}
		} else {
			for _, a := range t.args {
				x := syms(a)
				if len(x) == 0 {
					continue
				}
				if s == nil {
					s = x
					continue
				}
				sub := true
				for v := range x {
					if !s[v] {
						sub = false
						break
					}
				}
				if sub {
					continue
				}
				n := make(map[*Term]bool, len(s)+len(x))
				for v := range s {
					n[v] = true
				}
				for v := range x {
					n[v] = true
				}
				s = n
			}
		}
		memo[t] = s
		return s
	}
	// the variables of the conclusion of a hypothesis
	var concl func(h *Term) []*Term
	concl = func(h *Term) []*Term {
		if h.op == OpOr {
			var l []*Term
			for _, a := range h.args {
				if a.op != OpNot || a.args[0].op != OpAnd {
					l = append(l, a)
				}
			}
			if len(l) > 0 {
				return l
			}
		}
		return []*Term{h}
	}
	rel := map[*Term]bool{}
	addAll := func(t *Term) {
		for v := range syms(t) {
			rel[v] = true
		}
	}
	addAll(goal)
	pc := hyps[0]
	addAll(pc)
	strs := hasStr(goal)
	for _, c := range conj(pc) {
		strs = strs || hasStr(c)
	}
	in := make([]bool, len(hyps))
	in[0] = true
	for round := 0; round < 4; round++ {
		var add []int
		for i, h := range hyps {
			if in[i] {
				continue
			}
			ok, n := false, 0
			for _, c := range concl(h) {
				for v := range syms(c) {
					n++
					if rel[v] {
						ok = true
					}
				}
			}
			if n == 0 && termSize(h, 200) < 200 {
				ok = true
			}
			if ok && !strs && hasStr(h) {
				ok = false
			}
			if ok {
				add = append(add, i)
			}
		}
		if len(add) == 0 {
			break
		}
		for _, i := range add {
			in[i] = true
			for _, c := range concl(hyps[i]) {
				if round < 3 {
					addAll(c)
				}
			}
		}
	}
	for i, h := range hyps {
		if in[i] {
			out = append(out, h)
		}
	}
	return out, !hasFold(goal)
}

// keySym: a variable introduced on the way
func keySym(t *Term) bool {
	if len(t.name) > 3 && t.name[:3] == "h0!" {
		return false
	}
	if len(t.name) > 2 && t.name[:2] == "p!" {
		return false
	}
	if epochVars[t] != 0 {
		return false
	}
	return true
}

func findTerm(t *Term, seen map[*Term]bool, f func(*Term) bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if findTerm(a, seen, f) {
			return true
		}
	}
	return false
}

func hasStr(t *Term) bool {
	return findTerm(t, map[*Term]bool{}, func(x *Term) bool { return x.sort == SStr && x.op != OpSelect && x.op != OpVar && x.op != OpStr })
}

func hasFold(t *Term) bool {
	return findTerm(t, map[*Term]bool{}, isFold)
}
