package main

import (
	"sort"
	"strings"
)

// Case distinction over the dynamic type of a parameter: a function with a
// type switch is verified type by type.

type tagCase struct {
	m  map[*Term]*Term
	pc *Term
}

// tagCases finds the parameter whose dynamic type is compared with the most
// types, and gives one case for each of them and one for all others.
func tagCases(ts ...*Term) []tagCase {
	consts := map[*Term]map[int64]*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpEq && t.args[0].sort == SInt {
			a, b := t.args[0], t.args[1]
			if a.op == OpInt {
				a, b = b, a
			}
			if b.op == OpInt && a.op == OpVar && strings.HasPrefix(a.name, "p!") && strings.HasSuffix(a.name, "#tag") {
				if consts[a] == nil {
					consts[a] = map[int64]*Term{}
				}
				consts[a][b.ival] = t
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var best *Term
	for v, m := range consts {
		if len(m) >= 4 && (best == nil || len(m) > len(consts[best])) {
			best = v
		}
	}
	if best == nil {
		return []tagCase{{pc: True}}
	}
	var ns []int64
	for n := range consts[best] {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	var l []tagCase
	rest := tagCase{m: map[*Term]*Term{}, pc: True}
	for _, n := range ns {
		c := Eq(best, Int(n))
		l = append(l, tagCase{map[*Term]*Term{best: Int(n)}, c})
		rest.m[c] = False
		rest.pc = And(rest.pc, Not(c))
	}
	return append(l, rest)
}
