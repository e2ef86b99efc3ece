package main

// Specification builtins (package gocon), recursive spec functions, folds.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func strArg(t *Term) string {
	if t.op == OpStr {
		return t.name
	}
	return "?"
}

func (r *Run) specCall(act *Act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
	calling := len(r.ccalls) > 0
	switch fn.Name() {
	case "Requires":
		if calling {
			// caller's obligation, evaluated in the caller's state
			cs := r.ccalls[len(r.ccalls)-1]
			n := r.noObl
			r.noObl = cs.noObl
			for _, c := range conj(args[0].L[0]) {
				r.assert(st, "requires", cs.c.Name, cs.pos, c, "")
			}
			r.noObl = n
			r.assume(st, args[0].L[0])
		} else {
			st.pc = And(st.pc, args[0].L[0])
		}
		return st, Val{}
	case "Ensures":
		label := strArg(args[0].L[0])
		if calling {
			if r.ccalls[len(r.ccalls)-1].c.Opts["opaque"] == "" {
				r.assume(st, args[1].L[0])
			}
		} else {
			n := r.noObl
			r.noObl = 0
			r.assert(st, "ensures", label, pos, args[1].L[0], "")
			r.noObl = n
			r.reached[label] = true
		}
		return st, Val{}
	case "Assert":
		label := strArg(args[0].L[0])
		if !calling {
			n := r.noObl
			r.noObl = 0
			r.assert(st, "lemma", label, pos, args[1].L[0], "")
			r.noObl = n
			r.assume(st, args[1].L[0])
		}
		return st, Val{}
	case "Assume":
		r.e.used["assumed: "+r.e.posStr(pos)] = true
		r.assume(st, args[0].L[0])
		return st, Val{}
	case "Inv", "Variant":
		if !calling {
			// args: interface holding a func
			f := args[0].L[1]
			if f.op != OpInt || r.e.closureOf(f.ival) == nil {
				r.e.unsup(pos, "Inv needs a function literal")
			}
			r.invs = append(r.invs, invCand{clos: r.e.closureOf(f.ival), pos: pos, variant: fn.Name() == "Variant"})
		}
		return st, Val{}
	case "Implies":
		return st, one(Implies(args[0].L[0], args[1].L[0]))
	case "Iff":
		return st, one(Eq(args[0].L[0], args[1].L[0]))
	case "Atom":
		return st, one(Atom(args[0].L[0]))
	case "SameList":
		return st, one(r.sameList(st, types.NewSlice(types.Typ[types.String]), args[0], args[1], pos))
	case "Same":
		return st, one(r.same(st, args[0], args[1], pos))
	case "Forall", "Exists":
		lo, hi := args[0].L[0], args[1].L[0]
		k := NewBound("k", SInt)
		rng := And(Le(lo, k), Lt(k, hi))
		s := st.clone()
		r.quant++
		nf := len(r.facts)
		s.pc = And(s.pc, rng)
		pcb := s.pc
		sq := varSeq
		ns, v := r.callValue(act, s, args[2].L[0], []Val{one(k)}, nil, pos)
		r.quant--
		r.closedBody(v.L[0], sq, pos)
		r.dropBound(nf, k, sq)
		_ = ns
		body := v.L[0]
		_ = pcb
		if fn.Name() == "Exists" {
			return st, one(Not(Forall(k, Implies(rng, Not(body)))))
		}
		return st, one(Forall(k, Implies(rng, body)))
	case "ForallStr":
		k := NewBound("ks", SStr)
		s := st.clone()
		nf := len(r.facts)
		r.quant++
		sq := varSeq
		_, v := r.callValue(act, s, args[0].L[0], []Val{one(k)}, nil, pos)
		r.quant--
		r.closedBody(v.L[0], sq, pos)
		r.dropBound(nf, k, sq)
		return st, one(Forall(k, v.L[0]))
	case "Concat":
		n := args[0].L[0]
		k := NewBound("k", SInt)
		s := st.clone()
		nf := len(r.facts)
		r.quant++
		sq := varSeq
		_, v := r.callValue(act, s, args[1].L[0], []Val{one(k)}, nil, pos)
		r.quant--
		r.closedBody(v.L[0], sq, pos)
		r.dropBound(nf, k, sq)
		return st, one(r.e.mkFold(n, k, v.L[0]))
	case "Pack":
		// variadic ...interface{}
		sl := args[0]
		if sl.L[2].op != OpInt {
			r.e.unsup(pos, "Pack of an open list")
		}
		var l []*Term
		for i := int64(0); i < sl.L[2].ival; i++ {
			x := Select(r.get(st, "[]! interface{}#val", sl.L[0], ArrSort(SInt, SInt)), Add(sl.L[1], Int(i)))
			l = append(l, x)
		}
		return st, one(App(fmt.Sprintf("pack!%d", len(l)), SStr, l...))
	case "ChanAt":
		el := r.chanElem(args[0], pos)
		kk := chanRegion(el)
		var v Val
		for _, lf := range leaves(el) {
			if lf.IsRef {
				refKeys[kk+lf.Path] = true
			}
			v.L = append(v.L, Select(r.get(st, kk+lf.Path, args[0].L[1], ArrSort(SInt, lf.Sort)), args[1].L[0]))
		}
		return st, r.makeIface(st, v, el, types.NewInterfaceType(nil, nil), pos)
	case "ChanHead", "ChanTail", "ChanCap":
		el := r.chanElem(args[0], pos)
		f := map[string]string{"ChanHead": "#head", "ChanTail": "#tail", "ChanCap": "#cap"}[fn.Name()]
		return st, one(r.get(st, chanRegion(el)+f, args[0].L[1], SInt))
	case "ChanClosed":
		el := r.chanElem(args[0], pos)
		return st, one(r.get(st, chanRegion(el)+"#closed", args[0].L[1], SBool))
	case "MapHas":
		t := r.tagType(args[0].L[0], pos)
		mt := t.Underlying().(*types.Map)
		k := r.unpackAny(st, args[1], pos)
		return st, one(And(Not(Eq(args[0].L[1], Int(0))), Select(r.get(st, ts(mt)+"#has", args[0].L[1], ArrSort(k.L[0].sort, SBool)), k.L[0])))
	case "Fresh":
		e := r.entryEpoch
		if calling {
			e = r.ccalls[len(r.ccalls)-1].epoch
		}
		return st, one(Le(r.alloc[e], args[0].L[1]))
	case "Old", "Allocated":
		// allocated before the call
		e := r.entryEpoch
		if calling {
			e = r.ccalls[len(r.ccalls)-1].epoch
		}
		return st, one(Lt(args[0].L[1], r.alloc[e]))
	case "ModifiesOnly":
		// args: label, variadic refs
		if calling {
			return st, Val{}
		}
		label := strArg(args[0].L[0])
		sl := args[1]
		var refs []*Term
		n := int64(0)
		if sl.L[2].op == OpInt {
			n = sl.L[2].ival
		}
		for i := int64(0); i < n; i++ {
			refs = append(refs, Select(r.get(st, "[]! interface{}#val", sl.L[0], ArrSort(SInt, SInt)), Add(sl.L[1], Int(i))))
		}
		f := r.c.frame
		c := True
		if f != nil {
			for _, k := range f.keys {
				if f.all[k] {
					c = False
					r.note("writes any object in " + k)
				}
				for _, x := range f.refs[k] {
					var cs []*Term
					for _, y := range refs {
						cs = append(cs, Eq(x, y))
					}
					o := Or(cs...)
					if o != True {
						r.note("writes " + k)
					}
					c = And(c, o)
				}
			}
		}
		nb := r.noObl
		r.noObl = 0
		r.assert(st, "ensures", label, pos, c, "")
		r.noObl = nb
		r.reached[label] = true
		return st, Val{}
	case "UF":
		// opaque spec function on strings/ints: UF(name, args...) string
		sl := args[1]
		var l []*Term
		for i := int64(0); i < sl.L[2].ival; i++ {
			at := Add(sl.L[1], Int(i))
			v := Select(r.get(st, "[]! interface{}#val", sl.L[0], ArrSort(SInt, SInt)), at)
			tag := Select(r.get(st, "[]! interface{}#tag", sl.L[0], ArrSort(SInt, SInt)), at)
			if tag.op == OpInt && tag.ival > 0 && int(tag.ival) <= len(r.e.tagTypes) {
				// structs and slices: their parts
				if t := r.e.tagTypes[tag.ival-1]; len(leaves(t)) > 1 {
					l = append(l, r.load(st, &Addr{Key: "box " + ts(t), Ref: v}, t).L...)
					continue
				}
			}
			l = append(l, v)
		}
		return st, one(App("uf!"+strArg(args[0].L[0]), SStr, l...))
	case "ExtFail":
		return st, one(r.get(st, "ghost#extfail", Int(1), SBool))
	case "Written":
		// what has been written to an io.Writer
		return st, one(r.written(st, args[0]))
	case "Log":
		r.logGhost(st, strArg(args[0].L[0]), args[1])
		return st, Val{}
	case "LogLen":
		return st, one(r.get(st, "ghost!"+strArg(args[0].L[0])+"#n", Int(1), SInt))
	case "LogAt":
		k := "ghost!" + strArg(args[0].L[0])
		return st, Val{L: []*Term{r.get(st, k+"#tag", args[1].L[0], SInt), r.get(st, k+"#val", args[1].L[0], SInt)}}
	case "Rows":
		n := App("uf!rows", SInt, args[0].L[0])
		nonneg[n] = true
		return st, one(n)
	case "Content":
		// what is left to read of an io.Reader
		return st, one(r.content(st, args[0]))
	case "Quote":
		return st, one(App("quote", SStr, args[0].L[0]))
	case "Sha256":
		return st, one(App("hex", SStr, App("sha256", SStr, args[0].L[0])))
	case "SliceIs":
		// SliceIs(label, l, n, f): the elements of the list
		l, n := args[1], args[2].L[0]
		k := NewBound("k", SInt)
		s := st.clone()
		nf := len(r.facts)
		r.quant++
		sq := varSeq
		_, v := r.callValue(act, s, args[3].L[0], []Val{one(k)}, nil, pos)
		r.quant--
		r.closedBody(v.L[0], sq, pos)
		r.dropBound(nf, k, sq)
		key := "[]! string"
		as := ArrSort(SInt, SStr)
		cell := r.get(st, key, l.L[0], as)
		in := And(Le(Int(0), k), Lt(k, n))
		all := And(Eq(l.L[2], n), Forall(k, Implies(in, Eq(Select(cell, Add(l.L[1], k)), v.L[0]))))
		if !calling {
			q := r.noObl
			r.noObl = 0
			label := strArg(args[0].L[0])
			all = And(Or(Eq(l.L[0], Int(0)), Le(r.alloc[r.entryEpoch], l.L[0])), all)
			r.assert(st, "ensures", label, pos, all, "")
			r.noObl = q
			r.reached[label] = true
			return st, Val{}
		}
		cs := r.ccalls[len(r.ccalls)-1]
		r.assume(st, Or(Eq(l.L[0], Int(0)), Le(r.alloc[cs.epoch], l.L[0])))
		if cs.vars[l.L[0]] {
			freshIn[l.L[0]] = cs.epoch
		}
		if l.L[0].op == OpVar && cell.op == OpSelect && cell.args[0].op == OpVar && cell.args[1] == l.L[0] && freshIn[l.L[0]] > 0 {
			// what lies beyond the length is not visible
			r.assume(st, And(Eq(l.L[1], Int(0)), Eq(l.L[2], n)))
			cellDef[[2]*Term{cell.args[0], l.L[0]}] = r.e.mkLam(k, v.L[0])
		} else {
			r.assume(st, all)
		}
		return st, Val{}
	case "SetHas":
		return st, one(Select(r.setVal(st, args[0]), args[1].L[0]))
	case "SetOf":
		k := NewBound("k", SInt)
		v := r.evalBody(act, st, args[1], k, pos)
		t := r.e.mkSet(ConstArr(ArrSort(SStr, SBool), False), args[0].L[0], k, v.L[0], v.L[1])
		return st, Val{L: []*Term{r.e.extTag("mapset"), App("setref", SInt, t)}}
	case "SetSame":
		return st, one(Eq(r.setVal(st, args[0]), r.setVal(st, args[1])))
	case "SetIs":
		a, b := r.setVal(st, args[1]), r.setVal(st, args[2])
		if !calling {
			q := r.noObl
			r.noObl = 0
			label := strArg(args[0].L[0])
			r.assert(st, "ensures", label, pos, Eq(a, b), "")
			// the set is a new object, which no other set of the contract is
			ref := args[1].L[1]
			cs := []*Term{Eq(args[1].L[0], r.e.extTag("mapset"))}
			if e, _ := freshOf(ref); e < r.entryEpoch {
				cs = append(cs, Le(r.alloc[r.entryEpoch], ref))
			}
			for _, o := range r.newSets {
				cs = append(cs, Not(Eq(o, ref)))
			}
			r.newSets = append(r.newSets, ref)
			r.assert(st, "ensures", label+": new set", pos, And(cs...), "")
			r.noObl = q
			r.reached[label] = true
			return st, Val{}
		}
		s := ArrSort(SStr, SBool)
		if cc := r.ccalls[len(r.ccalls)-1]; cc.vars[args[1].L[1]] && cc.sub[args[1].L[1]] == nil {
			x := r.fresh(st)
			cc.sub[args[1].L[1]] = x
			args[1].L[1] = x
			if t := args[1].L[0]; cc.vars[t] && cc.sub[t] == nil {
				cc.sub[t] = r.e.extTag("mapset")
			}
		} else {
			r.assume(st, Eq(a, b))
		}
		st.heap["set"] = Store(r.heapGet(st, "set", s), args[1].L[1], b)
		return st, Val{}
	case "Count":
		k := NewBound("k", SInt)
		v := r.evalBody(act, st, args[1], k, pos)
		return st, one(r.e.mkCount(args[0].L[0], k, v.L[0]))
	case "Nth":
		k := NewBound("k", SInt)
		v := r.evalBody(act, st, args[1], k, pos)
		return st, one(r.e.mkNth(args[0].L[0], k, v.L[0]))
	case "SetLen", "SetAt", "SetLess":
		s := ArrSort(SStr, SBool)
		a, b := r.setVal(st, args[1]), r.setVal(st, args[2])
		switch strArg(args[0].L[0]) {
		case "-":
			a = App("setdiff", s, a, b)
		case "&":
			a = App("setinter", s, a, b)
		}
		n := App("card", SInt, a)
		nonneg[n] = true
		switch fn.Name() {
		case "SetLen":
			return st, one(n)
		case "SetAt":
			return st, one(App("setat", SStr, a, args[3].L[0]))
		}
		// true: the enumeration ascends
		i, j := NewBound("i", SInt), NewBound("j", SInt)
		r.assume(st, Forall(i, Forall(j, Implies(And(Le(Int(0), i), Lt(i, j), Lt(j, n)), App("strlt", SBool, App("setat", SStr, a, i), App("setat", SStr, a, j))))))
		return st, one(True)
	}
	if r.specExtra != nil {
		if ns, v, ok := r.specExtra(act, st, fn, args, pos); ok {
			return ns, v
		}
	}
	r.e.unsup(pos, "unknown spec builtin %s", fn.Name())
	return nil, Val{}
}

// setVal: the members of a set
func (r *Run) setVal(st *State, v Val) *Term {
	if x := v.L[1]; x.op == OpApp && x.name == "setref" {
		return x.args[0]
	}
	return r.get(st, "set", v.L[1], ArrSort(SStr, SBool))
}

// evalBody applies a function literal to a bound variable
func (r *Run) evalBody(act *Act, st *State, f Val, k *Term, pos token.Pos) Val {
	s := st.clone()
	nf := len(r.facts)
	r.quant++
	sq := varSeq
	_, v := r.callValue(act, s, f.L[0], []Val{one(k)}, nil, pos)
	r.quant--
	for _, t := range v.L {
		r.closedBody(t, sq, pos)
	}
	r.dropBound(nf, k, sq)
	return v
}

func (r *Run) note(s string) { r.notes = append(r.notes, s) }

// closedBody: the body of a quantifier must not depend on unknowns that
// were introduced for one instance
func (r *Run) closedBody(t *Term, seq int, pos token.Pos) {
	if mentionsAfter(t, seq, nil) {
		r.e.unsup(pos, "the body of a quantifier contains a loop or a call of a function that is not pure")
	}
}

// dropBound removes facts about bound variables; what is known of the results
// of pure functions for every value of k is kept as a template.
func (r *Run) dropBound(from int, b *Term, seq int) {
	k := from
	for i := from; i < len(r.facts); i++ {
		f := r.facts[i]
		if f.bound {
			if f.op == OpApp && f.name == "tmpl" || mentionsFree(f, seq, b) || !pureApp(f, b) {
				continue
			}
			if f = Forall(b, f); f.bound || f.op != OpForall {
				continue
			}
			f = App("tmpl", SBool, f)
		}
		r.facts[k] = f
		k++
	}
	r.facts = r.facts[:k]
}

// mentionsFree: t mentions an unbound variable made after seq
func mentionsFree(t *Term, seq int, b *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.seq <= seq || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OpVar {
			return !t.bound
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func pureApp(t, b *Term) bool {
	found := false
	walk(t, func(x *Term) {
		found = found || x.op == OpApp && strings.HasPrefix(x.name, "pure!") && mentions(x, b)
	})
	return found
}

// instantiate replaces the templates among the hypotheses by what they say
// of the results of pure functions that the query is about.
func (q *Query) instantiate() *Query {
	var ts []*Term
	s := *q
	s.hyps = nil
	for _, h := range q.hyps {
		if h.op == OpApp && h.name == "tmpl" {
			ts = append(ts, h.args[0])
		} else {
			s.hyps = append(s.hyps, h)
		}
	}
	if len(ts) == 0 {
		return q
	}
	apps := map[string][]*Term{}
	seen := map[*Term]bool{}
	collect := func(t *Term) {
		walk(t, func(x *Term) {
			if !seen[x] && !x.bound && x.op == OpApp && strings.HasPrefix(x.name, "pure!") {
				seen[x] = true
				apps[x.name] = append(apps[x.name], x)
			}
		})
	}
	for _, h := range s.hyps {
		collect(h)
	}
	collect(s.goal)
	n := 0
	made := map[*Term]bool{}
	for _, t := range ts {
		k, body := t.args[0], t.args[1]
		done := map[*Term]bool{}
		walk(body, func(x *Term) {
			if x.op != OpApp || !strings.HasPrefix(x.name, "pure!") || !mentions(x, k) {
				return
			}
			for _, g := range apps[x.name] {
				v := matchVar(x, g, k)
				if v == nil || done[v] || v.bound || n > 200 {
					continue
				}
				done[v] = true
				f := Subst(body, map[*Term]*Term{k: v})
				if f != True && !f.bound && !made[f] {
					made[f] = true
					n++
					s.hyps = append(s.hyps, f)
				}
			}
		})
	}
	return &s
}

// matchVar gives the value of k with which p is t
func matchVar(p, t, k *Term) *Term {
	var v *Term
	var rec func(p, t *Term) bool
	rec = func(p, t *Term) bool {
		if p == t {
			return true
		}
		if p == k {
			if v == nil {
				v = t
			}
			return v == t
		}
		if p.op != t.op || p.name != t.name || p.ival != t.ival || len(p.args) != len(t.args) || p.sort != t.sort || !mentions(p, k) {
			return false
		}
		for i, c := range p.coefs {
			if c != t.coefs[i] {
				return false
			}
		}
		for i := range p.args {
			if !rec(p.args[i], t.args[i]) {
				return false
			}
		}
		return true
	}
	if !rec(p, t) || v == nil || v.sort != k.sort {
		return nil
	}
	return v
}

func (e *Engine) posStr(p token.Pos) string {
	q := e.fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (r *Run) tagType(tag *Term, pos token.Pos) types.Type {
	if tag.op != OpInt || tag.ival <= 0 || int(tag.ival) > len(r.e.tagTypes) {
		r.e.unsup(pos, "spec builtin needs a value of a known type")
	}
	return r.e.tagTypes[tag.ival-1]
}

func (r *Run) chanElem(x Val, pos token.Pos) types.Type {
	return r.tagType(x.L[0], pos).Underlying().(*types.Chan).Elem()
}

func (r *Run) unpackAny(st *State, x Val, pos token.Pos) Val {
	t := r.tagType(x.L[0], pos)
	return r.unpack(st, x, types.NewInterfaceType(nil, nil), t)
}

func (r *Run) same(st *State, a, b Val, pos token.Pos) *Term {
	if a.L[0].op == OpInt && a.L[0] == b.L[0] && a.L[0].ival > 0 {
		t := r.tagType(a.L[0], pos)
		x, y := r.unpackAny(st, a, pos), r.unpackAny(st, b, pos)
		_ = t
		var cs []*Term
		for i := range x.L {
			cs = append(cs, Eq(x.L[i], y.L[i]))
		}
		return And(cs...)
	}
	return And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]))
}

// ---- recursive spec functions

type RecFun struct {
	fn     *ssa.Function
	name   string
	params []*Term
	keys   []string
	sorts  []*Sort
	body   []*Term
	res    []Leaf
	ready  bool
	ver    int
	grown  map[string]bool
}

func (r *Run) isRecursive(fn *ssa.Function) bool {
	if v, ok := r.e.isRec[fn]; ok {
		return v
	}
	r.e.isRec[fn] = false
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && r.e.isSpecFn(g) {
						if g == fn || rec(g) {
							return true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if rec(mc.Fn.(*ssa.Function)) {
						return true
					}
				}
			}
		}
		return false
	}
	v := rec(fn)
	r.e.isRec[fn] = v
	return v
}

func (r *Run) recFun(fn *ssa.Function, pos token.Pos) *RecFun {
	rf := r.e.recs[fn]
	if rf != nil {
		return rf
	}
	rf = &RecFun{fn: fn, grown: map[string]bool{}, res: leaves(fn.Signature.Results())}
	r.e.recs[fn] = rf
	for i, p := range fn.Params {
		for j, lf := range leaves(p.Type()) {
			rf.params = append(rf.params, NewVarNamed(fmt.Sprintf("rp!%s!%d!%d", fn.Name(), i, j), lf.Sort))
		}
	}
	for {
		rf.ver++
		rf.name = fmt.Sprintf("rec!%s!%d", fn.Name(), rf.ver)
		st := &State{pc: True, heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
		nf, no := len(r.facts), r.noObl
		r.noObl++
		r.newEpoch(st)
		var args []Val
		k := 0
		for _, p := range fn.Params {
			var v Val
			for range leaves(p.Type()) {
				v.L = append(v.L, rf.params[k])
				k++
			}
			args = append(args, v)
		}
		log := map[string]bool{}
		r.readLog = append(r.readLog, log)
		stack := r.stack
		wl := r.wlogs
		r.wlogs = nil
		cc := r.ccalls
		r.ccalls = nil
		ns, v := r.inline(st, fn, args, nil, pos)
		r.ccalls = cc
		r.wlogs = wl
		r.stack = stack
		r.readLog = r.readLog[:len(r.readLog)-1]
		r.noObl = no
		if nf < len(r.facts) {
			r.facts = r.facts[:nf]
		}
		_ = ns
		// keys whose initial value is read
		used := map[string]bool{}
		for _, b := range v.L {
			collectInit(b, used)
		}
		grew := false
		for k := range used {
			if !rf.grown[k] {
				rf.grown[k] = true
				grew = true
			}
		}
		for k := range rf.grown {
			if !contains(rf.keys, k) {
				rf.keys = append(rf.keys, k)
			}
		}
		sort.Strings(rf.keys)
		rf.sorts = nil
		for _, k := range rf.keys {
			rf.sorts = append(rf.sorts, r.init[k].sort)
		}
		if !grew {
			rf.body = v.L
			rf.ready = true
			for i := range rf.res {
				r.e.recByName[fmt.Sprintf("%s!%d", rf.name, i)] = rf
			}
			return rf
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func collectInit(t *Term, m map[string]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar && len(t.name) > 3 && t.name[:3] == "h0!" {
			m[t.name[3:]] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

func (r *Run) recCall(st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	rf := r.recFun(fn, pos)
	var l []*Term
	for _, a := range args {
		if a.A != nil {
			r.e.unsup(pos, "interior pointer passed to a spec function")
		}
		l = append(l, a.L...)
	}
	var hs []*Term
	for i, k := range rf.keys {
		hs = append(hs, stripLocals(r.heapGet(st, k, rf.sorts[i]), localRefs, map[*Term]*Term{}))
	}
	l = append(l, r.oldHeap(rf.fn, args, rf.keys, hs)...)
	var v Val
	known := false
	for _, a := range l[:len(rf.params)] {
		known = known || a.op == OpInt && len(rf.params) > 0
	}
	for i, lf := range rf.res {
		t := App(fmt.Sprintf("%s!%d", rf.name, i), lf.Sort, l...)
		if known && rf.ready {
			// base cases
			if b := r.e.unfold(t); b != nil && (isConst(b) || b.op == OpStr || b == True || b == False) {
				t = b
			}
		}
		v.L = append(v.L, t)
	}
	return v
}

// unfold gives the definition of an application of a recursive function
func (e *Engine) unfold(t *Term) *Term {
	rf := e.recByName[t.name]
	if rf == nil || !rf.ready {
		return nil
	}
	var idx int
	fmt.Sscanf(t.name[len(rf.name)+1:], "%d", &idx)
	m := map[*Term]*Term{}
	for i, p := range rf.params {
		m[p] = t.args[i]
	}
	for i, k := range rf.keys {
		m[NewVarNamed("h0!"+k, rf.sorts[i])] = t.args[len(rf.params)+i]
	}
	return Subst(rf.body[idx], m)
}

// unfoldParams replaces named spec functions applied to parameters of the
// verified function by their definition
func (e *Engine) unfoldParams(t *Term) *Term {
	for i := 0; i < 4; i++ {
		m := map[*Term]*Term{}
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OpApp {
				if rf := e.recByName[t.name]; rf != nil && rf.ready && !rf.loops() {
					ok := true
					for _, a := range t.args[:len(rf.params)] {
						if a.op != OpInt && a.op != OpStr && (a.op != OpVar || a.seq != 0 || !strings.HasPrefix(a.name, "p!")) {
							ok = a.op == OpSelect && a.args[1].op == OpVar && a.args[0].op == OpVar && ok && a.seq == 0
						}
					}
					if ok {
						if b := e.unfold(t); b != nil {
							m[t] = b
						}
					}
				}
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		if len(m) == 0 {
			break
		}
		t = Subst(t, m)
	}
	return t
}

// loops: the function calls itself
func (rf *RecFun) loops() bool {
	for _, b := range rf.body {
		if usesApp(b, rf.name+"!") {
			return true
		}
	}
	return false
}

func usesApp(t *Term, prefix string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OpApp && strings.HasPrefix(t.name, prefix) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- folds

type FoldDef struct {
	name   string
	k      *Term
	params []*Term
	body   *Term
	cond   *Term // when an element is not empty, if known
}

// liftBody makes the subterms of body without k parameters
func liftBody(k, body *Term) (*Term, *Term, []*Term, []*Term) {
	// lift the subterms without k
	fk := NewVarNamed("fk", SInt)
	var params, args []*Term
	idx := map[*Term]*Term{}
	memo := map[*Term]*Term{}
	has := map[*Term]bool{}
	var hasK func(t *Term) bool
	hasK = func(t *Term) bool {
		if v, ok := has[t]; ok {
			return v
		}
		v := t == k
		for _, a := range t.args {
			if hasK(a) {
				v = true
			}
		}
		has[t] = v
		return v
	}
	var lift func(t *Term) *Term
	lift = func(t *Term) *Term {
		if t == k {
			return fk
		}
		if x, ok := memo[t]; ok {
			return x
		}
		var x *Term
		if !hasK(t) {
			if isConst(t) {
				x = t
			} else if t.bound && t.op == OpVar {
				// another bound variable
				p := NewVarNamed(fmt.Sprintf("fp!%d!%s", len(params), t.sort), t.sort)
				params = append(params, p)
				args = append(args, t)
				x = p
			} else if p, ok := idx[t]; ok {
				x = p
			} else {
				p := NewVarNamed(fmt.Sprintf("fp!%d!%s", len(params), t.sort), t.sort)
				params = append(params, p)
				args = append(args, t)
				idx[t] = p
				x = p
			}
		} else {
			na := make([]*Term, len(t.args))
			for i, a := range t.args {
				if t.op == OpForall && i == 0 {
					na[i] = a
					continue
				}
				na[i] = lift(a)
			}
			x = rebuild(t, na)
		}
		memo[t] = x
		return x
	}
	return lift(body), fk, params, args
}

// mkLam is the array with the elements body[k]
func (e *Engine) mkLam(k, body *Term) *Term {
	b, fk, params, args := liftBody(k, body)
	name := fmt.Sprintf("lam!%d", b.id)
	if lamDefs[name] == nil {
		lamDefs[name] = &FoldDef{name: name, k: fk, params: params, body: b}
	}
	return App(name, ArrSort(SInt, body.sort), args...)
}

var lamDefs = map[string]*FoldDef{}

func lamBody(t, k *Term) *Term {
	fd := lamDefs[t.name]
	m := map[*Term]*Term{fd.k: k}
	for i, p := range fd.params {
		m[p] = t.args[i]
	}
	return Subst(fd.body, m)
}

// mkSet is init with all key[k] for which cond[k], 0 <= k < n
func (e *Engine) mkSet(init, n, k, cond, key *Term) *Term {
	b, fk, params, args := liftBody(k, App("setelem", SBool, cond, key))
	name := fmt.Sprintf("setof!%d", b.id)
	if setDefs[name] == nil {
		setDefs[name] = &FoldDef{name: name, k: fk, params: params, body: b}
	}
	return App(name, ArrSort(SStr, SBool), append([]*Term{n, init}, args...)...)
}

var setDefs = map[string]*FoldDef{}

// setElem: when the k-th key is added, and the key
func setElem(t, k *Term) (*Term, *Term) {
	fd := setDefs[t.name]
	m := map[*Term]*Term{fd.k: k}
	for i, p := range fd.params {
		m[p] = t.args[i+2]
	}
	return Subst(fd.body.args[0], m), Subst(fd.body.args[1], m)
}

func setAxioms(t *Term) []*Term {
	elem := func(k *Term) (*Term, *Term) { return setElem(t, k) }
	n, init := t.args[0], t.args[1]
	k, s := NewBound("k", SInt), NewBound("s", SStr)
	sel := func(x *Term) *Term { return mk(OpSelect, SBool, "", 0, []*Term{t, x}, nil) }
	c, key := elem(k)
	w := App("setwit", SInt, t, s)
	wc, wk := elem(w)
	return []*Term{
		Forall(k, Implies(And(Le(Int(0), k), Lt(k, n), c), sel(key))),
		Forall(s, Implies(sel(s), Or(Select(init, s), And(Le(Int(0), w), Lt(w, n), wc, Eq(wk, s))))),
		Forall(s, Implies(Select(init, s), sel(s))),
	}
}

// cellDef: what the cell of a new object in an array variable holds
var cellDef = map[[2]*Term]*Term{}

// mkFold builds concat of body[k := 0..n-1]
func (e *Engine) mkFold(n, k, body *Term) *Term {
	if n.op == OpInt && n.ival <= 6 {
		var l []*Term
		for i := int64(0); i < n.ival; i++ {
			l = append(l, Subst(body, map[*Term]*Term{k: Int(i)}))
		}
		return Concat(l...)
	}
	if n.op == OpIte {
		return Ite(n.args[0], e.mkFold(n.args[1], k, body), e.mkFold(n.args[2], k, body))
	}
	if body == StrEmpty {
		return StrEmpty
	}
	if body.op == OpIte && !mentions(body.args[0], k) {
		return Ite(body.args[0], e.mkFold(n, k, body.args[1]), e.mkFold(n, k, body.args[2]))
	}
	b, fk, params, args := liftBody(k, body)
	key := fmt.Sprintf("%d", b.id)
	fd := e.folds[key]
	if fd == nil {
		fd = &FoldDef{name: fmt.Sprintf("fold!%d", b.id), k: fk, params: params, body: b}
		e.folds[key] = fd
		e.foldByName[fd.name] = fd
		if minLen(b) > 0 {
			nonEmptyFold[fd.name] = true
		} else if c := nonEmpty(b); !hasStrLen(c) {
			fd.cond = c
			condFold[fd.name] = true
		}
	}
	return App(fd.name, SStr, append([]*Term{n}, args...)...)
}

// hasStrLen: the condition depends on the length of texts
func hasStrLen(c *Term) bool {
	switch c.op {
	case OpGe0, OpEq:
		found := false
		walk(c, func(t *Term) {
			if t.op == OpApp && t.name == "strlen" && !strings.HasPrefix(t.args[0].name, "uf!") {
				found = true
			}
		})
		return found
	case OpAnd, OpOr, OpNot, OpIte:
		for _, a := range c.args {
			if hasStrLen(a) {
				return true
			}
		}
	}
	return false
}

func walk(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// foldCond is the number of elements of a fold that are not empty
func (e *Engine) foldCond(t *Term) *Term {
	fd := e.foldByName[t.name]
	m := map[*Term]*Term{}
	for i, p := range fd.params {
		m[p] = t.args[i+1]
	}
	return e.mkCount(t.args[0], fd.k, Subst(fd.cond, m))
}

// mkCount is the number of k, 0 <= k < n, for which cond holds
func (e *Engine) mkCount(n, k, cond *Term) *Term {
	if cond == False {
		return Int(0)
	}
	if cond == True {
		if lb, ok := lowerBound(n, 4); ok && lb >= 0 {
			return n
		}
		return Ite(Le(Int(0), n), n, Int(0))
	}
	if n.op == OpInt && n.ival <= 6 {
		var l []*Term
		for i := int64(0); i < n.ival; i++ {
			l = append(l, Ite(Subst(cond, map[*Term]*Term{k: Int(i)}), Int(1), Int(0)))
		}
		return Add(l...)
	}
	if !mentions(cond, k) {
		return Ite(cond, e.mkCount(n, k, True), Int(0))
	}
	t := e.liftApp("count", SInt, k, cond, n)
	nonneg[t] = true
	return t
}

// mkNth is the j-th (from 0) of the k for which cond holds
func (e *Engine) mkNth(j, k, cond *Term) *Term {
	if cond == True {
		return j
	}
	return e.liftApp("nth", SInt, k, cond, j)
}

func (e *Engine) liftApp(kind string, s *Sort, k, body, first *Term) *Term {
	b, fk, params, args := liftBody(k, body)
	name := fmt.Sprintf("%s!%d", kind, b.id)
	if e.foldByName[name] == nil {
		e.foldByName[name] = &FoldDef{name: name, k: fk, params: params, body: b}
	}
	return App(name, s, append([]*Term{first}, args...)...)
}

func (e *Engine) foldBody(t *Term, k *Term) *Term {
	fd := e.foldByName[t.name]
	m := map[*Term]*Term{fd.k: k}
	for i, p := range fd.params {
		m[p] = t.args[i+1]
	}
	return Subst(fd.body, m)
}

var _ = constant.MakeBool

// logGhost appends a value to a list of events
func (r *Run) logGhost(st *State, name string, x Val) {
	k := "ghost!" + name
	n := r.get(st, k+"#n", Int(1), SInt)
	r.put(st, k+"#tag", n, x.L[0], SInt)
	r.put(st, k+"#val", n, x.L[1], SInt)
	r.put(st, k+"#n", Int(1), Add(n, Int(1)), SInt)
}
