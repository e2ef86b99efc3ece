package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	n      int
}

type LoopInfo struct {
	rpo   []*ssa.BasicBlock
	inner map[*ssa.BasicBlock]*Loop
	loops []*Loop
	names map[string][]nameUse
}

type nameUse struct {
	v    ssa.Value
	b    *ssa.BasicBlock
	i    int
	addr bool
}

func (e *Engine) loops(fn *ssa.Function) *LoopInfo {
	if li := e.loopCache[fn]; li != nil {
		return li
	}
	li := &LoopInfo{inner: map[*ssa.BasicBlock]*Loop{}, names: map[string][]nameUse{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	byH := map[*ssa.BasicBlock]*Loop{}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byH[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = l
					li.loops = append(li.loops, l)
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	sort.Slice(li.loops, func(i, j int) bool { return len(li.loops[i].blocks) < len(li.loops[j].blocks) })
	for i, l := range li.loops {
		for _, m := range li.loops[i+1:] {
			if m.blocks[l.header] && m != l {
				l.parent = m
				break
			}
		}
		for b := range l.blocks {
			if li.inner[b] == nil {
				li.inner[b] = l
			}
		}
	}
	for i, l := range li.loops {
		l.n = i
	}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
				if id, ok := in.Expr.(*ast.Ident); ok {
					if v, ok := in.X.(ssa.Value); ok {
						li.names[id.Name] = append(li.names[id.Name], nameUse{v, b, i, in.IsAddr})
					}
				}
			case *ssa.Phi:
				if in.Comment != "" {
					li.names[in.Comment] = append(li.names[in.Comment], nameUse{in, b, i, false})
				}
			case *ssa.Alloc:
				if in.Comment != "" {
					li.names[in.Comment] = append(li.names[in.Comment], nameUse{in, b, i, true})
				}
			}
		}
	}
	for _, p := range fn.Params {
		li.names[p.Name()] = append(li.names[p.Name()], nameUse{p, fn.Blocks[0], -1, false})
	}
	for _, p := range fn.FreeVars {
		li.names[p.Name()] = append(li.names[p.Name()], nameUse{p, fn.Blocks[0], -1, true})
	}
	e.loopCache[fn] = li
	return li
}

const maxUnroll = 64

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOCON_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

// loop executes a loop; es are the edges entering it. Exit edges are added
// to pending.
func (r *Run) loop(act *Act, l *Loop, es []edge, pending map[*ssa.BasicBlock][]edge) {
	var pre *State
	{
		// merge the entering states after evaluating the phis
		var cl []edge
		for _, ed := range es {
			if ed.st.pc != False {
				cl = append(cl, ed)
			}
		}
		if len(cl) == 0 {
			return
		}
		pre = r.enter(act, l.header, cl)
	}
	if pre == nil {
		return
	}
	if r.constHeader(act, l, pre) {
		if r.unroll(act, l, pre, pending) {
			return
		}
	}
	r.cut(act, l, pre, pending)
}

// constHeader: the header ends with a condition that is constant now
func (r *Run) constHeader(act *Act, l *Loop, pre *State) bool {
	h := l.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	if l.blocks[h.Succs[0]] && l.blocks[h.Succs[1]] {
		return false
	}
	st := pre.clone()
	nf, no := len(r.facts), len(r.obls)
	r.dry++
	p := map[*ssa.BasicBlock][]edge{}
	a2 := *act
	a2.rets = nil
	r.block(&a2, h, st, p)
	r.dry--
	r.facts, r.obls = r.facts[:nf], r.obls[:no]
	live := 0
	for _, es := range p {
		for _, e := range es {
			if e.st.pc != False {
				live++
			}
		}
	}
	return live <= 1
}

// iterate runs the body once from st (phis already set); it returns the
// merged state of the back edges, with the phis updated.
func (r *Run) iterate(act *Act, l *Loop, st *State, pending map[*ssa.BasicBlock][]edge) *State {
	p := map[*ssa.BasicBlock][]edge{}
	// run the header, then the rest of the region
	r.block(act, l.header, st, p)
	back := p[l.header]
	delete(p, l.header)
	// header self loop is handled through back
	r.regionRest(act, l, p)
	back = append(back, p[l.header]...)
	delete(p, l.header)
	for b, es := range p {
		pending[b] = append(pending[b], es...)
	}
	var cl []edge
	for _, ed := range back {
		if ed.st.pc != False {
			cl = append(cl, ed)
		}
	}
	if len(cl) == 0 {
		return nil
	}
	r.backs = nil
	if len(cl) > 1 && len(cl) <= 6 && r.dry == 0 {
		for _, ed := range cl {
			s := ed.st.clone()
			r.phis(s, l.header, ed.from)
			r.backs = append(r.backs, s)
		}
	}
	return r.enter(act, l.header, cl)
}

func (r *Run) regionRest(act *Act, l *Loop, p map[*ssa.BasicBlock][]edge) {
	for _, b := range act.li.rpo {
		if !l.blocks[b] || b == l.header {
			continue
		}
		bl := act.li.inner[b]
		if bl != l {
			if bl.header == b && bl.parent == l {
				es := p[b]
				delete(p, b)
				if len(es) > 0 {
					r.loop(act, bl, es, p)
				}
			}
			continue
		}
		es := p[b]
		if len(es) == 0 {
			continue
		}
		delete(p, b)
		st := r.enter(act, b, es)
		if st == nil {
			continue
		}
		r.block(act, b, st, p)
	}
}

func (r *Run) unroll(act *Act, l *Loop, pre *State, pending map[*ssa.BasicBlock][]edge) bool {
	nf, no := len(r.facts), len(r.obls)
	nr := len(act.rets)
	st := pre.clone()
	local := map[*ssa.BasicBlock][]edge{}
	for i := 0; i < maxUnroll; i++ {
		if i > 0 && !r.constHeader(act, l, st) {
			break
		}
		st = r.iterate(act, l, st, local)
		if st == nil {
			for b, es := range local {
				pending[b] = append(pending[b], es...)
			}
			return true
		}
	}
	r.facts, r.obls = r.facts[:nf], r.obls[:no]
	act.rets = act.rets[:nr]
	return false
}

// a loop variable: a phi leaf, or a heap cell
type lvar struct {
	phi  *ssa.Phi
	leaf int
	key  string
	ref  *Term
	sort *Sort
	isRf bool
	init *Term
	cur  *Term // value at the header
	form func(it *Term) *Term
	id   string
}

type closedForm struct {
	step *Term // Int: constant step
	x    *Term // Str: appended text, over it
	it   *Term
	same bool
	cond *Term // set of strings: key is added if cond, over it
	key  *Term
	cnt  *Term // Int: incremented if cnt, over it
	val  *Term // the elements of a slice that grows with cnt, over it
	vkey string
}

// counted: b is cur+1 under a condition, else cur
func counted(b, cur *Term) *Term {
	switch {
	case b == cur:
		return False
	case b == Add(cur, Int(1)):
		return True
	case b.op == OpIte:
		x, y := counted(b.args[1], cur), counted(b.args[2], cur)
		if x != nil && y != nil {
			return Ite(b.args[0], x, y)
		}
	}
	return nil
}

// setAdded: b is cur with key added under a condition
func setAdded(b, cur *Term) (cond, key *Term) {
	switch {
	case b.op == OpStore && b.args[0] == cur && b.args[2] == True:
		return True, b.args[1]
	case b.op == OpStore && b.args[0] == cur && b.args[2].op == OpOr:
		// added if one of the others holds
		var l []*Term
		in := Select(cur, b.args[1])
		for _, x := range b.args[2].args {
			if x != in {
				l = append(l, x)
			}
		}
		if len(l) < len(b.args[2].args) {
			return Or(l...), b.args[1]
		}
	case b.op == OpIte && b.args[2] == cur:
		if c, k := setAdded(b.args[1], cur); k != nil {
			return And(b.args[0], c), k
		}
	case b.op == OpIte && b.args[1] == cur:
		if c, k := setAdded(b.args[2], cur); k != nil {
			return And(Not(b.args[0]), c), k
		}
	}
	return nil, nil
}

func (r *Run) cut(act *Act, l *Loop, pre *State, pending map[*ssa.BasicBlock][]edge) {
	r.loopNo++
	startSeq := varSeq
	r.newEpoch(pre)
	e1 := pre.aE
	seq0 := varSeq
	_ = startSeq
	mod := map[string]map[*Term]bool{} // key -> invariant refs
	modAll := map[string]bool{}
	sliceVals := map[*ssa.Phi]map[string]*closedForm{}
	modFresh := map[string]bool{}
	forms := map[string]*closedForm{}
	banned := map[string]bool{}
	noFresh := map[string]bool{}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	type result struct {
		back  *State
		vars  []*lvar
		it    *Term
		head  *State
		exits map[*ssa.BasicBlock][]edge
		rets  []retState
		hfact int
		facts []*Term
	}
	// one symbolic iteration under the current hypotheses
	attempt := func(dry bool, log *WLog) *result {
		res := &result{exits: map[*ssa.BasicBlock][]edge{}}
		st := pre.clone()
		// what earlier iterations allocated lies between e1 and e2
		st.aE, st.aK = e1, 0
		r.newEpoch(st)
		e2 := st.aE
		it := NewVar("it", SInt, 0)
		nonneg[it] = true
		r.itVars[it] = true
		res.it = it
		if dry {
			r.dry++
		}
		// havoc
		mk := func(v *lvar) *Term {
			if f := forms[v.id]; f != nil {
				switch {
				case f.same:
					v.cur = v.init
				case f.key != nil:
					v.cur = r.e.mkSet(v.init, it, f.it, f.cond, f.key)
				case f.step != nil:
					v.cur = Add(v.init, Mul(f.step, it))
				case f.cnt != nil:
					v.cur = Add(v.init, r.e.mkCount(it, f.it, f.cnt))
				default:
					x := f.x
					k := NewBound("k", SInt)
					v.cur = Concat(underPC(pre.pc, v.init), r.e.mkFold(it, k, Subst(x, map[*Term]*Term{f.it: k})))
				}
				return v.cur
			}
			ep := 0
			if v.isRf {
				ep = e2
			}
			v.cur = NewVar("lv", v.sort, ep)
			if v.isRf && v.phi != nil && v.sort == SInt && !noFresh[v.id] {
				lo := lowerEp(v.init)
				if lo > e1 {
					lo = e1
				}
				if lo > 0 {
					freshIn[v.cur] = lo
				}
			}
			return v.cur
		}
		for _, p := range phis {
			iv, ok := pre.env[p]
			if !ok {
				r.e.unsup(p.Pos(), "loop variable %s merges different kinds", p.Comment)
			}
			if iv.A != nil {
				st.env[p] = iv
				continue
			}
			nv := Val{}
			for i, lf := range leaves(p.Type()) {
				v := &lvar{phi: p, leaf: i, sort: lf.Sort, isRf: lf.IsRef, init: iv.L[i], id: fmt.Sprintf("phi %s %d", p.Name(), i)}
				nv.L = append(nv.L, mk(v))
				res.vars = append(res.vars, v)
			}
			r.typeFacts(p.Type(), nv)
			st.env[p] = nv
		}
		var keys []string
		ks := map[string]bool{}
		for k := range mod {
			ks[k] = true
		}
		for k := range modAll {
			ks[k] = true
		}
		for k := range modFresh {
			ks[k] = true
		}
		for k := range ks {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			s := r.keySort[k]
			base := r.heapGet(st, k, s)
			var refs []*Term
			for x := range mod[k] {
				refs = append(refs, x)
			}
			sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
			arr := base
			if modAll[k] {
				arr = NewVar("h", s, 0)
				if refKeys[k] {
					arr.epoch = e2
				}
				st.heap[k] = arr
				continue
			}
			if modFresh[k] {
				arr = NewVar("h", s, 0)
				if refKeys[k] {
					arr.epoch = e2
				}
				frozen[arr] = &frozenInfo{base: base, epoch: e1, except: refs}
			}
			for _, x := range refs {
				v := &lvar{key: k, ref: x, sort: s.Val, isRf: refKeys[k] && s.Val == SInt, init: Select(base, x), id: fmt.Sprintf("heap %s %d", k, x.id)}
				c := mk(v)
				if s.Val.Name == "Array" && c.op == OpVar && refKeys[k] && c != v.init {
					c.epoch = e2
				}
				arr = Store(arr, x, c)
				res.vars = append(res.vars, v)
			}
			st.heap[k] = arr
		}
		for _, p := range phis {
			for _, f := range sliceVals[p] {
				hv := st.env[p]
				k := NewBound("k", SInt)
				x := Subst(f.val, map[*Term]*Term{f.it: r.e.mkNth(Sub(k, hv.L[1]), f.it, f.cnt)})
				st.heap[f.vkey] = Store(r.heapGet(st, f.vkey, r.keySort[f.vkey]), hv.L[0], r.e.mkLam(k, x))
			}
		}
		res.head = st.clone()
		res.hfact = len(r.facts)
		if log != nil {
			r.wlogs = append(r.wlogs, log)
		}
		nr := len(act.rets)
		// header facts are added by the caller through hook
		if r.headHook != nil {
			hk := r.headHook
			r.headHook = nil
			hk(st, res.it, res.vars)
		}
		res.back = r.iterate(act, l, st, res.exits)
		res.rets = append([]retState{}, act.rets[nr:]...)
		act.rets = act.rets[:nr]
		if log != nil {
			r.wlogs = r.wlogs[:len(r.wlogs)-1]
		}
		if dry {
			r.dry--
		}
		return res
	}
	// elemForm finds the elements of a slice that starts empty and grows by
	// appending
	elemForm := func(res *result, p *ssa.Phi, key string, dirty func(*Term) bool) *closedForm {
		hv, ok1 := res.head.env[p]
		bv, ok2 := res.back.env[p]
		iv := pre.env[p]
		s := r.keySort[key]
		if !ok1 || !ok2 || s == nil || hv.L[1] != bv.L[1] || hv.L[1] != iv.L[1] || iv.L[2] != Int(0) {
			return nil
		}
		lf := forms[fmt.Sprintf("phi %s %d", p.Name(), 2)]
		cnt := True
		switch {
		case lf == nil:
			return nil
		case lf.step == Int(1):
		case lf.cnt != nil:
			cnt = Subst(lf.cnt, map[*Term]*Term{lf.it: res.it})
		default:
			return nil
		}
		h := Select(r.heapGet(res.head, key, s), hv.L[0])
		end := Add(hv.L[1], hv.L[2])
		var val *Term
		// a value, or nothing under some conditions
		old := Select(h, end)
		var value func(x *Term) bool
		value = func(x *Term) bool {
			if x == old {
				return true
			}
			if x.op == OpIte && (x.args[1] == old || x.args[2] == old || val != x && mentions(x, old)) {
				return value(x.args[1]) && value(x.args[2])
			}
			if val == nil {
				val = x
			}
			return val == x
		}
		var stored func(b *Term) bool
		stored = func(b *Term) bool {
			switch {
			case b == h:
				return true
			case b.op == OpStore && b.args[0] == h && b.args[1] == end:
				return value(b.args[2])
			case b.op == OpIte:
				return stored(b.args[1]) && stored(b.args[2])
			}
			return false
		}
		var sel func(heap, ref, pc *Term) *Term
		sel = func(heap, ref, pc *Term) *Term {
			if ref.op == OpIte {
				c := ref.args[0]
				p1, p2 := And(pc, c), And(pc, Not(c))
				return Ite(c, sel(underPC(c, heap), ref.args[1], p1), sel(underPC(Not(c), heap), ref.args[2], p2))
			}
			return underPC(pc, Select(heap, ref))
		}
		b := sel(r.heapGet(res.back, key, s), bv.L[0], res.back.pc)
		if !stored(b) {
			val = nil
			b = byCases(res.back.pc, b, 8)
			if !stored(b) {
				debugf("loop in %s: elements of %s: %.600s / %s\n", act.fn, p.Comment, b.str(6), h.str(3))
				return nil
			}
		}
		if val == nil && h.op == OpApp && lamDefs[h.name] != nil {
			val = old
		}
		if val == nil || dirty(val) {
			return nil
		}
		return &closedForm{cnt: cnt, val: val, vkey: key, it: res.it}
	}
	var lastLog *WLog
	dryRun := func() *result {
		for round := 0; ; round++ {
			nf, no, ni := len(r.facts), len(r.obls), len(r.invs)
			log := newWLog()
			lastLog = log
			res := attempt(true, log)
			res.facts = append([]*Term{}, r.facts[nf:]...)
			r.facts, r.obls, r.invs = r.facts[:nf], r.obls[:no], r.invs[:ni]
			changed := false
			for _, w := range log.l {
				if modAll[w.key] {
					continue
				}
				if ep, _ := freshOf(w.ref); ep >= e1 {
					if !modFresh[w.key] {
						modFresh[w.key] = true
						changed = true
					}
					continue
				}
				if localRefs[w.ref] && w.ref.seq > seq0 {
					continue
				}
				if w.ref.seq <= seq0 {
					if mod[w.key] == nil {
						mod[w.key] = map[*Term]bool{}
					}
					if !mod[w.key][w.ref] {
						mod[w.key][w.ref] = true
						changed = true
					}
					continue
				}
				debugf("loop in %s: %s all because of %s\n", act.fn, w.key, w.ref)
				modAll[w.key] = true
				changed = true
			}
			for k := range log.all {
				if !modAll[k] {
					modAll[k] = true
					changed = true
				}
			}
			if !changed {
				return res
			}
			if round > 30 {
				r.e.unsup(l.header.Instrs[0].Pos(), "the set of modified objects does not stabilize")
			}
		}
	}
	backVal0 := func(res *result, v *lvar) *Term {
		if v.phi != nil {
			bv, ok := res.back.env[v.phi]
			if !ok {
				r.e.unsup(v.phi.Pos(), "loop variable merges different kinds")
			}
			return bv.L[v.leaf]
		}
		return Select(res.back.heap[v.key], v.ref)
	}
	backVal := func(res *result, v *lvar) *Term {
		return underPC(res.back.pc, backVal0(res, v))
	}
	byCase := func(res *result, b *Term) *Term {
		if (b.op == OpIte || b.op == OpOr || b.op == OpConcat) && b.sort.Name != "Array" {
			return byCases(res.back.pc, b, 8)
		}
		return b
	}
	var res *result
	for round := 0; round < 30; round++ {
		res = dryRun()
		if res.back == nil {
			break
		}
		changed := false
		// check the closed forms in use
		for _, v := range res.vars {
			f := forms[v.id]
			if f == nil {
				continue
			}
			b := backVal(res, v)
			fits := func(b *Term) bool {
				switch {
				case f.same:
					return b == v.init || b == underPC(res.back.pc, v.init)
				case f.key != nil:
					m := map[*Term]*Term{f.it: res.it}
					c, k := setAdded(b, v.cur)
					return k != nil && c == Subst(f.cond, m) && k == Subst(f.key, m)
				case f.step != nil:
					return b == Add(v.cur, f.step)
				case f.cnt != nil:
					return counted(b, v.cur) == Subst(f.cnt, map[*Term]*Term{f.it: res.it})
				}
				want := Concat(v.cur, Subst(f.x, map[*Term]*Term{f.it: res.it}))
				if b != want {
					want = underPC(res.back.pc, want)
				}
				return b == want || sameByCases(b, want, 12)
			}
			ok := fits(b)
			if c := byCase(res, b); !ok && c != b {
				ok = fits(c)
			}
			if !ok {
				w := ""
				if f.x != nil {
					w = Concat(v.cur, Subst(f.x, map[*Term]*Term{f.it: res.it})).str(20)
				}
				debugf("loop in %s: closed form of %s dropped\n   got %s\n  want %s\n", act.fn, v.id, b.str(20), w)
				delete(forms, v.id)
				banned[v.id] = true
				changed = true
			}
		}
		for _, v := range res.vars {
			if lo := freshIn[v.cur]; v.cur.op == OpVar && lo > 0 && v.phi != nil && lowerEp(backVal0(res, v)) < lo {
				noFresh[v.id] = true
				changed = true
			}
		}
		sdirty := func(t *Term) bool { return mentionsAfter(t, seq0, res.it) }
		for _, p := range phis {
			for key, f := range sliceVals[p] {
				g := elemForm(res, p, key, sdirty)
				m := map[*Term]*Term{f.it: res.it}
				if g == nil || g.val != Subst(f.val, m) || g.cnt != Subst(f.cnt, m) {
					debugf("loop in %s: elements of %s dropped\n", act.fn, p.Comment)
					delete(sliceVals[p], key)
					banned["slice "+p.Name()+key] = true
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		// look for new ones
		var others []*Term
		for _, v := range res.vars {
			if forms[v.id] == nil {
				others = append(others, v.cur)
			}
		}
		dirty := func(t *Term) bool {
			// only it and invariant terms
			return mentionsAfter(t, seq0, res.it)
		}
		for _, v := range res.vars {
			if forms[v.id] != nil || banned[v.id] {
				continue
			}
			b := backVal(res, v)
			find := func(b *Term) *closedForm {
				switch {
				case b == v.cur || b == v.init:
					return &closedForm{same: true}
				case v.sort == SInt:
					d := Sub(b, v.cur)
					if d.op == OpInt {
						return &closedForm{step: d}
					}
					if c := counted(b, v.cur); c != nil && !dirty(c) {
						return &closedForm{cnt: c, it: res.it}
					}
				case v.sort == ArrSort(SStr, SBool) && v.key == "set":
					if c, k := setAdded(b, v.cur); k != nil && !dirty(c) && !dirty(k) {
						return &closedForm{cond: c, key: k, it: res.it}
					}
				case v.sort == SStr:
					x, ok := appended(b, v.cur)
					if ok && v.cur.op == OpVar && dirty(x) {
						x, ok = r.accumulated(x, v, res.it, dirty)
					}
					if ok && x != StrEmpty && v.cur.op == OpVar && !dirty(x) {
						return &closedForm{x: x, it: res.it}
					}
				}
				return nil
			}
			f := find(b)
			if c := byCase(res, b); f == nil && c != b {
				f = find(c)
			}
			if f != nil {
				forms[v.id] = f
				changed = true
			}
		}
		_ = others
		for _, p := range phis {
			stp, ok := p.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			for _, lf := range leaves(stp.Elem()) {
				key := sliceRegion(stp.Elem()) + lf.Path
				if sliceVals[p][key] != nil || banned["slice "+p.Name()+key] {
					continue
				}
				if f := elemForm(res, p, key, sdirty); f != nil {
					if sliceVals[p] == nil {
						sliceVals[p] = map[string]*closedForm{}
					}
					sliceVals[p][key] = f
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	if res.back != nil {
		for _, v := range res.vars {
			if forms[v.id] == nil {
				debugf("loop in %s: no closed form of %s (%s): %s\n", act.fn, v.id, v.cur, byCase(res, backVal(res, v)).str(7))
			}
		}
	}
	// array contents: element closed forms
	type arrForm struct {
		v    *lvar
		idx0 *Term // index at iteration 0
		val  *Term // over it
	}
	var arrForms []arrForm
	type sliceForm struct {
		key       string
		phi       *ssa.Phi
		leaf      int
		off, len0 *Term
		init      *Term
		val       *Term
	}
	var sliceForms []sliceForm
	if res.back != nil {
		for _, v := range res.vars {
			if v.sort.Name != "Array" || forms[v.id] != nil {
				continue
			}
			b := backVal(res, v)
			if b.op == OpStore && b.args[0] == v.cur && b.args[1].sort == SInt {
				idx0 := Sub(b.args[1], res.it)
				if !mentionsAfter(idx0, seq0, nil) && !mentionsAfter(b.args[2], seq0, res.it) {
					arrForms = append(arrForms, arrForm{v, idx0, Subst(b.args[2], nil)})
				}
			}
		}
		for _, p := range phis {
			stp, ok := p.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			hv, ok1 := res.head.env[p]
			bv, ok2 := res.back.env[p]
			if !ok1 || !ok2 || hv.L[1] != bv.L[1] {
				continue
			}
			for _, lf := range leaves(stp.Elem()) {
				key := sliceRegion(stp.Elem()) + lf.Path
				s := r.keySort[key]
				if s == nil || sliceVals[p][key] != nil {
					continue
				}
				h := Select(r.heapGet(res.head, key, s), hv.L[0])
				b := Select(r.heapGet(res.back, key, s), bv.L[0])
				if b.op == OpStore && b.args[0] == h {
					pos := Sub(b.args[1], res.it)
					if !mentionsAfter(pos, seq0, nil) && !mentionsAfter(b.args[2], seq0, res.it) {
						iv := pre.env[p]
						sliceForms = append(sliceForms, sliceForm{key: key, phi: p, leaf: 0, off: pos, init: Select(r.heapGet(pre, key, s), iv.L[0]), val: b.args[2]})
					}
				}
			}
		}
	}
	resIt := res.it
	// the bound from the header condition
	var bound *Term
	if res.back != nil {
		bound = r.headerBound(act, l, res.head, resIt, seq0)
	}
	var history []*Term
	headFacts := func(st *State, it *Term, vars []*lvar) {
		var fs []*Term
		sub := map[*Term]*Term{resIt: it}
		if bound != nil {
			b := Subst(bound, sub)
			fs = append(fs, Or(Le(it, b), Eq(it, Int(0))))
		}
		for _, af := range arrForms {
			var cur *Term
			for _, v := range vars {
				if v.id == af.v.id {
					cur = v.cur
				}
			}
			k := NewBound("k", SInt)
			fs = append(fs, Forall(k, Implies(And(Le(Int(0), k), Lt(k, it)), Eq(Select(cur, Add(af.idx0, k)), Subst(af.val, map[*Term]*Term{resIt: k})))))
			k2 := NewBound("k", SInt)
			fs = append(fs, Forall(k2, Implies(Or(Lt(k2, af.idx0), Le(Add(af.idx0, it), k2)), Eq(Select(cur, k2), Select(af.v.init, k2)))))
		}
		for _, sf := range sliceForms {
			hv := st.env[sf.phi]
			cur := Select(r.heapGet(st, sf.key, r.keySort[sf.key]), hv.L[0])
			k := NewBound("k", SInt)
			fs = append(fs, Forall(k, Implies(And(Le(Int(0), k), Lt(k, it)), Eq(Select(cur, Add(sf.off, k)), Subst(sf.val, map[*Term]*Term{resIt: k})))))
			k2 := NewBound("k", SInt)
			fs = append(fs, Forall(k2, Implies(Lt(k2, sf.off), Eq(Select(cur, k2), Select(sf.init, k2)))))
		}
		if h := And(history...); h != True {
			k := NewBound("k", SInt)
			fs = append(fs, Forall(k, Implies(And(Le(Int(0), k), Lt(k, it)), Subst(h, map[*Term]*Term{resIt: k}))))
		}
		for _, f := range fs {
			r.assume(st, f)
		}
	}
	// every completed iteration took the back edge
	if res.back != nil {
		in := map[*Term]bool{}
		for _, c := range conj(pre.pc) {
			in[c] = true
		}
		for _, c := range conj(res.back.pc) {
			if !in[c] && mentions(c, resIt) {
				debugf("loop in %s: hist? after=%v size=%d\n", act.fn, mentionsAfter(c, seq0, resIt), termSize(c, 4000))
			}
			if in[c] || !mentions(c, resIt) || mentionsAfter(c, seq0, resIt) || termSize(c, 400) >= 400 {
				continue
			}
			history = append(history, c)
			debugf("loop in %s: history %.300s\n", act.fn, c.str(6))
		}
		// and what was known in it
		for _, f := range res.facts {
			if termSize(f, 4000) >= 4000 {
				continue
			}
			clean := !mentionsAfter(f, seq0, resIt)
			for _, c := range conj(underPC(res.back.pc, f)) {
				if c == True || c == False || in[c] || !mentions(c, resIt) || mentionsAfter(c, seq0, resIt) || termSize(c, 400) >= 400 {
					continue
				}
				if clean && !(c.op == OpNot && c.args[0].op == OpEq && (c.args[0].args[0].op == OpInt && c.args[0].args[0] != Int(0))) {
					continue
				}
				in[c] = true
				history = append(history, c)
				debugf("loop in %s: history of a fact %.300s\n", act.fn, c.str(6))
			}
		}
		// and what was known in one of its cases
		for _, c0 := range conj(res.back.pc) {
			if c0.op != OpOr || in[c0] {
				continue
			}
			var clean, dirty []*Term
			for _, a := range c0.args {
				if mentionsAfter(a, seq0, resIt) {
					dirty = append(dirty, a)
				} else {
					clean = append(clean, a)
				}
			}
			if len(dirty) != 1 || len(clean) == 0 {
				continue
			}
			other := Or(clean...)
			pc := And(res.back.pc, Not(other), dirty[0])
			for _, f := range res.facts {
				if termSize(f, 4000) >= 4000 || !mentionsAfter(f, seq0, resIt) {
					continue
				}
				for _, c := range conj(underPC(pc, f)) {
					if c == True || c == False || in[c] || !mentions(c, resIt) || mentionsAfter(c, seq0, resIt) || termSize(c, 400) >= 400 {
						continue
					}
					in[c] = true
					history = append(history, Or(other, c))
					debugf("loop in %s: history of a case %.300s\n", act.fn, c.str(6))
				}
			}
		}
	}
	// user invariants: evaluated at entry, header and back edge
	type boundInv struct {
		c    invCand
		id   string
		args []func(st *State, it *Term) (Val, bool)
	}
	var invs []boundInv
	for n, c := range r.invs {
		id := fmt.Sprintf("%s/inv%d/loop%s", r.c.Name, n, r.loopID(act, l))
		if r.dead[id] {
			continue
		}
		args, ok := r.bindInv(act, l, c)
		if !ok {
			continue
		}
		invs = append(invs, boundInv{c, id, args})
	}
	eval := func(bi boundInv, st *State, it *Term) *Term {
		var args []Val
		for _, f := range bi.args {
			v, ok := f(st, it)
			if !ok {
				return nil
			}
			args = append(args, v)
		}
		cl := bi.c.clos
		r.noObl++
		s := st.clone()
		_, v := r.callFn(act, s, cl.fn, args, cl.bind, bi.c.pos)
		r.noObl--
		return v.L[0]
	}
	// entry
	zero := Int(0)
	for _, bi := range invs {
		if bi.c.variant {
			continue
		}
		if c := eval(bi, pre, zero); c != nil {
			r.assertInv(pre, bi.id, "holds on entry", bi.c.pos, c)
		}
	}
	variants := map[string]*Term{}
	r.headHook = func(st *State, it *Term, vars []*lvar) {
		headFacts(st, it, vars)
		for _, bi := range invs {
			c := eval(bi, st, it)
			if c == nil {
				continue
			}
			if bi.c.variant {
				variants[bi.id] = c
				continue
			}
			r.assume(st, c)
		}
	}
	nf := len(r.facts)
	_ = nf
	r.backs = nil
	fin := attempt(false, nil)
	backs := r.backs
	if fin.back != nil {
		it1 := Add(fin.it, Int(1))
		for _, bi := range invs {
			c := eval(bi, fin.back, it1)
			if c == nil {
				continue
			}
			if bi.c.variant {
				if v0 := variants[bi.id]; v0 != nil {
					r.assertInv(fin.back, bi.id, "decreases", bi.c.pos, And(Le(zero, v0), Lt(c, v0)))
				}
				continue
			}
			if len(backs) > 1 {
				// each back edge by itself
				l := make([]*Term, len(backs))
				for i, b := range backs {
					l[i] = eval(bi, b, it1)
				}
				for i, b := range backs {
					if l[i] != nil {
						r.assertInv(b, bi.id, "preserved", bi.c.pos, l[i])
					}
				}
				continue
			}
			r.assertInv(fin.back, bi.id, "preserved", bi.c.pos, c)
		}
	}
	act.rets = append(act.rets, fin.rets...)
	// after a pure loop, the number of iterations is known at the header exit
	pure := len(arrForms) == 0 && len(sliceForms) == 0 && bound != nil && len(invs) == 0 && len(modAll) == 0
	for _, v := range fin.vars {
		if forms[v.id] == nil && !(v.phi != nil && v.leaf == 0 && len(sliceVals[v.phi]) > 0) {
			pure = false
		}
	}
	for k := range modFresh {
		// arrays of arguments are not referred to any more
		ok := len(sliceVals) > 0 && len(k) > 1 && k[0] == '[' && k[1] >= '0' && k[1] <= '9'
		for _, fs := range sliceVals {
			if fs[k] != nil {
				ok = true
			}
		}
		if !ok {
			pure = false
		}
	}
	if bound != nil {
		n := Subst(bound, map[*Term]*Term{resIt: fin.it})
		lb, ok := lowerBound(n, 0)
		// exits from within the loop have to stay apart from this one
		last := True
		if len(fin.rets) > 0 {
			last = Eq(fin.it, n)
		}
		for _, es := range fin.exits {
			for i := range es {
				if es[i].from != l.header {
					last = Eq(fin.it, n)
				}
			}
		}
		for b, es := range fin.exits {
			for i := range es {
				if es[i].from != l.header {
					continue
				}
				if pure && ok && lb >= 0 {
					m := map[*Term]*Term{fin.it: n}
					es[i].st = substState(es[i].st, m)
					es[i].st.pc = And(pre.pc, last)
				} else {
					nn := Ite(Le(zero, n), n, zero)
					if ok && lb >= 0 && len(sliceVals) > 0 {
						es[i].st = substState(es[i].st, map[*Term]*Term{fin.it: n})
						es[i].st.pc = And(es[i].st.pc, last)
					}
					r.assume(es[i].st, Eq(fin.it, nn))
				}
			}
			fin.exits[b] = es
		}
	}
	for b, es := range fin.exits {
		pending[b] = append(pending[b], es...)
	}
	// writes are visible to the enclosing logs
	for k, refs := range mod {
		for x := range refs {
			g := r.wguard
			r.wguard = lastLog.guard[wrec{k, x}]
			r.logw(k, x)
			r.wguard = g
		}
	}
	for k := range modAll {
		r.logAll(k)
	}
	for k := range modFresh {
		r.logw(k, r.alloc[e1])
	}
}

// underPC simplifies a term with what the path condition says
func underPC(pc, t *Term) *Term {
	m := map[*Term]*Term{}
	for _, c := range conj(pc) {
		if c == True || c == False {
			continue
		}
		if c.op == OpNot {
			m[c.args[0]] = False
		} else {
			m[c] = True
		}
	}
	if len(m) == 0 {
		return t
	}
	u := Subst(t, m)
	if u != t {
		// what is quantified may be known once it is simplified
		u = Subst(u, m)
	}
	return u
}

// byCases simplifies a term with a path condition that is not a conjunction,
// by distinguishing the conditions in the term
func byCases(pc, b *Term, depth int) *Term {
	if depth == 0 || pc == True {
		return b
	}
	c := condIn(b)
	if c == nil {
		return b
	}
	set := func(v *Term) (*Term, *Term) {
		m := map[*Term]*Term{c: v}
		p := Subst(pc, m)
		for i := 0; i < 8; i++ {
			// what has become certain
			q := unitPC(p)
			if q == p {
				break
			}
			p = q
		}
		return p, underPC(p, Subst(b, m))
	}
	p1, b1 := set(True)
	p2, b2 := set(False)
	if p1 == False && p2 == False {
		return b
	}
	if p1 == False {
		return byCases(p2, b2, depth-1)
	}
	if p2 == False {
		return byCases(p1, b1, depth-1)
	}
	b1, b2 = byCases(p1, b1, depth-1), byCases(p2, b2, depth-1)
	return Ite(c, b1, b2)
}

// unitPC propagates the conjuncts of a condition that are atoms
func unitPC(pc *Term) *Term {
	l := conj(pc)
	for i, c := range l {
		if c.op == OpOr || c.op == OpIte || c.op == OpForall {
			// under the others
			var o []*Term
			for j, d := range l {
				if j != i && d.op != OpForall {
					o = append(o, d)
				}
			}
			l[i] = underPC(And(o...), c)
		}
	}
	return And(l...)
}

// condIn finds an atomic condition of an ite or a disjunction
func condIn(t *Term) *Term {
	atom := func(c *Term) *Term {
		for {
			switch c.op {
			case OpNot:
				c = c.args[0]
			case OpOr, OpAnd, OpIte:
				c = c.args[0]
			default:
				return c
			}
		}
	}
	switch t.op {
	case OpIte:
		return atom(t.args[0])
	case OpConcat:
		for _, p := range t.args {
			if c := condIn(p); c != nil {
				return c
			}
		}
	case OpOr:
		for _, a := range t.args {
			if a.op == OpVar {
				if c := condIn(a); c != nil {
					return c
				}
				continue
			}
			return atom(a)
		}
	}
	return nil
}

// appended gives x with b = v + x.
func appended(b, v *Term) (*Term, bool) {
	if b == v {
		return StrEmpty, true
	}
	if b.op == OpIte {
		x, ok := appended(b.args[1], v)
		y, ok2 := appended(b.args[2], v)
		if !ok || !ok2 {
			return nil, false
		}
		return Ite(b.args[0], x, y), true
	}
	ps := parts(b)
	if len(ps) > 1 {
		x, ok := appended(ps[0], v)
		if !ok {
			return nil, false
		}
		return Concat(append([]*Term{x}, ps[1:]...)...), ok
	}
	return nil, false
}

// accumulated rewrites what is appended to a text v.cur under conditions on
// whether the text is empty so far, if these can be told from the iteration.
func (r *Run) accumulated(x *Term, v *lvar, it *Term, dirty func(*Term) bool) (*Term, bool) {
	acc := NewVar("acc", SInt, 0)
	nonneg[acc] = true
	accVars[acc] = true
	x = Subst(x, map[*Term]*Term{Eq(v.cur, StrEmpty): Le(acc, Int(0)), StrLen(v.cur): acc})
	with := func(first *Term) *Term {
		return Subst(x, map[*Term]*Term{Le(Int(1), acc): Not(first), Le(acc, Int(0)): first, Eq(acc, Int(0)): first})
	}
	w, w2 := nonEmpty(with(True)), nonEmpty(with(False))
	if w != w2 || dirty(w) || hasStrLen(w) {
		walk(w, func(t *Term) {
			if t.op == OpVar && t != it && dirty(t) {
				debugf("dirty: %s\n", t)
			}
		})
		debugf("accumulated %v %v %v: %.200s / %.200s\n", w == w2, dirty(w), hasStrLen(w), w.str(8), w2.str(8))
		return nil, false
	}
	k := NewBound("k", SInt)
	first := And(Not(nonEmpty(v.init)), Le(r.e.mkCount(it, k, Subst(w, map[*Term]*Term{it: k})), Int(0)))
	return with(first), true
}

// sameByCases tells whether a = b, after distinguishing the conditions in a and b.
func sameByCases(a, b *Term, depth int) bool {
	if a == b || Eq(a, b) == True {
		return true
	}
	if depth == 0 {
		return false
	}
	var c *Term
	for _, t := range []*Term{a, b} {
		for _, p := range parts(t) {
			if c == nil {
				c = condIn(p)
			}
		}
	}
	if c == nil {
		return false
	}
	for _, w := range []*Term{True, False} {
		m := map[*Term]*Term{c: w, Not(c): Not(w)}
		if !sameByCases(Subst(a, m), Subst(b, m), depth-1) {
			return false
		}
	}
	return true
}

func (r *Run) loopID(act *Act, l *Loop) string {
	return fmt.Sprintf("%s#%d", act.fn.String(), l.n)
}

func (r *Run) assertInv(st *State, id, what string, pos token.Pos, c *Term) {
	if r.dry > 0 {
		return
	}
	n := r.noObl
	r.noObl = 0
	r.assert(st, "inv", id+" "+what, pos, c, id)
	r.noObl = n
}

func substState(s *State, m map[*Term]*Term) *State {
	n := s.clone()
	memo := map[*Term]*Term{}
	n.pc = subst(n.pc, m, memo)
	for k, v := range n.heap {
		n.heap[k] = subst(v, m, memo)
	}
	for k, v := range n.env {
		w := Val{A: v.A}
		if v.A != nil {
			a := *v.A
			a.Ref = subst(a.Ref, m, memo)
			if a.Idx != nil {
				a.Idx = subst(a.Idx, m, memo)
			}
			w.A = &a
		}
		for _, t := range v.L {
			w.L = append(w.L, subst(t, m, memo))
		}
		n.env[k] = w
	}
	return n
}

// mentionsAfter: the term mentions a variable created after seq0 other than it
func mentionsAfter(t *Term, seq0 int, it *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.seq <= seq0 || seen[t] || t == it {
			return false
		}
		seen[t] = true
		if t.op == OpVar {
			return !t.bound
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// headerBound: the header is left when i = bound
func (r *Run) headerBound(act *Act, l *Loop, head *State, it *Term, seq0 int) *Term {
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	st := head.clone()
	nf, no := len(r.facts), len(r.obls)
	r.dry++
	p := map[*ssa.BasicBlock][]edge{}
	a2 := *act
	a2.rets = nil
	st.pc = True
	r.block(&a2, h, st, p)
	r.dry--
	r.facts, r.obls = r.facts[:nf], r.obls[:no]
	_ = iff
	for i, s := range h.Succs {
		if !l.blocks[s] {
			continue
		}
		if l.blocks[h.Succs[1-i]] {
			return nil
		}
		if len(p[s]) != 1 {
			return nil
		}
		for _, c := range conj(p[s][0].st.pc) {
			if c.op != OpGe0 {
				continue
			}
			// c: n - it - 1 >= 0
			n := Add(c.args[0], it, Int(1))
			if !mentionsAfter(n, seq0, nil) {
				return n
			}
		}
	}
	return nil
}

// bindInv finds the values of the closure's parameters
func (r *Run) bindInv(act *Act, l *Loop, c invCand) ([]func(st *State, it *Term) (Val, bool), bool) {
	var fs []func(st *State, it *Term) (Val, bool)
	for _, p := range c.clos.fn.Params {
		name := p.Name()
		if name == "it" {
			fs = append(fs, func(st *State, it *Term) (Val, bool) { return one(it), true })
			continue
		}
		var best *nameUse
		for i := range act.li.names[name] {
			u := &act.li.names[name][i]
			t := u.v.Type()
			if u.addr {
				t = t.Underlying().(*types.Pointer).Elem()
			}
			if !types.Identical(t, p.Type()) {
				continue
			}
			if phi, ok := u.v.(*ssa.Phi); ok && phi.Block() == l.header {
				best = u
				break
			}
			vi, isInstr := u.v.(ssa.Instruction)
			if isInstr {
				if !vi.Block().Dominates(l.header) || vi.Block() == l.header {
					continue
				}
			}
			if best == nil {
				best = u
				continue
			}
			bi, ok := best.v.(ssa.Instruction)
			if !ok || isInstr && bi.Block().Dominates(vi.Block()) {
				best = u
			}
		}
		if _, isPtr := p.Type().(*types.Pointer); best == nil && isPtr {
			// the address of the only local variable of this type
			n := 0
			for _, b := range act.fn.Blocks {
				if b == l.header || !b.Dominates(l.header) {
					continue
				}
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok && types.Identical(a.Type(), p.Type()) {
						n++
						best = &nameUse{v: a}
					}
				}
			}
			if n != 1 {
				best = nil
			}
		}
		if best == nil {
			// the only phi of this type
			n := 0
			for _, in := range l.header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if types.Identical(phi.Type(), p.Type()) {
					n++
					best = &nameUse{v: phi, b: l.header}
				}
			}
			if n == 0 {
				for _, q := range act.fn.Params {
					if types.Identical(q.Type(), p.Type()) {
						n++
						best = &nameUse{v: q}
					}
				}
			}
			if n != 1 {
				return nil, false
			}
		}
		u := *best
		pt := p.Type()
		fs = append(fs, func(st *State, it *Term) (Val, bool) {
			v, ok := st.env[u.v]
			if !ok {
				return Val{}, false
			}
			if u.addr {
				a := v.A
				if a == nil {
					a = &Addr{Key: regionOf(pt), Ref: v.L[0]}
				}
				return r.load(st, a, pt), true
			}
			return v, true
		})
	}
	return fs, true
}
