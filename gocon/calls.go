package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) callCommon(act *Act, st *State, c *ssa.CallCommon, args []Val, fv Val, pos token.Pos, in *ssa.Call) (*State, Val) {
	if c.IsInvoke() {
		return r.invoke(act, st, c, fv, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return r.builtin(act, st, b, c, args, pos)
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		return r.callFn(act, st, fn, args, nil, pos)
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		_ = mc
	}
	return r.callValue(act, st, fv.L[0], args, c.Signature(), pos)
}

// callValue calls a function value
func (r *Run) callValue(act *Act, st *State, f *Term, args []Val, sig *types.Signature, pos token.Pos) (*State, Val) {
	switch {
	case f.op == OpInt:
		cl := r.e.closureOf(f.ival)
		if cl == nil {
			r.assert(st, "nil function", "", pos, False, "")
			n := st.clone()
			n.pc = False
			return n, zeroVal(sig.Results())
		}
		if cl.fn == nil {
			return st, Val{} // context.CancelFunc
		}
		return r.callFn(act, st, cl.fn, args, cl.bind, pos)
	case f.op == OpIte:
		a, b := st.clone(), st.clone()
		a.pc = And(st.pc, f.args[0])
		b.pc = And(st.pc, Not(f.args[0]))
		return r.branch2(st, a, b, pos, sig.Results(), func(s *State) (*State, Val) { return r.callValue(act, s, f.args[1], args, sig, pos) }, func(s *State) (*State, Val) { return r.callValue(act, s, f.args[2], args, sig, pos) })
	}
	r.e.unsup(pos, "call of an unknown function value %s", f)
	return nil, Val{}
}

func (r *Run) branch2(st, a, b *State, pos token.Pos, res types.Type, fa, fb func(*State) (*State, Val)) (*State, Val) {
	if a.pc == False {
		return fb(b)
	}
	if b.pc == False {
		return fa(a)
	}
	if _, ra, _ := commonCond(a.pc, b.pc); st != a && st != b {
		noteSplit(st.pc, ra, a.pc, b.pc)
	}
	env := st.env
	sa, va := fa(a)
	sb, vb := fb(b)
	if sa.pc == False {
		sb.env = env
		return sb, vb
	}
	if sb.pc == False {
		sa.env = env
		return sa, va
	}
	sa.env = map[ssa.Value]Val{retKey: va}
	sb.env = map[ssa.Value]Val{retKey: vb}
	sa.defers, sb.defers = nil, nil
	m := r.merge(sa, sb, pos)
	v, ok := m.env[retKey]
	if !ok {
		r.e.unsup(pos, "results cannot be merged")
	}
	m.env = env
	m.defers = st.defers
	return m, v
}

func (r *Run) invoke(act *Act, st *State, c *ssa.CallCommon, x Val, args []Val, pos token.Pos) (*State, Val) {
	it := c.Value.Type()
	if s := r.e.singleImpl(it); s != nil {
		fn := r.e.prog.LookupMethod(s, c.Method.Pkg(), c.Method.Name())
		r.assert(st, "nil", "", pos, Not(Eq(x.L[0], Int(0))), "")
		return r.callFn(act, st, fn, append([]Val{x}, args...), nil, pos)
	}
	if m := r.modelIface(act, st, it, c.Method.Name(), x, args, pos); m != nil {
		return m.st, m.v
	}
	r.assert(st, "nil", "", pos, Not(Eq(x.L[0], Int(0))), "")
	// candidates
	var cands []types.Type
	for _, t := range r.e.implsOf(it) {
		if Eq(x.L[0], Int(int64(r.e.tagOf(t)))) != False {
			cands = append(cands, t)
		}
	}
	if x.L[0].op == OpInt || x.L[0].op == OpIte && allConstLeaves(x.L[0]) {
		var l []types.Type
		for _, t := range cands {
			if And(st.pc, Eq(x.L[0], Int(int64(r.e.tagOf(t))))) != False {
				l = append(l, t)
			}
		}
		cands = l
	} else if r.e.closedIface(it) {
		var cs []*Term
		for _, t := range cands {
			cs = append(cs, Eq(x.L[0], Int(int64(r.e.tagOf(t)))))
		}
		r.assume(st, Implies(Not(Eq(x.L[0], Int(0))), Or(cs...)))
		r.e.used["only the module's own types implement "+ts(it)] = true
	} else {
		r.e.unsup(pos, "method %s of unknown implementation of %s", c.Method.Name(), it)
	}
	if len(cands) == 0 {
		if x.L[0] == Int(0) {
			n := st.clone()
			n.pc = False
			return n, zeroVal(c.Signature().Results())
		}
		r.e.unsup(pos, "method %s: no implementation of %s", c.Method.Name(), it)
	}
	var rec func(s *State, l []types.Type) (*State, Val)
	rec = func(s *State, l []types.Type) (*State, Val) {
		t := l[0]
		run := func(s *State) (*State, Val) {
			fn := r.e.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
			return r.callFn(act, s, fn, append([]Val{r.unpack(s, x, it, t)}, args...), nil, pos)
		}
		if len(l) == 1 {
			return run(s)
		}
		cnd := Eq(x.L[0], Int(int64(r.e.tagOf(t))))
		a, b := s.clone(), s.clone()
		a.pc = And(s.pc, cnd)
		b.pc = And(s.pc, Not(cnd))
		return r.branch2(s, a, b, pos, c.Signature().Results(), run, func(s *State) (*State, Val) { return rec(s, l[1:]) })
	}
	return rec(st, cands)
}

func (r *Run) callFn(act *Act, st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) (*State, Val) {
	if st.pc == False {
		return st.clone(), zeroVal(fn.Signature.Results())
	}
	pkg := pkgOf(fn)
	if pkg == goconPath {
		return r.specCall(act, st, fn, args, pos)
	}
	if pkg == "" || strings.HasPrefix(pkg, modPath) {
		if fn.Synthetic != "" && fn.Pkg == nil {
			// wrapper or bound method
			if t := r.wrapped(fn); t != nil && len(bind) == 0 {
				if c := r.e.contracts[t]; c != nil {
					goto normal
				}
			}
		}
	} else {
		return r.extCall(act, st, fn, args, bind, pos)
	}
normal:
	if n := len(r.ccalls); n > 0 {
		if cs := r.ccalls[n-1]; !cs.done && fn == cs.c.Target && r.stack[len(r.stack)-1] == cs.c.Wrapper {
			for i := range args {
				if args[i].A != nil {
					r.e.unsup(pos, "interior pointer passed to %s", cs.c.Name)
				}
			}
			return r.targetStub(st, cs, fn, args)
		}
	}
	if c := r.e.contracts[fn]; c != nil && !c.Missing && (c.Opts["inline"] == "" || len(r.stack) == 1 && r.c == c) {
		if r.c.Wrapper != nil && len(r.stack) == 1 && r.stack[0] == r.c.Wrapper && c == r.c {
			// the target of the contract being verified
			return r.runTarget(st, fn, args, pos)
		}
		return r.callContract(act, st, c, args, pos)
	}
	if r.e.isSpecFn(fn) && r.isRecursive(fn) {
		return st, r.recCall(st, fn, args, pos)
	}
	if len(r.stack) > maxDepth {
		r.e.unsup(pos, "call depth")
	}
	return r.inline(st, fn, args, bind, pos)
}

func (r *Run) wrapped(fn *ssa.Function) *ssa.Function { return nil }

func pkgOf(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	// synthetic wrappers
	if f.Origin() != nil {
		return pkgOf(f.Origin())
	}
	return ""
}

// runTarget executes the body under verification
func (r *Run) runTarget(st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
	w := newWLog()
	// a new epoch, so that everything the wrapper allocated is older
	r.newEpoch(st)
	e0 := st.aE
	r.entryEpoch = e0
	saved := r.noObl
	r.noObl = 0
	// entry snapshot for the frame
	entry := st.clone()
	if r.c.Trusted {
		// assumed, not executed: it changes nothing but its results and
		// what its contract says about ghost state
		k := "ghost#extfail"
		r.get(st, k, Int(1), SBool)
		r.put(st, k, Int(1), NewVar("extfail", SBool, 0), SBool)
		f := &Frame{refs: map[string][]*Term{k: {Int(1)}}, all: map[string]bool{}, sorts: map[string]*Sort{k: r.keySort[k]}, fresh: map[string]bool{}, guard: map[wrec]*Term{}, keys: []string{k}}
		r.c.frame = f
		r.newEpoch(st)
		var v Val
		for i, lf := range leaves(fn.Signature.Results()) {
			ep := 0
			if lf.IsRef {
				ep = st.aE
			}
			v.L = append(v.L, NewVar(fmt.Sprintf("res%d", i), lf.Sort, ep))
		}
		r.noObl = saved
		r.e.used["contract of "+r.c.TName+" is assumed"] = true
		return st, v
	}
	if b := r.c.Opts["body"]; b != "" {
		// the function is assumed to be a ghost function
		fn = r.c.Wrapper.Pkg.Func(b)
		if fn == nil {
			r.e.unsup(pos, "no ghost function %s", b)
		}
		r.e.used["assumed: "+r.c.TName+" does what ghost function "+b+" does"] = true
	}
	rl := newWLog()
	r.wlogs = append(r.wlogs, w)
	r.rlogs = append(r.rlogs, rl)
	r.target = true
	ns, v := r.inline(st, fn, args, nil, pos)
	r.target = false
	r.wlogs = r.wlogs[:len(r.wlogs)-1]
	r.rlogs = r.rlogs[:len(r.rlogs)-1]
	r.c.reads = r.makeReads(rl, e0)
	r.noObl = saved
	r.c.frame = r.makeFrame(w, e0, entry)
	debugf("FRAME %s %s\n", r.c.Name, r.c.frame)
	if ns.pc == False {
		r.e.srcNotes = append(r.e.srcNotes, r.c.Name+": target never returns")
	}
	r.newEpoch(ns)
	return ns, v
}

// Frame: what a function may modify, in terms of its parameters and the
// initial heap
type Frame struct {
	keys  []string
	refs  map[string][]*Term
	all   map[string]bool
	sorts map[string]*Sort
	fresh map[string]bool // keys of fresh objects written
	guard map[wrec]*Term  // written only if
}

// expressible: the term only mentions parameters and the initial heap
func (r *Run) expressible(t *Term) bool {
	seen := map[*Term]bool{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			if t.seq != 0 {
				ok = false
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return ok
}

func (r *Run) makeFrame(w *WLog, e0 int, entry *State) *Frame {
	f := &Frame{refs: map[string][]*Term{}, all: map[string]bool{}, sorts: map[string]*Sort{}, fresh: map[string]bool{}, guard: map[wrec]*Term{}}
	ks := map[string]bool{}
	for _, x := range w.l {
		if localRefs[x.ref] {
			continue
		}
		ks[x.key] = true
		f.sorts[x.key] = r.keySort[x.key]
		if lowerEp(x.ref) >= e0 {
			f.fresh[x.key] = true
			continue
		}
		if r.expressible(x.ref) {
			dup := false
			for _, y := range f.refs[x.key] {
				if y == x.ref {
					dup = true
				}
			}
			if !dup {
				f.refs[x.key] = append(f.refs[x.key], x.ref)
				if g := w.guard[x]; g != nil && !strings.HasPrefix(x.key, "ghost#") && r.expressible(g) {
					f.guard[x] = g
				}
			}
			continue
		}
		f.all[x.key] = true
	}
	for k := range w.all {
		ks[k] = true
		f.sorts[k] = r.keySort[k]
		f.all[k] = true
	}
	for k := range ks {
		if f.sorts[k] == nil {
			continue
		}
		f.keys = append(f.keys, k)
	}
	sort.Strings(f.keys)
	return f
}

// makeReads lists the regions that were read outside of new objects
func (r *Run) makeReads(w *WLog, e0 int) []string {
	ks := map[string]bool{}
	for _, x := range w.l {
		if localRefs[x.ref] {
			continue
		}
		if lowerEp(x.ref) >= e0 {
			continue
		}
		if strings.HasPrefix(x.key, "global ") || strings.HasPrefix(x.key, "ghost#") {
			continue
		}
		ks[x.key] = true
	}
	for k := range w.all {
		ks[k] = true
	}
	var l []string
	for k := range ks {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		if r.c.readSort == nil {
			r.c.readSort = map[string]*Sort{}
		}
		r.c.readSort[k] = r.keySort[k]
	}
	return l
}

// freshIn: variables known to be references allocated in or after an epoch
var freshIn = map[*Term]int{}

// lowerEp: the reference is nil or was allocated in or after this epoch
// (0: unknown)
func lowerEp(t *Term) int {
	if e, _ := freshOf(t); e > 0 {
		return e
	}
	switch t.op {
	case OpVar:
		return freshIn[t]
	case OpInt:
		if t.ival == 0 {
			return 1 << 40
		}
	case OpIte:
		a, b := lowerEp(t.args[1]), lowerEp(t.args[2])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

// oldHeap gives regions that agree with hs on all that can be reached from the
// arguments: what has been allocated after the arguments is left out, if no
// older object refers to it.
func (r *Run) oldHeap(fn *ssa.Function, args []Val, keys []string, hs []*Term) []*Term {
	e := 1
	for i, p := range fn.Params {
		for j, lf := range leaves(p.Type()) {
			if !lf.IsRef {
				continue
			}
			x := epochOf(args[i].L[j])
			if x <= 0 {
				return hs
			}
			if x > e {
				e = x
			}
		}
	}
	res := make([]*Term, len(hs))
	for i, h := range hs {
	strip:
		for {
			switch h.op {
			case OpStore:
				if lowerEp(h.args[1]) >= e {
					h = h.args[0]
					continue strip
				}
			case OpVar:
				f := frozen[h]
				if f == nil || f.epoch < e {
					break strip
				}
				for _, x := range f.except {
					if lowerEp(x) < e {
						break strip
					}
				}
				h = f.base
				continue strip
			}
			break
		}
		if refKeys[keys[i]] && !(h.op == OpVar && h.epoch > 0 && h.epoch <= e) {
			return hs
		}
		res[i] = h
	}
	return res
}

// callContract uses the contract of the callee
func (r *Run) callContract(act *Act, st *State, c *Contract, args []Val, pos token.Pos) (*State, Val) {
	if c.frame == nil {
		if c.framing && c == r.c {
			// recursion: the frame is the least one that the body keeps to
			c.frame = &Frame{refs: map[string][]*Term{}, all: map[string]bool{}, sorts: map[string]*Sort{}, fresh: map[string]bool{}, guard: map[wrec]*Term{}}
			c.guessed = true
		} else if c.framing {
			r.e.unsup(pos, "contracts of %s are mutually recursive", c.Name)
		}
	}
	if c.frame == nil {
		// verify (infer the frame of) the callee first
		r.e.need(c)
	}
	if c.frame == nil {
		r.e.unsup(pos, "callee %s could not be verified: %s", c.Name, c.failMsg)
	}
	r.callees[c] = true
	w := c.Wrapper
	if len(w.Params) != len(args) {
		r.e.unsup(pos, "contract %s: wrapper parameters differ from the target's", c.Name)
	}
	for _, a := range args {
		if a.A != nil {
			r.e.unsup(pos, "interior pointer passed to %s", c.Name)
		}
	}
	cs := &contractCall{c: c, args: args, pos: pos, noObl: r.noObl, pc: st.pc, sub: map[*Term]*Term{}, vars: map[*Term]bool{}, nfact: len(r.facts)}
	if fn := c.Target; fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			r.assert(st, "nil", "receiver of "+fn.Name(), pos, Not(Eq(args[0].L[0], Int(0))), "")
		}
	}
	r.ccalls = append(r.ccalls, cs)
	saved, sd := st.env, st.defers
	in := st.clone()
	r.noObl++
	ns, _ := r.inlineWrapper(in, w, args, pos)
	r.noObl--
	r.ccalls = r.ccalls[:len(r.ccalls)-1]
	ns.env = saved
	ns.defers = sd
	if !cs.done {
		r.e.unsup(pos, "contract %s does not call its target", c.Name)
	}
	if len(cs.sub) > 0 {
		memo := map[*Term]*Term{}
		for i, t := range cs.res.L {
			cs.res.L[i] = subst(t, cs.sub, memo)
		}
		ns.pc = subst(ns.pc, cs.sub, memo)
		for _, k := range cs.keys {
			if t, ok := ns.heap[k]; ok {
				ns.heap[k] = subst(t, cs.sub, memo)
			}
		}
		n := cs.nfact
		for i := cs.nfact; i < len(r.facts); i++ {
			f := subst(r.facts[i], cs.sub, memo)
			if f != True {
				r.facts[n] = f
				n++
			}
		}
		r.facts = r.facts[:n]
	}
	return ns, cs.res
}

type contractCall struct {
	c     *Contract
	args  []Val
	pos   token.Pos
	done  bool
	res   Val
	noObl int
	epoch int
	pc    *Term
	sub   map[*Term]*Term
	vars  map[*Term]bool
	keys  []string
	nfact int
}

// define tries to use an assumption about a result as its definition
func (r *Run) define(cs *contractCall, c *Term) bool {
	try := func(v, t *Term) bool {
		if v.op != OpVar || !cs.vars[v] || cs.sub[v] != nil || v.sort != t.sort {
			return false
		}
		// t may mention other variables, but not this one
		t = Subst(t, cs.sub)
		if mentions(t, v) {
			return false
		}
		m := map[*Term]*Term{v: t}
		for k, x := range cs.sub {
			cs.sub[k] = Subst(x, m)
		}
		cs.sub[v] = t
		return true
	}
	part := func(g, a, b *Term) bool {
		// g or a = b: a is b unless g
		for _, x := range [][2]*Term{{a, b}, {b, a}} {
			v := x[0]
			if v.op != OpVar || !cs.vars[v] || cs.sub[v] != nil {
				continue
			}
			n := NewVar("c", v.sort, v.epoch)
			if nonneg[v] {
				nonneg[n] = true
			}
			cs.vars[n] = true
			if mentions(Subst(g, cs.sub), v) || !try(v, Ite(g, n, x[1])) {
				continue
			}
			return true
		}
		return false
	}
	switch c.op {
	case OpOr:
		for i, a := range c.args {
			if a.op == OpEq && (a.args[0].sort == SStr || a.args[0].sort == SBool) {
				var g []*Term
				for j, b := range c.args {
					if j != i {
						g = append(g, b)
					}
				}
				if part(Or(g...), a.args[0], a.args[1]) {
					return true
				}
			}
			if a.op == OpEq && a.args[0].sort == SInt {
				if v, t := solveFor(a, cs.vars); v != nil && cs.sub[v] == nil {
					var g []*Term
					for j, b := range c.args {
						if j != i {
							g = append(g, b)
						}
					}
					if part(Or(g...), v, t) {
						return true
					}
				}
			}
		}
	case OpVar:
		return try(c, True)
	case OpNot:
		if c.args[0].op == OpVar {
			return try(c.args[0], False)
		}
	case OpEq:
		// prefer the younger variable
		a, b := c.args[0], c.args[1]
		if a.sort == SInt && (a.op == OpLin || b.op == OpLin) {
			if v, t := solveFor(c, cs.vars); v != nil {
				return try(v, t)
			}
		}
		if a.sort == SBool {
			// (v = 0) = g for the type of an error
			for _, x := range [][2]*Term{{a, b}, {b, a}} {
				if x[0].op == OpEq && x[0].args[0].sort == SInt && x[1].op != OpVar {
					y, z := x[0].args[0], x[0].args[1]
					if y == Zero {
						y, z = z, y
					}
					if z == Zero && y.op == OpVar && cs.vars[y] {
						g := Not(x[1])
						if part(g, y, Zero) {
							// the other value only occurs where it is not nil
							if w := cs.sub[y]; w.op == OpIte {
								for _, n := range w.args[1:] {
									if n.op == OpVar && n != y {
										nonzero[n] = true
									}
								}
							} else {
								r.addFact(Implies(g, Not(Eq(w, Zero))))
							}
							return true
						}
					}
				}
			}
		}
		if b.op == OpVar && cs.vars[b] && (a.op != OpVar || b.seq > a.seq) {
			if try(b, a) {
				return true
			}
		}
		if a.op == OpVar && try(a, b) {
			return true
		}
		return try(b, a)
	case OpGe0:
		// v - alloc_e >= 0: freshly allocated
		if t := c.args[0]; t.op == OpLin && t.ival == 0 && len(t.args) == 2 {
			for i := 0; i < 2; i++ {
				v, a := t.args[i], t.args[1-i]
				if t.coefs[i] == 1 && t.coefs[1-i] == -1 && cs.vars[v] && epochVars[a] == cs.epoch && cs.epoch > 0 {
					freshIn[v] = cs.epoch
				}
			}
		}
	}
	return false
}

// solveFor solves an equation of integers for one of the variables
func solveFor(x *Term, vars map[*Term]bool) (v, t *Term) {
	d := Sub(x.args[0], x.args[1])
	if d.op != OpLin {
		return nil, nil
	}
	for i, a := range d.args {
		if a.op != OpVar || !vars[a] || d.coefs[i] != 1 && d.coefs[i] != -1 {
			continue
		}
		t := Add(a, d)
		if d.coefs[i] == 1 {
			t = Add(a, Neg(d))
		}
		if !mentions(t, a) {
			return a, t
		}
	}
	return nil, nil
}

// targetStub: the call of the target inside a wrapper run in call mode
func (r *Run) targetStub(st *State, cs *contractCall, fn *ssa.Function, args []Val) (*State, Val) {
	cs.done = true
	f := cs.c.frame
	m := map[*Term]*Term{}
	// parameters
	for i, pv := range cs.c.params {
		for j, t := range pv.L {
			m[t] = args[i].L[j]
		}
	}
	for k, t := range cs.c.initHeap {
		if x, ok := st.heap[k]; ok {
			m[t] = x
		} else {
			r.keySort[k] = t.sort
			m[t] = r.initHeap(k, t.sort)
			if t.epoch > 0 {
				m[t].epoch = t.epoch
			}
		}
	}
	type upd struct {
		key    string
		refs   []*Term
		guards []*Term
	}
	var us []upd
	for _, k := range f.keys {
		u := upd{key: k}
		for _, x := range f.refs[k] {
			u.refs = append(u.refs, Subst(x, m))
			g := f.guard[wrec{k, x}]
			if g != nil {
				g = Subst(g, m)
			}
			u.guards = append(u.guards, g)
		}
		us = append(us, u)
	}
	if cs.c.Opts["pure"] != "" {
		// a function of the arguments and of what it reads
		if len(f.all) > 0 || len(f.refs) > 0 {
			r.e.unsup(cs.pos, "%s is not pure", cs.c.Name)
		}
		var l []*Term
		for _, a := range args {
			l = append(l, a.L...)
		}
		memoL := map[*Term]*Term{}
		var hs []*Term
		for _, k := range cs.c.reads {
			r.keySort[k] = cs.c.readSort[k]
			hs = append(hs, stripLocals(r.heapGet(st, k, cs.c.readSort[k]), localRefs, memoL))
			for _, w := range r.rlogs {
				w.all[k] = true
			}
		}
		l = append(l, r.oldHeap(fn, args, cs.c.reads, hs)...)
		var v Val
		for i, lf := range leaves(fn.Signature.Results()) {
			x := App(fmt.Sprintf("pure!%s!%d", cs.c.Name, i), lf.Sort, l...)
			v.L = append(v.L, x)
		}
		r.typeFactsTuple(fn.Signature.Results(), v)
		cs.res = Val{L: append([]*Term{}, v.L...)}
		cs.epoch = st.aE
		return st, v
	}
	r.newEpoch(st)
	pre := st.aE
	cs.epoch = pre
	r.newEpoch(st)
	var v Val
	res := fn.Signature.Results()
	for i, lf := range leaves(res) {
		ep := 0
		if lf.IsRef {
			ep = st.aE
		}
		x := NewVar(fmt.Sprintf("res%d", i), lf.Sort, ep)
		cs.vars[x] = true
		v.L = append(v.L, x)
	}
	// garbage: no new object can be reached from the results or from what
	// was modified
	garbage := true
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if _, basic := t.Underlying().(*types.Basic); !basic && t.String() != "error" {
			garbage = false
		}
	}
	for k := range f.all {
		garbage = garbage && !refKeys[k]
	}
	for k, l := range f.refs {
		garbage = garbage && (len(l) == 0 || !refKeys[k])
	}
	for _, u := range us {
		s := f.sorts[u.key]
		r.keySort[u.key] = s
		cs.keys = append(cs.keys, u.key)
		base := r.heapGet(st, u.key, s)
		if f.all[u.key] {
			n := NewVar("h", s, 0)
			if refKeys[u.key] {
				n.epoch = st.aE
			}
			st.heap[u.key] = n
			r.logAll(u.key)
			continue
		}
		if f.fresh[u.key] && (!refKeys[u.key] || garbage) {
			// nothing is known yet about the cells of objects that did not
			// exist, so these are the contents of the new objects (of
			// references the epoch is known: not here, unless no new object
			// can be reached)
		} else if f.fresh[u.key] {
			n := NewVar("h", s, 0)
			if refKeys[u.key] {
				n.epoch = st.aE
			}
			frozen[n] = &frozenInfo{base: base, epoch: pre}
			base = n
			r.logw(u.key, r.alloc[pre])
		}
		if f.fresh[u.key] {
			// name the parts of a channel that is returned
			if res.Len() > 0 {
				if ch, ok := res.At(0).Type().Underlying().(*types.Chan); ok && strings.HasPrefix(u.key, chanRegion(ch.Elem())) {
					ep := 0
					if refKeys[u.key] {
						ep = st.aE
					}
					x := NewVar("c", s.Val, ep)
					cs.vars[x] = true
					base = Store(base, v.L[0], x)
				}
			}
		}
		if f.fresh[u.key] && cs.c.Opts["fields"] != "" {
			// and the fields of an object that is returned
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				if types.IsInterface(t) {
					if t = r.e.singleImpl(t); t == nil {
						continue
					}
				}
				pt, ok := t.Underlying().(*types.Pointer)
				if !ok || !strings.HasPrefix(u.key, regionOf(pt.Elem())+".") {
					continue
				}
				lo, _ := tupleRange(res, i)
				ep := 0
				if refKeys[u.key] {
					ep = st.aE
				}
				x := NewVar("c", s.Val, ep)
				cs.vars[x] = true
				if s.Val == SInt && strings.HasSuffix(u.key, "#len") {
					nonneg[x] = true
				}
				base = Store(base, v.L[lo], x)
			}
		}
		for i, x := range u.refs {
			g := u.guards[i]
			if g == False {
				continue
			}
			ep := 0
			if refKeys[u.key] {
				ep = st.aE
			}
			v := NewVar("c", s.Val, ep)
			if s.Val == SInt && strings.HasSuffix(u.key, "#len") {
				nonneg[v] = true
			}
			cs.vars[v] = true
			n := v
			if g != nil {
				n = Ite(g, v, Select(base, x))
			}
			base = Store(base, x, n)
			og := r.wguard
			if g != True {
				r.wguard = g
			} else {
				r.wguard = nil
			}
			r.logw(u.key, x)
			r.wguard = og
		}
		st.heap[u.key] = base
	}
	r.typeFactsTuple(res, v)
	cs.res = Val{L: append([]*Term{}, v.L...)}
	return st, v
}

func (r *Run) typeFactsTuple(t types.Type, v Val) { r.typeFacts(t, v) }

// inlineWrapper runs a contract wrapper in call mode
func (r *Run) inlineWrapper(st *State, w *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
	n := 0
	for _, f := range r.stack {
		if f == w {
			n++
		}
	}
	if n > 1 || n == 1 && w != r.c.Wrapper {
		r.e.unsup(pos, "recursive contract %s", w)
	}
	r.stack = append(r.stack, w)
	act := &Act{fn: w, spec: true, li: r.e.loops(w)}
	in := st.clone()
	in.env = map[ssa.Value]Val{}
	in.defers = nil
	for i, p := range w.Params {
		in.env[p] = args[i]
	}
	r.wrapDepth++
	pending := map[*ssa.BasicBlock][]edge{w.Blocks[0]: {{nil, in}}}
	r.region(act, nil, pending)
	r.wrapDepth--
	r.stack = r.stack[:len(r.stack)-1]
	var outs []*State
	for _, rs := range act.rets {
		if rs.st.pc == False {
			continue
		}
		rs.st.env = map[ssa.Value]Val{}
		rs.st.defers = nil
		outs = append(outs, rs.st)
	}
	out := r.mergeAll(outs, pos)
	if out == nil {
		n := st.clone()
		n.pc = False
		return n, Val{}
	}
	return out, Val{}
}

func (r *Run) builtin(act *Act, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) (*State, Val) {
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return st, one(StrLen(args[0].L[0]))
		case *types.Slice:
			if b.Name() == "cap" {
				break
			}
			return st, one(args[0].L[2])
		case *types.Chan:
			k := chanRegion(u.Elem())
			if b.Name() == "cap" {
				return st, one(r.get(st, k+"#cap", args[0].L[0], SInt))
			}
			h := r.get(st, k+"#head", args[0].L[0], SInt)
			tl := r.get(st, k+"#tail", args[0].L[0], SInt)
			return st, one(Sub(tl, h))
		case *types.Map:
			ks := leaves(u.Key())
			h := r.get(st, ts(u)+"#has", args[0].L[0], ArrSort(ks[0].Sort, SBool))
			t := App("mapcard!"+ks[0].Sort.String(), SInt, h)
			nonneg[t] = true
			return st, one(t)
		case *types.Array:
			return st, one(Int(u.Len()))
		}
	case "append":
		return st, r.appendSlice(st, c, args, pos)
	case "close":
		el := elemOf(c.Args[0].Type())
		k := chanRegion(el)
		ch := args[0].L[0]
		r.assert(st, "close of closed or nil channel", "", pos, And(Not(Eq(ch, Int(0))), Not(r.get(st, k+"#closed", ch, SBool))), "")
		r.put(st, k+"#closed", ch, True, SBool)
		return st, Val{}
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m, k := args[0].L[0], args[1].L[0]
		hs := ArrSort(k.sort, SBool)
		h := r.get(st, ts(mt)+"#has", m, hs)
		r.put(st, ts(mt)+"#has", m, Store(h, k, False), hs)
		return st, Val{}
	case "ssa:wrapnilchk":
		r.assert(st, "nil", "", pos, Not(Eq(args[0].L[0], Int(0))), "")
		return st, args[0]
	case "print", "println":
		return st, Val{}
	case "min", "max":
		if len(args) == 2 {
			c := Le(args[0].L[0], args[1].L[0])
			if b.Name() == "max" {
				c = Not(c)
			}
			return st, one(Ite(c, args[0].L[0], args[1].L[0]))
		}
	}
	r.e.unsup(pos, "builtin %s", b.Name())
	return nil, Val{}
}

func (r *Run) appendSlice(st *State, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	el := elemOf(c.Args[0].Type())
	a := args[0]
	b := args[1]
	ls := leaves(el)
	r.e.used["slices are not extended beyond their length (capacity is not modelled; append always copies)"] = true
	if isStr(c.Args[1].Type()) {
		r.e.unsup(pos, "append of a string to bytes")
	}
	if b.L[2] == Int(0) {
		return a
	}
	ref := r.fresh(st)
	n := b.L[2]
	bounded := n.op == OpInt && n.ival <= 64
	for _, lf := range ls {
		s := ArrSort(SInt, lf.Sort)
		key := sliceRegion(el) + lf.Path
		if lf.IsRef {
			refKeys[key] = true
		}
		src := r.get(st, key, a.L[0], s)
		app := r.get(st, key, b.L[0], s)
		var res *Term
		if bounded {
			res = src
			for k := int64(0); k < n.ival; k++ {
				res = Store(res, Add(a.L[1], a.L[2], Int(k)), Select(app, Add(b.L[1], Int(k))))
			}
		} else if a.L[2] == Int(0) && a.L[1] == b.L[1] {
			res = app
		} else {
			res = App("arrcat!"+s.String(), s, src, Add(a.L[1], a.L[2]), app, b.L[1], n)
		}
		r.put(st, key, ref, res, s)
	}
	return Val{L: []*Term{ref, a.L[1], Add(a.L[2], n)}}
}

func (r *Run) goStmt(act *Act, st *State, in *ssa.Go) *State {
	r.e.unsup(in.Pos(), "go statement outside of a modelled function")
	return nil
}
