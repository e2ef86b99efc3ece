package main

// Symbolic execution of SSA with state merging.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   ssa.CallCommon
	args []Val
	fv   Val
	pos  token.Pos
}

type State struct {
	pc     *Term
	heap   map[string]*Term
	aE     int
	aK     int64
	env    map[ssa.Value]Val
	defers []deferred
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, aE: s.aE, aK: s.aK, defers: s.defers}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.env = make(map[ssa.Value]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type Obl struct {
	Name  string
	Kind  string
	Pos   token.Pos
	Cond  *Term // must hold under PC and facts
	PC    *Term
	NFact int
	Inv   string // candidate invariant id
	Label string
	Done  string // solver
	Model string
}

type wrec struct {
	key string
	ref *Term
}

type WLog struct {
	m   map[wrec]bool
	all map[string]bool
	l   []wrec
	// condition under which it is written (nil: unknown)
	guard map[wrec]*Term
}

func newWLog() *WLog {
	return &WLog{m: map[wrec]bool{}, all: map[string]bool{}, guard: map[wrec]*Term{}}
}

// Run is one symbolic execution of a contract
type Run struct {
	newSets    []*Term
	e          *Engine
	c          *Contract
	facts      []*Term
	wguard     *Term // condition of the write being made
	obls       []Obl
	init       map[string]*Term // initial heap
	alloc      []*Term          // epoch -> variable
	wlogs      []*WLog
	rlogs      []*WLog // reads
	invs       []invCand
	depth      int
	target     bool // inside the target
	verify     bool
	nloop      map[string]int
	dry        int
	noObl      int
	dead       map[string]bool
	stack      []*ssa.Function
	keySort    map[string]*Sort
	inputs     []inputVar
	callees    map[*Contract]bool
	inlined    map[*ssa.Function]bool
	reached    map[string]bool
	labelN     map[string]int
	folding    int
	loopNo     int
	readLog    []map[string]bool
	final      *State
	ccalls     []*contractCall
	wrapDepth  int
	quant      int
	entryEpoch int
	notes      []string
	itVars     map[*Term]bool
	headHook   func(st *State, it *Term, vars []*lvar)
	backs      []*State // the states of the back edges of the last loop body
	specExtra  func(act *Act, st *State, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val, bool)
	axiomFor   func(t *Term) []*Term
}

type inputVar struct {
	Name string
	V    Val
	T    types.Type
}

type invCand struct {
	clos    *Closure
	pos     token.Pos
	variant bool
}

func (r *Run) newEpoch(st *State) {
	n := len(r.alloc)
	v := NewVar("alloc", SInt, 0)
	epochVars[v] = n
	v.epoch = -1
	if n > 1 {
		r.facts = append(r.facts, Le(Add(r.alloc[n-1], Int(1000000)), v))
	} else {
		r.facts = append(r.facts, Le(Int(1000000), v))
	}
	r.alloc = append(r.alloc, v)
	st.aE, st.aK = n, 0
}

func (r *Run) fresh(st *State) *Term {
	t := Add(r.alloc[st.aE], Int(st.aK))
	st.aK++
	return t
}

func (r *Run) assume(st *State, c *Term) {
	if n := len(r.ccalls); n > 0 {
		cs := r.ccalls[n-1]
		if cs.done && st.pc != cs.pc && os.Getenv("GOCON_DEF") != "" {
			fmt.Fprintf(os.Stderr, "NODEF %s\n", cs.c.Name)
			_, a, b := commonCond(st.pc, cs.pc)
			fmt.Fprintf(os.Stderr, "   %.700s\n   %.300s\n", a.str(8), b.str(8))
		}
		if cs.done && st.pc == cs.pc {
			for _, x := range clauses(cs, c) {
				x = Subst(x, cs.sub)
				if os.Getenv("GOCON_DEF") != "" {
					fmt.Fprintf(os.Stderr, "DEFINE %s\n", x.str(6))
				}
				if r.define(cs, x) {
					continue
				}
				r.addFact(Implies(st.pc, x))
			}
			return
		}
	}
	for _, x := range conj(c) {
		r.addFact(Implies(st.pc, x))
	}
}

// clauses: the conjuncts of c, with g or (a and b) taken apart
func clauses(cs *contractCall, c *Term) []*Term {
	var l []*Term
	for _, x := range conj(c) {
		if x.op == OpOr {
			k := -1
			for i, a := range x.args {
				if a.op == OpAnd && mentionsAny(a, cs.vars) {
					if k >= 0 {
						k = -2
						break
					}
					k = i
				}
			}
			if k >= 0 {
				for _, a := range x.args[k].args {
					args := append([]*Term{}, x.args...)
					args[k] = a
					l = append(l, clauses(cs, Or(args...))...)
				}
				continue
			}
		}
		// a text in one of two places
		if g, c, y := twoPlaces(cs, x); c != nil {
			for _, v := range []*Term{True, False} {
				lit := Not(c)
				if v == False {
					lit = c
				}
				z := Subst(y, map[*Term]*Term{c: v})
				l = append(l, clauses(cs, Or(g, lit, z))...)
			}
			continue
		}
		l = append(l, x)
	}
	return l
}

func twoPlaces(cs *contractCall, x *Term) (g, c, eq *Term) {
	args := []*Term{x}
	if x.op == OpOr {
		args = x.args
	}
	for i, a := range args {
		if a.op != OpEq || a.args[0].sort != SStr {
			continue
		}
		for _, y := range a.args {
			if y.op == OpIte && (cs.vars[y.args[1]] || cs.vars[y.args[2]]) {
				var rest []*Term
				for j, b := range args {
					if j != i {
						rest = append(rest, b)
					}
				}
				return Or(rest...), y.args[0], a
			}
		}
	}
	return nil, nil, nil
}

func (r *Run) addFact(f *Term) {
	if f == True {
		return
	}
	r.facts = append(r.facts, f)
}

func (r *Run) assume0(st *State, c *Term) {
	f := Implies(st.pc, c)
	if f == True {
		return
	}
	r.facts = append(r.facts, f)
}

func (r *Run) fact(c *Term) {
	if c != True {
		r.facts = append(r.facts, c)
	}
}

func (r *Run) assert(st *State, kind, label string, pos token.Pos, c *Term, inv string) {
	if r.noObl > 0 || r.dry > 0 || st.pc == False {
		return
	}
	g := Implies(st.pc, c)
	if g == True && kind != "ensures" && kind != "inv" {
		return
	}
	p := r.e.fset.Position(pos)
	fn := p.Filename
	fn = strings.TrimPrefix(fn, r.e.repo+"/")
	name := fmt.Sprintf("%s: %s", r.c.Name, kind)
	if label != "" {
		name += ": " + label
	}
	name += fmt.Sprintf(" [%s:%d]", fn, p.Line)
	r.obls = append(r.obls, Obl{Name: name, Kind: kind, Pos: pos, Cond: c, PC: st.pc, NFact: len(r.facts), Inv: inv, Label: label})
}

// heap access

func (r *Run) heapGet(st *State, key string, s *Sort) *Term {
	for _, m := range r.readLog {
		m[key] = true
	}
	r.keySort[key] = s
	if t, ok := st.heap[key]; ok {
		return t
	}
	return r.initHeap(key, s)
}

func (r *Run) initHeap(key string, s *Sort) *Term {
	if t, ok := r.init[key]; ok {
		return t
	}
	t := NewVarNamed("h0!"+key, s)
	r.init[key] = t
	return t
}

func (r *Run) leafSort(a *Addr, lf Leaf) *Sort {
	s := lf.Sort
	if a.Idx != nil {
		s = ArrSort(SInt, s)
	}
	return ArrSort(SInt, s)
}

func (r *Run) arr(st *State, a *Addr, lf Leaf) (string, *Term) {
	if strings.Contains(a.Path, "[*") {
		r.e.unsup(token.NoPos, "element of an array in a struct")
	}
	key := a.Key + a.Path + lf.Path
	s := r.leafSort(a, lf)
	if _, ok := r.init[key]; !ok {
		t := r.initHeap(key, s)
		if lf.IsRef {
			t.epoch = 1
		}
	}
	if lf.IsRef {
		refKeys[key] = true
	}
	return key, r.heapGet(st, key, s)
}

var refKeys = map[string]bool{}

func (r *Run) load(st *State, a *Addr, t types.Type) Val {
	var v Val
	if g := r.globalConst(a, t); g != nil {
		return *g
	}
	for _, lf := range leaves(t) {
		_, arr := r.arr(st, a, lf)
		x := Select(arr, a.Ref)
		if a.Idx != nil {
			x = Select(x, a.Idx)
		}
		v.L = append(v.L, x)
	}
	r.typeFacts(t, v)
	for i, lf := range leaves(t) {
		_ = i
		r.logr(a.Key+a.Path+lf.Path, a.Ref)
	}
	if a.Idx != nil && r.noObl == 0 && r.quant == 0 && strings.HasPrefix(a.Key, "[]! ") && r.e.nonNilElem(t) {
		r.assume(st, Not(Eq(v.L[0], Int(0))))
	}
	return v
}

func (r *Run) logr(key string, ref *Term) {
	for _, w := range r.rlogs {
		k := wrec{key, ref}
		if !w.m[k] {
			w.m[k] = true
			w.l = append(w.l, k)
		}
	}
}

// nonNilElem: lists and channels of the module's interface types never hold
// nil. Everything put into one is checked, what comes out is assumed.
func (e *Engine) nonNilElem(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || !types.IsInterface(t) || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	e.used["lists of "+ts(t)+" given to the module hold no nil"] = true
	return true
}

// typeFacts: facts that hold for every value of the type
func (r *Run) typeFacts(t types.Type, v Val) {
	for i, lf := range leaves(t) {
		x := v.L[i]
		switch {
		case strings.HasSuffix(lf.Path, "#len"):
			if x.op != OpInt {
				nonneg[x] = true
			}
		case strings.HasSuffix(lf.Path, "#off"):
			if x.op != OpInt {
				nonneg[x] = true
			}
		case lf.IsRef && lf.Sort == SInt:
			if x.op != OpInt {
				nonneg[x] = true
			}
		case lf.Sort == SInt:
			if b, ok := lf.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				if x.op != OpInt {
					nonneg[x] = true
				}
				if b.Kind() == types.Uint8 {
					byteTerms[x] = true
				}
			}
			if strings.HasSuffix(lf.Path, "#tag") && x.op != OpInt {
				nonneg[x] = true
			}
		}
	}
}

// nonzero: variables above 0
var nonzero = map[*Term]bool{}

var nonneg = map[*Term]bool{}
var byteTerms = map[*Term]bool{}

func (r *Run) store(st *State, a *Addr, t types.Type, v Val) {
	if a.Idx != nil && strings.HasPrefix(a.Key, "[]! ") && r.e.nonNilElem(t) {
		r.assert(st, "nil element", "", token.NoPos, Not(Eq(v.L[0], Int(0))), "")
	}
	for i, lf := range leaves(t) {
		key, arr := r.arr(st, a, lf)
		if a.Idx != nil {
			inner := Select(arr, a.Ref)
			st.heap[key] = Store(arr, a.Ref, Store(inner, a.Idx, v.L[i]))
		} else {
			st.heap[key] = Store(arr, a.Ref, v.L[i])
		}
		r.logw(key, a.Ref)
	}
}

func (r *Run) logw(key string, ref *Term) {
	for _, w := range r.wlogs {
		k := wrec{key, ref}
		if !w.m[k] {
			w.m[k] = true
			w.l = append(w.l, k)
			w.guard[k] = r.wguard
		} else if w.guard[k] != r.wguard {
			w.guard[k] = nil
		}
	}
}

func (r *Run) logAll(key string) {
	for _, w := range r.wlogs {
		w.all[key] = true
	}
}

// addrOf turns a pointer value into an address of an object of type t
func (r *Run) addrOf(st *State, v Val, t types.Type, pos token.Pos) *Addr {
	if v.A != nil {
		return v.A
	}
	r.assert(st, "nil", "", pos, Not(Eq(v.L[0], Int(0))), "")
	return &Addr{Key: regionOf(t), Ref: v.L[0]}
}

func (r *Run) globalConst(a *Addr, t types.Type) *Val {
	if !strings.HasPrefix(a.Key, "global ") {
		return nil
	}
	for g, id := range r.e.globals {
		if a.Ref != Int(int64(id)) {
			continue
		}
		gi := r.e.globInit[g]
		if gi == nil || gi.stored {
			debugf("global %s stored %v\n", g, gi)
			return nil
		}
		if gi.isMap {
			return nil
		}
		ls := leaves(t)
		var v Val
		for _, lf := range ls {
			c, ok := gi.fields[a.Path+lf.Path]
			if ok {
				v.L = append(v.L, c.term())
				continue
			}
			if gi.ok && hasOtherInit(gi, a.Path+lf.Path) {
				return nil
			}
			if !gi.allConst {
				return nil
			}
			v.L = append(v.L, zeroTerm(lf.Sort))
		}
		return &v
	}
	return nil
}

func hasOtherInit(gi *globInit, p string) bool { return false }

// merging

func commonCond(a, b *Term) (*Term, *Term, *Term) {
	ca, cb := conj(a), conj(b)
	in := map[*Term]bool{}
	for _, x := range ca {
		in[x] = true
	}
	var common, rb []*Term
	com := map[*Term]bool{}
	for _, x := range cb {
		if in[x] {
			common = append(common, x)
			com[x] = true
		} else {
			rb = append(rb, x)
		}
	}
	var ra []*Term
	for _, x := range ca {
		if !com[x] {
			ra = append(ra, x)
		}
	}
	return And(common...), And(ra...), And(rb...)
}

func (r *Run) mergeVal(c *Term, a, b Val, pos token.Pos) (Val, bool) {
	if a.A != nil || b.A != nil {
		if a.A == nil || b.A == nil || a.A.Key != b.A.Key || a.A.Path != b.A.Path || (a.A.Idx == nil) != (b.A.Idx == nil) {
			return Val{}, false
		}
		n := &Addr{Key: a.A.Key, Path: a.A.Path, Ref: Ite(c, a.A.Ref, b.A.Ref)}
		if a.A.Idx != nil {
			n.Idx = Ite(c, a.A.Idx, b.A.Idx)
		}
		return Val{A: n, L: []*Term{n.Ref}}, true
	}
	if len(a.L) != len(b.L) {
		return Val{}, false
	}
	same := true
	for i := range a.L {
		if a.L[i] != b.L[i] {
			same = false
			break
		}
	}
	if same {
		return a, true
	}
	v := Val{L: make([]*Term, len(a.L))}
	for i := range a.L {
		v.L[i] = Ite(c, a.L[i], b.L[i])
	}
	return v, true
}

// splits remembers how path conditions were split: the two conditions
// together give back the original one.
var splits = map[[2]*Term]pcSplit{}

type pcSplit struct{ pc, c *Term }

func noteSplit(pc, c, t, f *Term) {
	if t == False || f == False {
		return
	}
	if _, ok := splits[[2]*Term{t, f}]; ok || t == pc || f == pc {
		return
	}
	splits[[2]*Term{t, f}] = pcSplit{pc, c}
	splits[[2]*Term{f, t}] = pcSplit{pc, Not(c)}
	kin[t] = append(kin[t], kinship{pc, f, c})
	kin[f] = append(kin[f], kinship{pc, t, Not(c)})
}

// refine simplifies the values computed in a block by the condition at its end
func (r *Run) refine(st *State, b *ssa.BasicBlock, c *Term) {
	if c == True || c == False || st.pc == False {
		return
	}
	for _, in := range b.Instrs {
		v, ok := in.(ssa.Value)
		if !ok {
			continue
		}
		x, ok := st.env[v]
		if !ok || x.A != nil {
			continue
		}
		n := Val{L: make([]*Term, len(x.L)), A: x.A}
		same := true
		for i, t := range x.L {
			n.L[i] = t
			if t.op == OpIte {
				n.L[i] = underPC(c, t)
			}
			same = same && n.L[i] == t
		}
		if !same {
			st.env[v] = n
		}
	}
}

// kin: the conditions that make up another one together with this one
var kin = map[*Term][]kinship{}

type kinship struct{ pc, sib, c *Term }

// noteJoin: n is the join of a and b. If a and x make up p, and b and s make
// up x, then n and s make up p.
func noteJoin(n, a, b *Term) {
	for i := 0; i < 2; i++ {
		for _, ka := range kin[a] {
			for _, kb := range kin[b] {
				if kb.pc == ka.sib {
					noteSplit(ka.pc, Or(ka.c, kb.c), n, kb.sib)
				}
			}
		}
		a, b = b, a
	}
}

// mergeAll merges states, those that were split last first
func (r *Run) mergeAll(l []*State, pos token.Pos) *State {
	var w []*State
	for _, s := range l {
		if s != nil && s.pc != False {
			w = append(w, s)
		}
	}
	for {
		found := false
	pairs:
		for i := range w {
			for j := i + 1; j < len(w); j++ {
				if _, ok := splits[[2]*Term{w[i].pc, w[j].pc}]; ok {
					w[i] = r.merge(w[i], w[j], pos)
					w = append(w[:j], w[j+1:]...)
					found = true
					break pairs
				}
			}
		}
		if found {
			continue
		}
		if len(w) <= 1 {
			break
		}
		w[1] = r.merge(w[0], w[1], pos)
		w = w[1:]
	}
	if len(w) == 0 {
		return nil
	}
	return w[0]
}

// exclusive tells whether a and b cannot both hold
func exclusive(a, b *Term) bool {
	if refutes(a, b) || refutes(b, a) {
		return true
	}
	budget := 60
	return impossible(And(a, b), &budget)
}

// refutes: a conjunct of b is a disjunction, each part of which a denies
func refutes(a, b *Term) bool {
	in := map[*Term]bool{}
	for _, x := range conj(a) {
		in[x] = true
	}
	for _, y := range conj(b) {
		if in[Not(y)] {
			return true
		}
		if y.op != OpOr {
			continue
		}
		all := true
		for _, d := range y.args {
			for _, x := range conj(Not(d)) {
				all = all && in[x]
			}
		}
		if all {
			return true
		}
	}
	return false
}

// impossible tells that c cannot hold (by its form)
func impossible(c *Term, budget *int) bool {
	for i := 0; i < 8; i++ {
		if c == False {
			return true
		}
		l := conj(c)
		// what equals something else
		m := map[*Term]*Term{}
		for _, x := range l {
			if x.op != OpEq || len(m) > 0 {
				continue
			}
			p, q := x.args[0], x.args[1]
			switch {
			case p.sort == SInt:
				if d := solveEq(x, c); d != nil {
					m[d[0]] = d[1]
				}
			case q.op == OpStr && p.op != OpStr:
				m[p] = q
			case p.op == OpStr && q.op != OpStr:
				m[q] = p
			}
		}
		d := c
		if len(m) > 0 {
			d = Subst(d, m)
		}
		if d = unitPC(d); d == c {
			break
		}
		c = d
	}
	l := conj(c)
	for i, x := range l {
		for _, y := range l[:i] {
			if x == Not(y) {
				return true
			}
			if x.op == OpGe0 && y.op == OpGe0 {
				if s := Add(x.args[0], y.args[0]); s.op == OpInt && s.ival < 0 {
					return true
				}
			}
		}
	}
	for _, x := range l {
		var p, q *Term
		switch x.op {
		case OpOr:
			p, q = x.args[0], And(Not(x.args[0]), Or(x.args[1:]...))
		case OpIte:
			p, q = And(x.args[0], x.args[1]), And(Not(x.args[0]), x.args[2])
		default:
			continue
		}
		if *budget--; *budget < 0 {
			return false
		}
		var o []*Term
		for _, y := range l {
			if y != x {
				o = append(o, y)
			}
		}
		rest := And(o...)
		return impossible(And(rest, p), budget) && impossible(And(rest, q), budget)
	}
	return false
}

// solveEq gives a term and what it equals
func solveEq(x, c *Term) []*Term {
	p, q := x.args[0], x.args[1]
	if q.op == OpInt && p.op != OpLin && p.op != OpInt {
		return []*Term{p, q}
	}
	if p.op == OpInt && q.op != OpLin && q.op != OpInt {
		return []*Term{q, p}
	}
	d := Sub(p, q)
	var vars []*Term
	walk(d, func(t *Term) {
		if t.op == OpVar && t.sort == SInt && !t.bound {
			vars = append(vars, t)
		}
	})
	sort.Slice(vars, func(i, j int) bool { return vars[i].id > vars[j].id })
	for _, v := range vars {
		if y := Add(v, Neg(d)); !mentions(y, v) {
			return []*Term{v, y}
		}
		if y := Add(v, d); !mentions(y, v) {
			return []*Term{v, y}
		}
	}
	return nil
}

func (r *Run) merge(a, b *State, pos token.Pos) *State {
	if a == nil || a.pc == False {
		return b
	}
	if b == nil || b.pc == False {
		return a
	}
	n := &State{}
	var c *Term
	if sp, ok := splits[[2]*Term{a.pc, b.pc}]; ok {
		n.pc, c = sp.pc, sp.c
	} else {
		common, ra, rb := commonCond(a.pc, b.pc)
		c = ra
		// prefer the smaller condition
		if termSize(rb, 40) < termSize(ra, 40) {
			c = Not(rb)
		}
		if !exclusive(ra, rb) {
			// which of both it is has to be left open
			c = NewVar("way", SBool, 0)
			debugf("not exclusive: %.300s / %.300s\n", ra.str(6), rb.str(6))
			ra, rb = And(c, ra), And(Not(c), rb)
		}
		n.pc = And(common, Or(ra, rb))
		noteJoin(n.pc, a.pc, b.pc)
	}
	n.heap = make(map[string]*Term, len(a.heap))
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok := a.heap[k]
		if !ok {
			x = r.init[k]
		}
		y, ok := b.heap[k]
		if !ok {
			y = r.init[k]
		}
		if x == y {
			n.heap[k] = x
		} else {
			n.heap[k] = Ite(c, x, y)
		}
	}
	n.env = make(map[ssa.Value]Val, len(a.env))
	for k, x := range a.env {
		y, ok := b.env[k]
		if !ok {
			continue
		}
		if v, ok := r.mergeVal(c, x, y, pos); ok {
			n.env[k] = v
		}
	}
	if len(a.defers) != len(b.defers) {
		r.e.unsup(pos, "conditional defer")
	}
	n.defers = a.defers
	if a.aE == b.aE {
		n.aE, n.aK = a.aE, a.aK
		if b.aK > n.aK {
			n.aK = b.aK
		}
	} else {
		r.newEpoch(n)
	}
	return n
}

func termSize(t *Term, max int) int {
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > max {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return n
}

// control flow

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

type Act struct {
	locals map[*Term]bool // addresses of its local variables
	fn     *ssa.Function
	spec   bool
	rets   []retState
	bind   []Val
	li     *LoopInfo
}

type retState struct {
	st *State
	v  Val
}

const maxDepth = 40

// call executes the body of fn
func (r *Run) inline(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) (*State, Val) {
	if len(fn.Blocks) == 0 {
		r.e.unsup(pos, "no body and no contract: %s", fn)
	}
	for _, f := range r.stack {
		if f == fn {
			r.e.unsup(pos, "recursive call of %s", fn)
		}
	}
	r.stack = append(r.stack, fn)
	if !r.e.isSpecFn(fn) {
		r.inlined[fn] = true
	}
	act := &Act{fn: fn, spec: r.e.isSpecFn(fn), bind: bind, li: r.e.loops(fn)}
	saved := st.env
	sd := st.defers
	in := st.clone()
	in.env = map[ssa.Value]Val{}
	in.defers = nil
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		in.env[fv] = bind[i]
	}
	if act.spec {
		r.noObl++
	}
	pending := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{nil, in}}}
	r.region(act, nil, pending)
	if act.spec {
		r.noObl--
	}
	r.stack = r.stack[:len(r.stack)-1]
	var out *State
	var outs []*State
	var v Val
	for _, rs := range act.rets {
		if rs.st.pc == False {
			continue
		}
		rs.st.env = map[ssa.Value]Val{retKey: rs.v}
		rs.st.defers = nil
		outs = append(outs, rs.st)
	}
	out = r.mergeAll(outs, pos)
	if out == nil {
		// does not return
		st2 := st.clone()
		st2.pc = False
		return st2, zeroVal(fn.Signature.Results())
	}
	if rv, ok := out.env[retKey]; ok {
		v = rv
	} else {
		r.e.unsup(pos, "results of %s cannot be merged", fn)
	}
	out.env = saved
	out.defers = sd
	if act.locals != nil {
		memo := map[*Term]*Term{}
		for k, t := range out.heap {
			if x := stripLocals(t, act.locals, memo); x != t {
				out.heap[k] = x
			}
		}
	}
	return out, v
}

var retKey ssa.Value = &ssa.Parameter{}

// region executes the blocks whose innermost loop is l (nil: top level).
// pending holds the incoming edges; edges leaving the region stay in pending.
// Edges to the header of l are left in pending as well.
func (r *Run) region(act *Act, l *Loop, pending map[*ssa.BasicBlock][]edge) {
	for _, b := range act.li.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		bl := act.li.inner[b]
		if bl != l {
			// header of a direct child?
			if bl != nil && bl.header == b && bl.parent == l {
				es := pending[b]
				delete(pending, b)
				if len(es) > 0 {
					r.loop(act, bl, es, pending)
				}
			}
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		st := r.enter(act, b, es)
		if st == nil {
			continue
		}
		r.block(act, b, st, pending)
	}
}

// enter merges the incoming edges and evaluates the phis
func (r *Run) enter(act *Act, b *ssa.BasicBlock, es []edge) *State {
	var l []*State
	for _, ed := range es {
		if ed.st.pc == False {
			continue
		}
		r.phis(ed.st, b, ed.from)
		l = append(l, ed.st)
	}
	return r.mergeAll(l, b.Instrs[0].Pos())
}

func (r *Run) phis(st *State, b, from *ssa.BasicBlock) {
	if from == nil {
		return
	}
	k := -1
	for i, p := range b.Preds {
		if p == from {
			k = i
		}
	}
	type asg struct {
		p *ssa.Phi
		v Val
	}
	var l []asg
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		l = append(l, asg{p, r.val(st, p.Edges[k])})
	}
	for _, a := range l {
		st.env[a.p] = a.v
	}
}

func (r *Run) block(act *Act, b *ssa.BasicBlock, st *State, pending map[*ssa.BasicBlock][]edge) {
	for _, in := range b.Instrs {
		if st.pc == False {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := r.val(st, in.Cond).L[0]
			t, f := st.clone(), st
			pc := st.pc
			t.pc = And(pc, c)
			f.pc = And(pc, Not(c))
			noteSplit(pc, c, t.pc, f.pc)
			if t.pc == False {
				f.pc = pc
			} else if f.pc == False {
				t.pc = pc
			}
			r.refine(t, b, c)
			r.refine(f, b, Not(c))
			if t.pc != False {
				pending[b.Succs[0]] = append(pending[b.Succs[0]], edge{b, t})
			}
			if f.pc != False {
				pending[b.Succs[1]] = append(pending[b.Succs[1]], edge{b, f})
			}
			return
		case *ssa.Jump:
			pending[b.Succs[0]] = append(pending[b.Succs[0]], edge{b, st})
			return
		case *ssa.Return:
			var v Val
			for _, x := range in.Results {
				xv := r.val(st, x)
				if xv.A != nil && len(in.Results) > 1 {
					r.e.unsup(in.Pos(), "interior pointer returned")
				}
				v.L = append(v.L, xv.L...)
				if len(in.Results) == 1 {
					v.A = xv.A
				}
			}
			act.rets = append(act.rets, retState{st, v})
			return
		case *ssa.Panic:
			r.assert(st, "panic", "", in.Pos(), False, "")
			return
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			for i := len(ds) - 1; i >= 0; i-- {
				d := ds[i]
				st, _ = r.callCommon(act, st, &d.fn, d.args, d.fv, d.pos, nil)
			}
		default:
			st = r.instr(act, st, in)
		}
	}
}

// val evaluates an operand
func (r *Run) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroVal(v.Type())
		}
		if cv, ok := constOf(v); ok {
			t := cv.term()
			return Val{L: []*Term{t}}
		}
		// float or big constants
		return Val{L: []*Term{App("const!"+v.Value.ExactString(), SInt)}}
	case *ssa.Global:
		id, ok := r.e.globals[v]
		if !ok {
			// global of another package
			id = 5000 + len(r.e.globals)
			r.e.globals[v] = id
		}
		return Val{L: []*Term{Int(int64(id))}, A: &Addr{Key: "global " + v.String(), Ref: Int(int64(id))}}
	case *ssa.Function:
		return Val{L: []*Term{Int(int64(r.e.closureID(&Closure{fn: v})))}}
	case *ssa.Builtin:
		return Val{L: []*Term{Int(0)}}
	}
	x, ok := st.env[v]
	if !ok {
		r.e.unsup(v.Pos(), "value %s of %s is not available (merge of different kinds)", v.Name(), v.Parent())
	}
	return valUnder(st, x)
}

// valUnder drops alternatives that the path condition rules out
func valUnder(st *State, x Val) Val {
	for i, t := range x.L {
		if t.op != OpIte {
			continue
		}
		u := t
		for u.op == OpIte {
			if implied(st.pc, u.args[0]) {
				u = u.args[1]
			} else if implied(st.pc, Not(u.args[0])) {
				u = u.args[2]
			} else {
				break
			}
		}
		if u != t {
			x.L = append([]*Term{}, x.L...)
			x.L[i] = u
		}
	}
	return x
}

func implied(pc, c *Term) bool {
	for _, x := range conj(pc) {
		if x == c {
			return true
		}
	}
	return false
}

func (e *Engine) closureID(c *Closure) int {
	k := fmt.Sprintf("%p", c.fn)
	for _, b := range c.bind {
		for _, t := range b.L {
			k += fmt.Sprintf(",%d", t.id)
		}
		if b.A != nil {
			k += "@" + b.A.Key + b.A.Path
			if b.A.Idx != nil {
				k += fmt.Sprintf("/%d", b.A.Idx.id)
			}
		}
	}
	if id, ok := e.closeIdx[k]; ok {
		return id
	}
	e.closures = append(e.closures, c)
	id := len(e.closures) + 100000
	e.closeIdx[k] = id
	return id
}

func (e *Engine) closureOf(id int64) *Closure {
	i := int(id) - 100001
	if i < 0 || i >= len(e.closures) {
		return nil
	}
	return e.closures[i]
}
