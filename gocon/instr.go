package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(t *Term) Val { return Val{L: []*Term{t}} }

func (r *Run) instr(act *Act, st *State, in ssa.Instruction) *State {
	switch in := in.(type) {
	case *ssa.DebugRef:
		if v, ok := in.X.(ssa.Value); ok && !in.IsAddr {
			_ = v
		}
	case *ssa.Alloc:
		var ref *Term
		if in.Heap {
			ref = r.fresh(st)
		} else {
			// its address is only used to access it
			ref = NewVar("loc", SInt, 0)
			localRefs[ref] = true
			if act.locals == nil {
				act.locals = map[*Term]bool{}
			}
			act.locals[ref] = true
		}
		t := in.Type().Underlying().(*types.Pointer).Elem()
		a := &Addr{Key: regionOf(t), Ref: ref}
		r.store(st, a, t, zeroVal(t))
		st.env[in] = one(ref)
	case *ssa.BinOp:
		st.env[in] = one(r.binop(st, in.Op, r.val(st, in.X), r.val(st, in.Y), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.UnOp:
		st.env[in] = r.unop(st, in)
	case *ssa.Call:
		var args []Val
		for _, a := range in.Call.Args {
			args = append(args, r.val(st, a))
		}
		fv := r.val(st, in.Call.Value)
		ns, v := r.callCommon(act, st, &in.Call, args, fv, in.Pos(), in)
		if ns.pc != False || ns != st {
			if ns.env == nil {
				ns.env = st.env
			}
		}
		ns.env[in] = v
		return ns
	case *ssa.ChangeInterface:
		st.env[in] = r.convIface(st, r.val(st, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.ChangeType:
		st.env[in] = r.val(st, in.X)
	case *ssa.Convert:
		st.env[in] = r.convert(st, r.val(st, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.Defer:
		d := deferred{fn: in.Call, pos: in.Pos()}
		for _, a := range in.Call.Args {
			d.args = append(d.args, r.val(st, a))
		}
		d.fv = r.val(st, in.Call.Value)
		st.defers = append(append([]deferred{}, st.defers...), d)
	case *ssa.Extract:
		x := r.val(st, in.Tuple)
		tp := in.Tuple.Type().(*types.Tuple)
		a, b := tupleRange(tp, in.Index)
		st.env[in] = Val{L: x.L[a:b]}
	case *ssa.Field:
		x := r.val(st, in.X)
		a, b := fieldRange(in.X.Type().Underlying().(*types.Struct), in.Field)
		st.env[in] = Val{L: x.L[a:b]}
	case *ssa.FieldAddr:
		x := r.val(st, in.X)
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		ad := r.addrOf(st, x, pt, in.Pos())
		f := pt.Underlying().(*types.Struct).Field(in.Field)
		n := *ad
		n.Path += "." + f.Name()
		st.env[in] = Val{L: []*Term{n.Ref}, A: &n}
	case *ssa.IndexAddr:
		st.env[in] = r.indexAddr(st, in)
	case *ssa.Index:
		x := r.val(st, in.X)
		i := r.val(st, in.Index).L[0]
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			r.bounds(st, i, StrLen(x.L[0]), in.Pos())
			st.env[in] = one(StrAt(x.L[0], i))
			break
		}
		at := in.X.Type().Underlying().(*types.Array)
		r.bounds(st, i, Int(at.Len()), in.Pos())
		n := len(leaves(at.Elem()))
		v := Val{L: x.L[:n]}
		for k := int64(1); k < at.Len(); k++ {
			v, _ = r.mergeVal(Eq(i, Int(k)), Val{L: x.L[int(k)*n : int(k+1)*n]}, v, in.Pos())
		}
		st.env[in] = v
	case *ssa.Lookup:
		st.env[in] = r.lookup(st, in)
	case *ssa.MakeChan:
		ref := r.fresh(st)
		n := r.val(st, in.Size).L[0]
		el := elemOf(in.Type())
		k := chanRegion(el)
		r.put(st, k+"#cap", ref, n, SInt)
		r.put(st, k+"#head", ref, Int(0), SInt)
		r.put(st, k+"#tail", ref, Int(0), SInt)
		r.put(st, k+"#closed", ref, False, SBool)
		r.assert(st, "makechan", "", in.Pos(), Le(Int(0), n), "")
		st.env[in] = one(ref)
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, r.val(st, b))
		}
		st.env[in] = one(Int(int64(r.e.closureID(c))))
	case *ssa.MakeInterface:
		st.env[in] = r.makeIface(st, r.val(st, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.MakeMap:
		ref := r.fresh(st)
		mt := in.Type().Underlying().(*types.Map)
		k := ts(mt)
		ks := leaves(mt.Key())
		if len(ks) != 1 {
			r.e.unsup(in.Pos(), "map key type %s", mt.Key())
		}
		r.put(st, k+"#has", ref, ConstArr(ArrSort(ks[0].Sort, SBool), False), ArrSort(ks[0].Sort, SBool))
		st.env[in] = one(ref)
	case *ssa.MakeSlice:
		ref := r.fresh(st)
		n := r.val(st, in.Len).L[0]
		r.assert(st, "makeslice", "", in.Pos(), Le(Int(0), n), "")
		el := elemOf(in.Type())
		if n != Int(0) && r.e.nonNilElem(el) {
			r.e.unsup(in.Pos(), "list of nil")
		}
		for _, lf := range leaves(el) {
			r.put(st, sliceRegion(el)+lf.Path, ref, ConstArr(ArrSort(SInt, lf.Sort), zeroTerm(lf.Sort)), ArrSort(SInt, lf.Sort))
		}
		st.env[in] = Val{L: []*Term{ref, Int(0), n}}
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m := r.val(st, in.Map).L[0]
		r.assert(st, "nil map", "", in.Pos(), Not(Eq(m, Int(0))), "")
		r.mapSet(st, mt, m, r.val(st, in.Key).L[0], r.val(st, in.Value))
	case *ssa.Next:
		r.e.unsup(in.Pos(), "range over map or string outside of a supported loop")
	case *ssa.Range:
		r.rangeStart(st, in)
	case *ssa.Select:
		st.env[in] = r.selectStmt(st, in)
	case *ssa.Send:
		r.send(st, r.val(st, in.Chan).L[0], elemOf(in.Chan.Type()), r.val(st, in.X), in.Pos())
	case *ssa.Slice:
		st.env[in] = r.slice(st, in)
	case *ssa.Store:
		t := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		a := r.addrOf(st, r.val(st, in.Addr), t, in.Pos())
		v := r.val(st, in.Val)
		if v.A != nil {
			if !isLocalCell(in.Addr) {
				r.e.unsup(in.Pos(), "interior pointer stored")
			}
			r.e.unsup(in.Pos(), "interior pointer stored")
		}
		r.storeAddr(st, a, t, v, in.Pos())
	case *ssa.TypeAssert:
		st.env[in] = r.typeAssert(st, in)
	case *ssa.Go:
		return r.goStmt(act, st, in)
	default:
		r.e.unsup(in.Pos(), "instruction %T", in)
	}
	return st
}

func isLocalCell(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func (r *Run) get(st *State, key string, ref *Term, s *Sort) *Term {
	if _, ok := r.init[key]; !ok {
		r.initHeap(key, ArrSort(SInt, s))
		if refKeys[key] {
			r.init[key].epoch = 1
		}
	}
	r.logr(key, ref)
	return Select(r.heapGet(st, key, ArrSort(SInt, s)), ref)
}

func (r *Run) put(st *State, key string, ref, v *Term, s *Sort) {
	if _, ok := r.init[key]; !ok {
		r.initHeap(key, ArrSort(SInt, s))
		if refKeys[key] {
			r.init[key].epoch = 1
		}
	}
	st.heap[key] = Store(r.heapGet(st, key, ArrSort(SInt, s)), ref, v)
	r.logw(key, ref)
}

func (r *Run) bounds(st *State, i, n *Term, pos token.Pos) {
	r.assert(st, "bounds", "", pos, And(Le(Int(0), i), Lt(i, n)), "")
}

func (r *Run) indexAddr(st *State, in *ssa.IndexAddr) Val {
	x := r.val(st, in.X)
	i := r.val(st, in.Index).L[0]
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		r.bounds(st, i, x.L[2], in.Pos())
		a := &Addr{Key: sliceRegion(u.Elem()), Ref: x.L[0], Idx: Add(x.L[1], i)}
		return Val{L: []*Term{x.L[0]}, A: a}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := *r.addrOf(st, x, u.Elem(), in.Pos())
		r.bounds(st, i, Int(at.Len()), in.Pos())
		if i.op == OpInt {
			a.Path += fmt.Sprintf("[%d]", i.ival)
			return Val{L: []*Term{a.Ref}, A: &a}
		}
		// symbolic index into an array: a pseudo address
		a.Path += fmt.Sprintf("[*%d]", at.Len())
		a2 := a
		a2.Idx = i
		return Val{L: []*Term{a.Ref}, A: &a2}
	}
	r.e.unsup(in.Pos(), "index of %s", in.X.Type())
	return Val{}
}

// loadAddr handles symbolic array indices as well
func (r *Run) loadAddr(st *State, a *Addr, t types.Type, pos token.Pos) Val {
	if base, n, rest, ok := r.symArr(st, a); ok {
		var v Val
		for k := int64(0); k < n; k++ {
			b := *a
			b.Idx = nil
			b.Path = fmt.Sprintf("%s[%d]%s", base, k, rest)
			x := r.load(st, &b, t)
			if k == 0 {
				v = x
			} else {
				v, _ = r.mergeVal(Eq(a.Idx, Int(k)), x, v, pos)
			}
		}
		return v
	}
	return r.load(st, a, t)
}

func (r *Run) symArr(st *State, a *Addr) (string, int64, string, bool) {
	i := strings.Index(a.Path, "[*")
	if i < 0 {
		return "", 0, "", false
	}
	var n int64
	fmt.Sscanf(a.Path[i:], "[*%d]", &n)
	return a.Path[:i], n, a.Path[i+strings.IndexByte(a.Path[i:], ']')+1:], true
}

func (r *Run) storeAddr(st *State, a *Addr, t types.Type, v Val, pos token.Pos) {
	if base, n, rest, ok := r.symArr(st, a); ok {
		for k := int64(0); k < n; k++ {
			b := *a
			b.Idx = nil
			b.Path = fmt.Sprintf("%s[%d]%s", base, k, rest)
			x := r.load(st, &b, t)
			y, _ := r.mergeVal(Eq(a.Idx, Int(k)), v, x, pos)
			r.store(st, &b, t, y)
		}
		return
	}
	r.store(st, a, t, v)
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// mapConst applies f to the constant leaves of an ite tree
func mapIte(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op == OpIte {
			if x, ok := memo[t]; ok {
				return x
			}
			a, b := rec(t.args[1]), rec(t.args[2])
			if a == nil || b == nil {
				return nil
			}
			x := Ite(t.args[0], a, b)
			memo[t] = x
			return x
		}
		return f(t)
	}
	return rec(t)
}

func allConstLeaves(t *Term) bool {
	if t.op == OpIte {
		return allConstLeaves(t.args[1]) && allConstLeaves(t.args[2])
	}
	return t.op == OpInt
}

func (r *Run) binop(st *State, op token.Token, x, y Val, xt, rt types.Type, pos token.Pos) *Term {
	if op == token.EQL || op == token.NEQ {
		c := r.eqVals(st, xt, x, y)
		if op == token.NEQ {
			c = Not(c)
		}
		return c
	}
	a, b := x.L[0], y.L[0]
	if isStr(xt) {
		switch op {
		case token.ADD:
			return Concat(a, b)
		case token.LSS:
			return App("strlt", SBool, a, b)
		case token.GTR:
			return App("strlt", SBool, b, a)
		case token.LEQ:
			return Not(App("strlt", SBool, b, a))
		case token.GEQ:
			return Not(App("strlt", SBool, a, b))
		}
	}
	if !isInt(xt) {
		if op == token.LAND || op == token.AND {
			return And(a, b)
		}
		r.e.unsup(pos, "operator %s on %s", op, xt)
	}
	r.e.used["machine integers are treated as mathematical integers"] = true
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.QUO, token.REM, token.AND_NOT:
		f := func(p, q int64) (int64, bool) {
			switch op {
			case token.AND:
				return p & q, true
			case token.OR:
				return p | q, true
			case token.XOR:
				return p ^ q, true
			case token.AND_NOT:
				return p &^ q, true
			case token.SHL:
				return p << uint(q), q >= 0 && q < 62
			case token.SHR:
				return p >> uint(q), q >= 0 && q < 62
			case token.QUO:
				if q == 0 {
					return 0, false
				}
				return p / q, true
			case token.REM:
				if q == 0 {
					return 0, false
				}
				return p % q, true
			}
			return 0, false
		}
		fold := func(p, q *Term) *Term {
			if p.op == OpInt && q.op == OpInt {
				if v, ok := f(p.ival, q.ival); ok {
					return Int(v)
				}
			}
			return nil
		}
		if t := mapIte(a, func(p *Term) *Term { return mapIte(b, func(q *Term) *Term { return fold(p, q) }) }); t != nil {
			return t
		}
		if op == token.QUO || op == token.REM {
			r.assert(st, "division by zero", "", pos, Not(Eq(b, Int(0))), "")
		}
		return App("int"+op.String(), SInt, a, b)
	}
	r.e.unsup(pos, "operator %s", op)
	return nil
}

func (r *Run) eqVals(st *State, t types.Type, x, y Val) *Term {
	if x.A != nil || y.A != nil {
		// an interior pointer is only ever compared with nil
		if x.A != nil && y.A == nil && y.L[0] == Int(0) {
			return False
		}
		if y.A != nil && x.A == nil && x.L[0] == Int(0) {
			return False
		}
		if x.A != nil && y.A != nil && x.A.Key == y.A.Key && x.A.Path == y.A.Path {
			c := Eq(x.A.Ref, y.A.Ref)
			if x.A.Idx != nil && y.A.Idx != nil {
				c = And(c, Eq(x.A.Idx, y.A.Idx))
			}
			return c
		}
		panic(unsupported{"comparison of interior pointers", token.NoPos})
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		// comparison with nil
		if y.L[0] == Int(0) {
			return Eq(x.L[0], Int(0))
		}
		return Eq(y.L[0], Int(0))
	}
	if types.IsInterface(t) && len(x.L) == 2 {
		// a nil interface has no value part
		if y.L[0] == Int(0) || x.L[0] == Int(0) {
			return Eq(x.L[0], y.L[0])
		}
	}
	var cs []*Term
	for i := range x.L {
		cs = append(cs, Eq(x.L[i], y.L[i]))
	}
	return And(cs...)
}

func (r *Run) unop(st *State, in *ssa.UnOp) Val {
	x := r.val(st, in.X)
	switch in.Op {
	case token.NOT:
		return one(Not(x.L[0]))
	case token.SUB:
		return one(Neg(x.L[0]))
	case token.MUL:
		t := in.X.Type().Underlying().(*types.Pointer).Elem()
		a := r.addrOf(st, x, t, in.Pos())
		return r.loadAddr(st, a, t, in.Pos())
	case token.ARROW:
		return r.recv(st, x.L[0], elemOf(in.X.Type()), in.CommaOk, in.Pos())
	case token.XOR:
		return one(App("int^", SInt, x.L[0]))
	}
	r.e.unsup(in.Pos(), "operator %s", in.Op)
	return Val{}
}

// channels

func (r *Run) send(st *State, ch *Term, el types.Type, v Val, pos token.Pos) {
	k := chanRegion(el)
	head := r.get(st, k+"#head", ch, SInt)
	tail := r.get(st, k+"#tail", ch, SInt)
	cp := r.get(st, k+"#cap", ch, SInt)
	cl := r.get(st, k+"#closed", ch, SBool)
	r.assert(st, "send on closed channel", "", pos, Not(cl), "")
	r.assert(st, "send blocks forever", "", pos, Lt(Sub(tail, head), cp), "")
	if r.e.nonNilElem(el) {
		r.assert(st, "nil element", "", pos, Not(Eq(v.L[0], Int(0))), "")
	}
	for i, lf := range leaves(el) {
		s := ArrSort(SInt, lf.Sort)
		if lf.IsRef {
			refKeys[k+lf.Path] = true
		}
		c := r.get(st, k+lf.Path, ch, s)
		r.put(st, k+lf.Path, ch, Store(c, tail, v.L[i]), s)
	}
	r.put(st, k+"#tail", ch, Add(tail, Int(1)), SInt)
}

func (r *Run) recv(st *State, ch *Term, el types.Type, commaOk bool, pos token.Pos) Val {
	k := chanRegion(el)
	head := r.get(st, k+"#head", ch, SInt)
	tail := r.get(st, k+"#tail", ch, SInt)
	cl := r.get(st, k+"#closed", ch, SBool)
	ok := Lt(head, tail)
	r.assert(st, "receive blocks forever", "", pos, Or(ok, cl), "")
	var v Val
	for _, lf := range leaves(el) {
		s := ArrSort(SInt, lf.Sort)
		if lf.IsRef {
			refKeys[k+lf.Path] = true
		}
		c := Select(r.get(st, k+lf.Path, ch, s), head)
		v.L = append(v.L, Ite(ok, c, zeroTerm(lf.Sort)))
	}
	r.typeFacts(el, v)
	if r.noObl == 0 && r.quant == 0 && r.e.nonNilElem(el) {
		r.assume(st, Implies(ok, Not(Eq(v.L[0], Int(0)))))
	}
	r.put(st, k+"#head", ch, Ite(ok, Add(head, Int(1)), head), SInt)
	if commaOk {
		v.L = append(v.L, ok)
	}
	return v
}

func (r *Run) selectStmt(st *State, in *ssa.Select) Val {
	// a receive from Done() is never ready: cancellation is not considered.
	type cs struct {
		i int
		s *ssa.SelectState
	}
	var live []cs
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			if c, ok := s.Chan.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Done" {
				r.e.used["contexts are not cancelled while a parse is running (select on ctx.Done() never fires)"] = true
				continue
			}
		}
		live = append(live, cs{i, s})
	}
	var v Val
	tp := in.Type().(*types.Tuple)
	nl := len(leaves(tp))
	if len(live) == 0 {
		if in.Blocking {
			r.assert(st, "select blocks forever", "", in.Pos(), False, "")
		}
		v.L = append(v.L, Int(-1), False)
		for len(v.L) < nl {
			v.L = append(v.L, nil)
		}
	} else if len(live) == 1 && in.Blocking {
		s := live[0]
		ch := r.val(st, s.s.Chan).L[0]
		el := elemOf(s.s.Chan.Type())
		v.L = append(v.L, Int(int64(s.i)))
		if s.s.Dir == types.SendOnly {
			r.sendOut(st, ch, el, r.val(st, s.s.Send), in.Pos())
			v.L = append(v.L, False)
		} else {
			x := r.recv(st, ch, el, true, in.Pos())
			n := len(x.L) - 1
			v.L = append(v.L, x.L[n])
			// position of the received value: receives are numbered in order
			for i, q := range in.States {
				if q.Dir != types.RecvOnly {
					continue
				}
				if i == s.i {
					v.L = append(v.L, x.L[:n]...)
				} else {
					for range leaves(elemOf(q.Chan.Type())) {
						v.L = append(v.L, nil)
					}
				}
			}
		}
	} else {
		r.e.unsup(in.Pos(), "select with %d ready cases", len(live))
	}
	ls := leaves(tp)
	for i := range v.L {
		if v.L[i] == nil {
			v.L[i] = zeroTerm(ls[i].Sort)
		}
	}
	for len(v.L) < nl {
		v.L = append(v.L, zeroTerm(ls[len(v.L)].Sort))
	}
	return v
}

// sendOut: a send to a receiver that is assumed to be running (or gone,
// with the context cancelled), so that it does not block forever
func (r *Run) sendOut(st *State, ch *Term, el types.Type, v Val, pos token.Pos) {
	r.e.used["a send that is guarded by ctx.Done() does not block forever"] = true
	k := chanRegion(el)
	tail := r.get(st, k+"#tail", ch, SInt)
	cl := r.get(st, k+"#closed", ch, SBool)
	r.assert(st, "send on closed channel", "", pos, Not(cl), "")
	for i, lf := range leaves(el) {
		s := ArrSort(SInt, lf.Sort)
		if lf.IsRef {
			refKeys[k+lf.Path] = true
		}
		c := r.get(st, k+lf.Path, ch, s)
		r.put(st, k+lf.Path, ch, Store(c, tail, v.L[i]), s)
	}
	r.put(st, k+"#tail", ch, Add(tail, Int(1)), SInt)
}

// maps

func (r *Run) mapSet(st *State, mt *types.Map, m, k *Term, v Val) {
	key := ts(mt)
	hs := ArrSort(k.sort, SBool)
	h := r.get(st, key+"#has", m, hs)
	r.put(st, key+"#has", m, Store(h, k, True), hs)
	for i, lf := range leaves(mt.Elem()) {
		s := ArrSort(k.sort, lf.Sort)
		if lf.IsRef {
			refKeys[key+"#val"+lf.Path] = true
		}
		a := r.get(st, key+"#val"+lf.Path, m, s)
		r.put(st, key+"#val"+lf.Path, m, Store(a, k, v.L[i]), s)
	}
}

func (r *Run) lookup(st *State, in *ssa.Lookup) Val {
	x := r.val(st, in.X)
	k := r.val(st, in.Index).L[0]
	if isStr(in.X.Type()) {
		r.bounds(st, k, StrLen(x.L[0]), in.Pos())
		return one(StrAt(x.L[0], k))
	}
	mt := in.X.Type().Underlying().(*types.Map)
	// constant global map
	if u, ok := in.X.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			if gi := r.e.globInit[g]; gi != nil && gi.isMap && !gi.stored {
				return r.constMap(gi, mt, k, in.CommaOk)
			}
		}
	}
	m := x.L[0]
	key := ts(mt)
	has := And(Not(Eq(m, Int(0))), Select(r.get(st, key+"#has", m, ArrSort(k.sort, SBool)), k))
	var v Val
	for _, lf := range leaves(mt.Elem()) {
		if lf.IsRef {
			refKeys[key+"#val"+lf.Path] = true
		}
		a := Select(r.get(st, key+"#val"+lf.Path, m, ArrSort(k.sort, lf.Sort)), k)
		v.L = append(v.L, Ite(has, a, zeroTerm(lf.Sort)))
	}
	if in.CommaOk {
		v.L = append(v.L, has)
	}
	return v
}

func (r *Run) constMap(gi *globInit, mt *types.Map, k *Term, commaOk bool) Val {
	ls := leaves(mt.Elem())
	if len(ls) != 1 {
		r.e.unsup(token.NoPos, "constant map type")
	}
	v := zeroTerm(ls[0].Sort)
	has := False
	for i := range gi.keys {
		c := Eq(k, gi.keys[i].term())
		v = Ite(c, gi.vals[i].term(), v)
		has = Or(has, c)
	}
	// keep the big tables opaque: one function of the key
	if len(gi.keys) > 20 {
		n := fmt.Sprintf("table!%d", gi.id)
		val := App(n+"!val", ls[0].Sort, k)
		h := App(n+"!has", SBool, k)
		if k.op == OpStr {
			for i := range gi.keys {
				if gi.keys[i].s == k.name {
					val, h = gi.vals[i].term(), True
				}
			}
			if h != True {
				val, h = zeroTerm(ls[0].Sort), False
			}
		}
		v, has = Ite(h, val, zeroTerm(ls[0].Sort)), h
	}
	if commaOk {
		return Val{L: []*Term{v, has}}
	}
	return one(v)
}

// slices and strings

func StrAt(s, i *Term) *Term {
	if s.op == OpStr && i.op == OpInt && i.ival >= 0 && int(i.ival) < len(s.name) {
		return Int(int64(s.name[i.ival]))
	}
	t := App("strat", SInt, s, i)
	nonneg[t] = true
	byteTerms[t] = true
	return t
}

func StrSub(s, a, b *Term) *Term {
	if a == b {
		return StrEmpty
	}
	if a == Int(0) && b == StrLen(s) {
		return s
	}
	if s.op == OpStr && a.op == OpInt && b.op == OpInt && a.ival >= 0 && a.ival <= b.ival && int(b.ival) <= len(s.name) {
		return Str(s.name[a.ival:b.ival])
	}
	if s.op == OpApp && s.name == "bstr" {
		// substring of a converted byte slice
		return App("bstr", SStr, s.args[0], Add(s.args[1], a), Sub(b, a))
	}
	return App("strsub", SStr, s, a, b)
}

func (r *Run) slice(st *State, in *ssa.Slice) Val {
	x := r.val(st, in.X)
	lo := Int(0)
	if in.Low != nil {
		lo = r.val(st, in.Low).L[0]
	}
	var hi *Term
	if in.High != nil {
		hi = r.val(st, in.High).L[0]
	}
	if in.Max != nil {
		r.e.unsup(in.Pos(), "full slice expression")
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		if hi == nil {
			hi = StrLen(x.L[0])
		}
		r.assert(st, "bounds", "", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, StrLen(x.L[0]))), "")
		return one(StrSub(x.L[0], lo, hi))
	case *types.Slice:
		if hi == nil {
			hi = x.L[2]
		}
		r.e.used["slices are not extended beyond their length (capacity is not modelled; append always copies)"] = true
		r.assert(st, "bounds", "", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, x.L[2])), "")
		return Val{L: []*Term{x.L[0], Add(x.L[1], lo), Sub(hi, lo)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = Int(at.Len())
		}
		r.assert(st, "bounds", "", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len()))), "")
		// copy the array into a slice object; the array itself is only a
		// temporary of a composite literal or a variadic call
		if _, ok := in.X.(*ssa.Alloc); !ok {
			r.e.unsup(in.Pos(), "slice of an array variable")
		}
		a := r.addrOf(st, x, u.Elem(), in.Pos())
		ref := r.fresh(st)
		el := at.Elem()
		ls := leaves(el)
		arrs := make([]*Term, len(ls))
		for i, lf := range ls {
			arrs[i] = ConstArr(ArrSort(SInt, lf.Sort), zeroTerm(lf.Sort))
		}
		for k := int64(0); k < at.Len(); k++ {
			b := *a
			b.Path += fmt.Sprintf("[%d]", k)
			v := r.load(st, &b, el)
			if r.e.nonNilElem(el) {
				r.assert(st, "nil element", "", in.Pos(), Not(Eq(v.L[0], Int(0))), "")
			}
			for i := range ls {
				arrs[i] = Store(arrs[i], Int(k), v.L[i])
			}
		}
		for i, lf := range ls {
			if lf.IsRef {
				refKeys[sliceRegion(el)+lf.Path] = true
			}
			r.put(st, sliceRegion(el)+lf.Path, ref, arrs[i], ArrSort(SInt, lf.Sort))
		}
		return Val{L: []*Term{ref, lo, Sub(hi, lo)}}
	}
	r.e.unsup(in.Pos(), "slice of %s", in.X.Type())
	return Val{}
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (r *Run) bytesStr(st *State, v Val) *Term {
	s := ArrSort(SInt, SInt)
	a := r.get(st, "[]! byte", v.L[0], s)
	return BStr(a, v.L[1], v.L[2])
}

func BStr(a, off, n *Term) *Term {
	if n == Int(0) {
		return StrEmpty
	}
	if a.op == OpApp && a.name == "bytesof" {
		return StrSub(a.args[0], off, Add(off, n))
	}
	// constant bytes
	if n.op == OpInt && off.op == OpInt && n.ival < 64 {
		var b []byte
		ok := true
		for k := int64(0); k < n.ival; k++ {
			x := Select(a, Int(off.ival+k))
			if x.op != OpInt {
				ok = false
				break
			}
			b = append(b, byte(x.ival))
		}
		if ok {
			return Str(string(b))
		}
	}
	return App("bstr", SStr, a, off, n)
}

func (r *Run) convert(st *State, x Val, from, to types.Type, pos token.Pos) Val {
	switch {
	case isStr(to) && isStr(from):
		return x
	case isInt(to) && isInt(from):
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if x.L[0].op == OpInt {
			return x
		}
		if (tb.Kind() == types.Uint8) && fb.Kind() != types.Uint8 {
			return one(App("tobyte", SInt, x.L[0]))
		}
		return x
	case isBytes(from) && isStr(to):
		return one(r.bytesStr(st, x))
	case isStr(from) && isBytes(to):
		ref := r.fresh(st)
		s := ArrSort(SInt, SInt)
		r.put(st, "[]! byte", ref, App("bytesof", s, x.L[0]), s)
		return Val{L: []*Term{ref, Int(0), StrLen(x.L[0])}}
	case isInt(from) && isStr(to):
		if x.L[0].op == OpInt {
			return one(Str(string(rune(x.L[0].ival))))
		}
		return one(App("runestr", SStr, x.L[0]))
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return x
	}
	r.e.unsup(pos, "conversion %s to %s", from, to)
	return Val{}
}

// interfaces

func (r *Run) makeIface(st *State, x Val, from, to types.Type, pos token.Pos) Val {
	if types.IsInterface(from) {
		return r.convIface(st, x, from, to, pos)
	}
	if r.e.singleImpl(to) != nil {
		if x.A != nil {
			r.e.unsup(pos, "interior pointer in interface")
		}
		return x
	}
	if r.modPtr(from) && types.IsInterface(to) && to.Underlying().(*types.Interface).NumMethods() > 0 {
		r.assert(st, "nil pointer in interface", "", pos, Not(Eq(x.L[0], Int(0))), "")
	}
	tag := Int(int64(r.e.tagOf(from)))
	if x.A != nil {
		r.e.unsup(pos, "interior pointer in interface")
	}
	ls := leaves(from)
	if len(ls) == 1 {
		return Val{L: []*Term{tag, box(ls[0].Sort, x.L[0])}}
	}
	// struct or slice: an immutable copy
	ref := r.fresh(st)
	a := &Addr{Key: "box " + ts(from), Ref: ref}
	r.store(st, a, from, x)
	return Val{L: []*Term{tag, ref}}
}

func box(s *Sort, t *Term) *Term {
	switch s {
	case SInt:
		return t
	case SBool:
		return Ite(t, Int(1), Int(0))
	case SStr:
		if t.op == OpApp && t.name == "unboxS" {
			return t.args[0]
		}
		return App("boxS", SInt, t)
	}
	panic(unsupported{"boxing of arrays", token.NoPos})
}

func unbox(s *Sort, t *Term) *Term {
	switch s {
	case SInt:
		return t
	case SBool:
		return Eq(t, Int(1))
	case SStr:
		if t.op == OpApp && t.name == "boxS" {
			return t.args[0]
		}
		if t.op == OpIte {
			return Ite(t.args[0], unbox(s, t.args[1]), unbox(s, t.args[2]))
		}
		return App("unboxS", SStr, t)
	}
	panic(unsupported{"unboxing of arrays", token.NoPos})
}

func (r *Run) convIface(st *State, x Val, from, to types.Type, pos token.Pos) Val {
	fs, tsg := r.e.singleImpl(from), r.e.singleImpl(to)
	switch {
	case fs != nil && tsg != nil:
		return x
	case fs != nil:
		n := Eq(x.L[0], Int(0))
		return Val{L: []*Term{Ite(n, Int(0), Int(int64(r.e.tagOf(fs)))), x.L[0]}}
	case tsg != nil:
		return Val{L: []*Term{x.L[1]}}
	}
	if it, ok := from.Underlying().(*types.Interface); ok && it.NumMethods() > 0 && len(x.L) == 2 {
		// the dynamic type has the methods of the static type
		r.tagHas(x.L[0], it, 6)
	}
	return x
}

// tagsOf lists the known dynamic types behind an interface value
func (r *Run) hasTag(x Val, iface types.Type, t types.Type) *Term {
	if s := r.e.singleImpl(iface); s != nil {
		if types.Identical(s, t) {
			return Not(Eq(x.L[0], Int(0)))
		}
		return False
	}
	return Eq(x.L[0], Int(int64(r.e.tagOf(t))))
}

func (r *Run) unpack(st *State, x Val, iface types.Type, t types.Type) Val {
	if r.e.singleImpl(iface) != nil {
		return x
	}
	ls := leaves(t)
	if len(ls) == 1 {
		v := unbox(ls[0].Sort, x.L[1])
		if r.modPtr(t) && types.IsInterface(iface) && r.noObl == 0 && r.quant == 0 && iface.Underlying().(*types.Interface).NumMethods() > 0 {
			r.e.used["interface values of the module's types hold no nil pointers"] = true
			r.assume(st, Implies(Eq(x.L[0], Int(int64(r.e.tagOf(t)))), Not(Eq(v, Int(0)))))
		}
		return one(v)
	}
	return r.load(st, &Addr{Key: "box " + ts(t), Ref: x.L[1]}, t)
}

// modPtr: a pointer to a named type of the module
func (r *Run) modPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (r *Run) typeAssert(st *State, in *ssa.TypeAssert) Val {
	x := r.val(st, in.X)
	it := in.X.Type()
	to := in.AssertedType
	var ok *Term
	var v Val
	if types.IsInterface(to) {
		if it2 := to.Underlying().(*types.Interface); it2.NumMethods() == 0 {
			v = r.convIface(st, x, it, to, in.Pos())
			if r.e.singleImpl(it) != nil {
				ok = Not(Eq(x.L[0], Int(0)))
			} else {
				ok = Not(Eq(x.L[0], Int(0)))
			}
		} else {
			if s := r.e.singleImpl(it); s != nil {
				if types.Implements(s, to.Underlying().(*types.Interface)) {
					ok = Not(Eq(x.L[0], Int(0)))
				} else {
					ok = False
				}
				v = r.convIface(st, x, it, to, in.Pos())
			} else {
				var cs []*Term
				for _, t := range r.e.implsOf(to) {
					if types.Implements(t, it.Underlying().(*types.Interface)) {
						c := Eq(x.L[0], Int(int64(r.e.tagOf(t))))
						cs = append(cs, c)
						if p, is := t.(*types.Pointer); is && len(x.L) == 2 && x.L[0].op != OpInt {
							// no interface holds a nil pointer of a model type
							if n, is := p.Elem().(*types.Named); is && !n.Obj().Exported() && !c.bound {
								r.e.used["interface values of the module's types hold no nil pointers"] = true
								r.fact(Implies(c, Not(Eq(x.L[1], Int(0)))))
							}
						}
					}
				}
				ok = Or(cs...)
				if !r.e.closedIface(to) {
					if x.L[0].op != OpInt {
						ok = Or(ok, App("implements!"+ts(to), SBool, x.L[0]))
						if t := r.extTags(to); t != nil {
							ok = Or(ok, t(x.L[0]))
						}
					} else if f := r.extTags(to); f != nil {
						ok = Or(ok, f(x.L[0]))
					}
					nonImpl[ts(to)] = true
				}
				v = r.convIface(st, x, it, to, in.Pos())
			}
		}
	} else {
		ok = r.hasTag(x, it, to)
		v = r.unpack(st, x, it, to)
	}
	if !in.CommaOk {
		r.assert(st, "type assertion", "", in.Pos(), ok, "")
		if types.IsInterface(to) && len(v.L) == 2 {
			v = Val{L: []*Term{Ite(ok, v.L[0], Int(0)), v.L[1]}}
		}
		return v
	}
	res := Val{}
	for i, lf := range leaves(to) {
		res.L = append(res.L, Ite(ok, v.L[i], zeroTerm(lf.Sort)))
	}
	res.L = append(res.L, ok)
	return res
}

var nonImpl = map[string]bool{}

// extTags: external error types known not to implement an interface
func (r *Run) extTags(to types.Type) func(*Term) *Term { return nil }

var _ = constant.MakeBool

// tagIface: the tags of interface values, with an interface that they implement
var tagIface = map[*Term]*types.Interface{}

func (r *Run) tagHas(t *Term, it *types.Interface, depth int) {
	switch {
	case t.op == OpInt || depth == 0:
	case t.op == OpIte:
		r.tagHas(t.args[1], it, depth-1)
		r.tagHas(t.args[2], it, depth-1)
	case tagIface[t] == nil:
		tagIface[t] = it
		tagExcluded = r.e.tagExcluded
	}
}

// tagExcluded: the type cannot be the dynamic type of the interface value
func (e *Engine) tagExcluded(t *Term, tag int64) bool {
	it := tagIface[t]
	if it == nil || tag <= 0 || int(tag) > len(e.tagTypes) {
		return false
	}
	c := e.tagTypes[tag-1]
	return c != nil && !types.Implements(c, it)
}
