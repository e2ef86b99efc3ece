package main

// Trusted models of functions and interfaces outside the module. Every model
// that is used in a run is recorded in e.used.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelRes struct {
	st *State
	v  Val
}

func (e *Engine) extTag(name string) *Term {
	k := "ext:" + name
	if id, ok := e.tagIDs[k]; ok {
		return Int(int64(id))
	}
	id := len(e.tagIDs) + 1
	e.tagIDs[k] = id
	e.tagTypes = append(e.tagTypes, nil)
	return Int(int64(id))
}

// bufTag is the tag of *bytes.Buffer
func (r *Run) bufTag() *Term { return r.ptrTag("bytes", "Buffer") }

func (r *Run) ptrTag(pkg, name string) *Term {
	for _, p := range r.e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return Int(int64(r.e.tagOf(types.NewPointer(o.Type()))))
			}
		}
	}
	for _, p := range r.e.pkgs {
		for _, im := range p.Types.Imports() {
			if im.Path() == pkg {
				if o := im.Scope().Lookup(name); o != nil {
					return Int(int64(r.e.tagOf(types.NewPointer(o.Type()))))
				}
			}
		}
	}
	return r.e.extTag(pkg + "." + name)
}

func (r *Run) model(s string) { r.e.used["model of "+s] = true }

// opaque text cell (bytes.Buffer, strings.Builder)
func (r *Run) bufAddr(st *State, v Val, key string, pos token.Pos) *Addr {
	if v.A != nil {
		return v.A
	}
	r.assert(st, "nil", "", pos, Not(Eq(v.L[0], Int(0))), "")
	return &Addr{Key: key, Ref: v.L[0]}
}

func (r *Run) bufGet(st *State, a *Addr) *Term {
	return Select(r.strCell(st, a), a.Ref)
}

func (r *Run) strCell(st *State, a *Addr) *Term {
	return r.heapGet(st, a.Key+a.Path, ArrSort(SInt, SStr))
}

func (r *Run) bufSet(st *State, a *Addr, s *Term) {
	k := a.Key + a.Path
	st.heap[k] = Store(r.heapGet(st, k, ArrSort(SInt, SStr)), a.Ref, s)
	r.logw(k, a.Ref)
}

// extErr is a new error from outside the module
func (r *Run) extErr(st *State, kind string) Val {
	return Val{L: []*Term{r.e.extTag(kind), r.fresh(st)}}
}

func nilErr() Val { return Val{L: []*Term{Int(0), Int(0)}} }

func tuple(vs ...Val) Val {
	var v Val
	for _, x := range vs {
		v.L = append(v.L, x.L...)
	}
	return v
}

const outKey = "io.Writer#out"

// writerText: everything written to w so far
func (r *Run) written(st *State, w Val) *Term {
	if w.L[0].op == OpApp || w.L[0].op != OpInt {
		return Ite(Eq(w.L[0], r.bufTag()), Select(r.heapGet(st, "bytes.Buffer", ArrSort(SInt, SStr)), w.L[1]), Select(r.heapGet(st, outKey, ArrSort(SInt, SStr)), w.L[1]))
	}
	if w.L[0] == r.bufTag() {
		return Select(r.heapGet(st, "bytes.Buffer", ArrSort(SInt, SStr)), w.L[1])
	}
	return Select(r.heapGet(st, outKey, ArrSort(SInt, SStr)), w.L[1])
}

// write appends text to a writer; it returns (n, err)
func (r *Run) write(st *State, w Val, s *Term, pos token.Pos) (*State, Val) {
	r.assert(st, "nil", "", pos, Not(Eq(w.L[0], Int(0))), "")
	tag := w.L[0]
	toBuf := func(st *State) (*State, Val) {
		a := &Addr{Key: "bytes.Buffer", Ref: w.L[1]}
		r.bufSet(st, a, Concat(r.bufGet(st, a), s))
		return st, tuple(one(StrLen(s)), nilErr())
	}
	toHash := func(st *State) (*State, Val) {
		a := &Addr{Key: outKey, Ref: w.L[1]}
		r.bufSet(st, a, Concat(r.bufGet(st, a), s))
		return st, tuple(one(StrLen(s)), nilErr())
	}
	toExt := func(st *State) (*State, Val) {
		r.e.used["an io.Writer returns an error unless it wrote everything; a failed write leaves unspecified output"] = true
		fail := NewVar("wfail", SBool, 0)
		a := &Addr{Key: outKey, Ref: w.L[1]}
		part := NewVar("wpart", SStr, 0)
		old := r.bufGet(st, a)
		r.bufSet(st, a, Ite(fail, part, Concat(old, s)))
		f := r.get(st, "ghost#extfail", Int(1), SBool)
		r.put(st, "ghost#extfail", Int(1), Or(f, fail), SBool)
		n := NewVar("n", SInt, 0)
		nonneg[n] = true
		e := r.fresh(st)
		return st, tuple(one(Ite(fail, n, StrLen(s))), Val{L: []*Term{Ite(fail, r.e.extTag("io error"), Int(0)), Ite(fail, e, Int(0))}})
	}
	if tag.op == OpInt {
		switch tag {
		case r.bufTag():
			return toBuf(st)
		case r.e.extTag("sha256"):
			return toHash(st)
		}
		return toExt(st)
	}
	a, b := st.clone(), st.clone()
	c := Eq(tag, r.bufTag())
	a.pc = And(st.pc, c)
	b.pc = And(st.pc, Not(c))
	res := types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int]), types.NewVar(0, nil, "", types.Universe.Lookup("error").Type()))
	g := r.wguard
	defer func() { r.wguard = g }()
	return r.branch2(st, a, b, pos, res, func(st *State) (*State, Val) {
		r.wguard = c
		return toBuf(st)
	}, func(st *State) (*State, Val) {
		r.wguard = Not(c)
		return toExt(st)
	})
}

func (r *Run) errText(tag, val *Term) *Term {
	return App("errtext", SStr, tag, val)
}

func (r *Run) modelIface(act *Act, st *State, it types.Type, m string, x Val, args []Val, pos token.Pos) *modelRes {
	switch ts(it) + "." + m {
	case "io.Writer.Write":
		r.model("io.Writer")
		ns, v := r.write(st, x, r.bytesStr(st, args[0]), pos)
		return &modelRes{ns, v}
	case "github.com/schemalex/schemalex.SchemaSource.WriteSchema":
		// what the contracts of the module's own sources say
		if x.L[0].op == OpInt {
			return nil
		}
		r.e.used["any SchemaSource: WriteSchema returns an error exactly if reading the source or writing to its destination failed; it writes to nothing else"] = true
		r.assert(st, "nil", "", pos, Not(Eq(x.L[0], Int(0))), "")
		fail := NewVar("srcfail", SBool, 0)
		r.extFails(st, fail)
		text := NewVar("source", SStr, 0)
		r.logGhost(st, "source", Val{L: []*Term{Int(int64(r.e.tagOf(types.Typ[types.String]))), box(SStr, text)}})
		e := r.fresh(st)
		ns, v := r.write(st, args[0], Ite(fail, NewVar("part", SStr, 0), text), pos)
		return &modelRes{ns, Val{L: []*Term{Ite(fail, r.e.extTag("source error"), v.L[1]), Ite(fail, e, v.L[2])}}}
	case "error.Error":
		if x.L[0].op == OpInt && x.L[0].ival > 0 && r.e.tagTypes[x.L[0].ival-1] != nil && inModuleType(r.e.tagTypes[x.L[0].ival-1]) {
			return nil
		}
		r.model("error.Error")
		r.assert(st, "nil", "", pos, Not(Eq(x.L[0], Int(0))), "")
		return &modelRes{st, one(r.errText(x.L[0], x.L[1]))}
	case "hash.Hash.Sum":
		r.model("crypto/sha256 (a function of the written bytes)")
		s := Select(r.heapGet(st, outKey, ArrSort(SInt, SStr)), x.L[1])
		ref := r.fresh(st)
		h := App("sha256", SStr, s)
		r.put(st, "[]! byte", ref, App("bytesof", ArrSort(SInt, SInt), h), ArrSort(SInt, SInt))
		r.assert(st, "unsupported", "Sum of a non-nil slice", pos, Eq(args[0].L[0], Int(0)), "")
		return &modelRes{st, Val{L: []*Term{ref, Int(0), StrLen(h)}}}
	case "github.com/deckarep/golang-set.Set.Add":
		r.model("golang-set")
		s := ArrSort(SStr, SBool)
		a := r.get(st, "set", x.L[1], s)
		k := unbox(SStr, args[0].L[1])
		r.put(st, "set", x.L[1], Store(a, k, True), s)
		return &modelRes{st, one(Not(Select(a, k)))}
	case "github.com/deckarep/golang-set.Set.Difference", "github.com/deckarep/golang-set.Set.Intersect":
		r.model("golang-set")
		s := ArrSort(SStr, SBool)
		a, b := r.get(st, "set", x.L[1], s), r.get(st, "set", args[0].L[1], s)
		f := "setdiff"
		if m == "Intersect" {
			f = "setinter"
		}
		ref := r.fresh(st)
		r.put(st, "set", ref, App(f, s, a, b), s)
		return &modelRes{st, Val{L: []*Term{r.e.extTag("mapset"), ref}}}
	case "github.com/deckarep/golang-set.Set.Cardinality":
		r.model("golang-set")
		a := r.get(st, "set", x.L[1], ArrSort(SStr, SBool))
		n := App("card", SInt, a)
		nonneg[n] = true
		return &modelRes{st, one(n)}
	case "github.com/deckarep/golang-set.Set.ToSlice":
		r.model("golang-set")
		a := r.get(st, "set", x.L[1], ArrSort(SStr, SBool))
		n := App("card", SInt, a)
		nonneg[n] = true
		ref := r.fresh(st)
		v := NewVar("enum", ArrSort(SInt, SInt), 0)
		st0 := r.e.tagOf(types.Typ[types.String])
		// every member once, in any order
		es, ix := NewVar("enums", ArrSort(SInt, SStr), 0), NewVar("enumi", ArrSort(SStr, SInt), 0)
		k, x := NewBound("k", SInt), NewBound("s", SStr)
		sk := Select(es, k)
		r.fact(Forall(k, Implies(And(Le(Int(0), k), Lt(k, n)), And(Eq(Select(v, k), App("boxS", SInt, sk)), Eq(App("unboxS", SStr, Select(v, k)), sk), Select(a, sk), Eq(Select(ix, sk), k)))))
		r.fact(Forall(x, Implies(Select(a, x), And(Le(Int(0), Select(ix, x)), Lt(Select(ix, x), n), Eq(Select(es, Select(ix, x)), x)))))
		r.put(st, "[]! interface{}#val", ref, v, ArrSort(SInt, SInt))
		r.put(st, "[]! interface{}#tag", ref, ConstArr(ArrSort(SInt, SInt), Int(int64(st0))), ArrSort(SInt, SInt))
		return &modelRes{st, Val{L: []*Term{ref, Int(0), n}}}
	}
	return nil
}

func inModuleType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && inModule(n.Obj().Pkg())
}

func (r *Run) extCall(act *Act, st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) (*State, Val) {
	name := fn.String()
	if strings.HasSuffix(name, ".init") {
		return st, Val{}
	}
	switch name {
	case "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		r.e.used["locks do nothing (no concurrent use of one object is considered)"] = true
		return st, Val{}
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		r.model("bytes.Buffer")
		a := r.bufAddr(st, args[0], "bytes.Buffer", pos)
		r.bufSet(st, a, Concat(r.bufGet(st, a), args[1].L[0]))
		return st, tuple(one(StrLen(args[1].L[0])), nilErr())
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		r.model("bytes.Buffer")
		a := r.bufAddr(st, args[0], "bytes.Buffer", pos)
		r.bufSet(st, a, Concat(r.bufGet(st, a), byteStr(args[1].L[0])))
		return st, nilErr()
	case "(*bytes.Buffer).WriteRune":
		r.model("bytes.Buffer")
		a := r.bufAddr(st, args[0], "bytes.Buffer", pos)
		t := App("runestr", SStr, args[1].L[0])
		if args[1].L[0].op == OpInt {
			t = Str(string(rune(args[1].L[0].ival)))
		}
		r.bufSet(st, a, Concat(r.bufGet(st, a), t))
		return st, tuple(one(StrLen(t)), nilErr())
	case "(*bytes.Buffer).Write":
		r.model("bytes.Buffer")
		a := r.bufAddr(st, args[0], "bytes.Buffer", pos)
		s := r.bytesStr(st, args[1])
		r.bufSet(st, a, Concat(r.bufGet(st, a), s))
		return st, tuple(one(StrLen(s)), nilErr())
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return st, one(r.bufGet(st, r.bufAddr(st, args[0], "bytes.Buffer", pos)))
	case "(*bytes.Buffer).Len":
		return st, one(StrLen(r.bufGet(st, r.bufAddr(st, args[0], "bytes.Buffer", pos))))
	case "(*bytes.Buffer).Bytes":
		s := r.bufGet(st, r.bufAddr(st, args[0], "bytes.Buffer", pos))
		ref := r.fresh(st)
		r.put(st, "[]! byte", ref, App("bytesof", ArrSort(SInt, SInt), s), ArrSort(SInt, SInt))
		return st, Val{L: []*Term{ref, Int(0), StrLen(s)}}
	case "sort.Strings":
		r.model("sort.Strings (an ascending permutation)")
		c := args[0]
		old := r.get(st, "[]! string", c.L[0], ArrSort(SInt, SStr))
		v, p, q := NewVar("sorted", ArrSort(SInt, SStr), 0), NewVar("perm", ArrSort(SInt, SInt), 0), NewVar("permi", ArrSort(SInt, SInt), 0)
		off, n := c.L[1], c.L[2]
		k, j := NewBound("k", SInt), NewBound("j", SInt)
		in := func(k *Term) *Term { return And(Le(Int(0), k), Lt(k, n)) }
		pk, qk := Select(p, k), Select(q, k)
		r.fact(Forall(k, Implies(in(k), And(Eq(Select(v, Add(off, k)), Select(old, Add(off, pk))), in(pk), in(qk), Eq(Select(q, pk), k), Eq(Select(p, qk), k)))))
		r.fact(Forall(k, Implies(Or(Lt(k, off), Le(Add(off, n), k)), Eq(Select(v, k), Select(old, k)))))
		r.fact(Forall(k, Forall(j, Implies(And(in(k), in(j), Lt(k, j)), Not(App("strlt", SBool, Select(v, Add(off, j)), Select(v, Add(off, k))))))))
		r.put(st, "[]! string", c.L[0], v, ArrSort(SInt, SStr))
		return st, Val{}
	case "(*bytes.Buffer).Reset":
		r.bufSet(st, r.bufAddr(st, args[0], "bytes.Buffer", pos), StrEmpty)
		return st, Val{}
	case "(*bytes.Buffer).Truncate":
		r.model("bytes.Buffer")
		a := r.bufAddr(st, args[0], "bytes.Buffer", pos)
		s := r.bufGet(st, a)
		n := args[1].L[0]
		r.assert(st, "bounds", "Truncate", pos, And(Le(Int(0), n), Le(n, StrLen(s))), "")
		r.bufSet(st, a, strPrefix(s, n))
		return st, Val{}
	case "(*bytes.Buffer).WriteTo":
		r.model("bytes.Buffer")
		a := r.bufAddr(st, args[0], "bytes.Buffer", pos)
		s := r.bufGet(st, a)
		r.bufSet(st, a, StrEmpty)
		// nothing is written if the buffer is empty; writing "" to a writer
		// model that may fail is a superset of that
		return r.write(st, args[1], s, pos)
	case "io.WriteString":
		r.model("io.Writer")
		return r.write(st, args[0], args[1].L[0], pos)
	case "fmt.Sprintf":
		t, ok := r.sprintf(st, args[0].L[0], args[1], pos)
		if !ok {
			t = NewVar("sprintf", SStr, 0)
			if args[0].L[0].op == OpStr || true {
				t = r.opaqueFormat(st, args[0].L[0], args[1])
			}
		}
		r.model("fmt formatting")
		return st, one(t)
	case "fmt.Fprintf":
		t, ok := r.sprintf(st, args[1].L[0], args[2], pos)
		if !ok {
			t = r.opaqueFormat(st, args[1].L[0], args[2])
		}
		r.model("fmt formatting")
		return r.write(st, args[0], t, pos)
	case "fmt.Fprint":
		r.model("fmt formatting")
		t := r.opaqueFormat(st, Str("<print>"), args[1])
		if args[1].L[2] == Int(1) {
			t, _ = r.fmtArg(st, 'v', args[1], 0, pos)
		}
		return r.write(st, args[0], t, pos)
	case "crypto/sha256.New":
		ref := r.fresh(st)
		r.put(st, outKey, ref, StrEmpty, SStr)
		return st, Val{L: []*Term{r.e.extTag("sha256"), ref}}
	case "strconv.Itoa":
		r.model("strconv")
		return st, one(Itoa(args[0].L[0]))
	case "strconv.FormatInt":
		r.model("strconv")
		return st, one(Itoa(args[0].L[0]))
	case "strconv.Quote":
		r.model("strconv")
		return st, one(App("quote", SStr, args[0].L[0]))
	case "strings.ToUpper", "strings.ToLower":
		r.model("strings.ToUpper/ToLower")
		return st, one(caseFn(strings.ToLower(name[len("strings.To"):]), args[0].L[0]))
	case "strings.Repeat":
		r.model("strings.Repeat")
		s, n := args[0].L[0], args[1].L[0]
		if n.op == OpInt && n.ival >= 0 && s.op == OpStr {
			return st, one(Str(strings.Repeat(s.name, int(n.ival))))
		}
		r.assert(st, "panic", "negative Repeat count", pos, Le(Int(0), n), "")
		return st, one(r.e.mkFold(n, NewBound("k", SInt), s))
	case "strings.Replace":
		r.model("strings.Replace")
		s, o, n, k := args[0].L[0], args[1].L[0], args[2].L[0], args[3].L[0]
		return st, one(replaceFn(s, o, n, k))
	case "strings.HasPrefix":
		r.model("strings.HasPrefix")
		return st, one(hasPrefix(args[0].L[0], args[1].L[0]))
	case "strings.HasSuffix":
		r.model("strings.HasPrefix")
		return st, one(hasSuffix(args[0].L[0], args[1].L[0]))
	case "strings.TrimPrefix":
		r.model("strings.HasPrefix")
		s, p := args[0].L[0], args[1].L[0]
		return st, one(Ite(hasPrefix(s, p), StrSub(s, StrLen(p), StrLen(s)), s))
	case "strings.TrimSuffix":
		r.model("strings.HasPrefix")
		s, p := args[0].L[0], args[1].L[0]
		return st, one(Ite(hasSuffix(s, p), StrSub(s, Int(0), Sub(StrLen(s), StrLen(p))), s))
	case "strings.ReplaceAll":
		r.model("strings.Replace")
		return st, one(replaceFn(args[0].L[0], args[1].L[0], args[2].L[0], Int(-1)))
	case "bytes.LastIndexByte":
		r.model("bytes.LastIndexByte")
		s := r.bytesStr(st, args[0])
		t := App("lastidx", SInt, s, args[1].L[0])
		r.fact(And(Le(Int(-1), t), Lt(t, StrLen(s))))
		return st, one(t)
	case "unicode/utf8.DecodeRune":
		r.model("utf8.DecodeRune")
		// a function of the bytes: ASCII characters stand for themselves; other
		// characters, and what is not UTF-8, are made of bytes that are not ASCII
		arr := r.get(st, "[]! byte", args[0].L[0], ArrSort(SInt, SInt))
		off, n := args[0].L[1], args[0].L[2]
		ru, w := App("utf8rune", SInt, arr, off, n), App("utf8width", SInt, arr, off, n)
		b0 := Select(arr, off)
		nonneg[b0], byteTerms[b0] = true, true
		r.fact(And(Le(Int(0), b0), Le(b0, Int(255))))
		multi := []*Term{Le(Int(128), ru), Le(Int(1), w), Le(w, n), Le(w, Int(4))}
		for j := int64(1); j < 4; j++ {
			multi = append(multi, Implies(Lt(Int(j), w), Le(Int(128), Select(arr, Add(off, Int(j))))))
		}
		r.fact(And(
			Implies(Eq(n, Int(0)), And(Eq(w, Int(0)), Eq(ru, Int(0xFFFD)))),
			Implies(And(Lt(Int(0), n), Lt(b0, Int(128))), And(Eq(w, Int(1)), Eq(ru, b0))),
			Implies(And(Lt(Int(0), n), Le(Int(128), b0)), And(multi...))))
		return st, Val{L: []*Term{ru, w}}
	case "github.com/pkg/errors.New":
		r.model("github.com/pkg/errors")
		return st, r.extErr(st, "pkg/errors")
	case "github.com/pkg/errors.Errorf":
		r.model("github.com/pkg/errors")
		return st, r.extErr(st, "pkg/errors")
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf":
		r.model("github.com/pkg/errors")
		isNil := Eq(args[0].L[0], Int(0))
		ref := r.fresh(st)
		r.put(st, "ext.cause#tag", ref, args[0].L[0], SInt)
		r.put(st, "ext.cause#val", ref, args[0].L[1], SInt)
		return st, Val{L: []*Term{Ite(isNil, Int(0), r.e.extTag("pkg/errors.wrap")), Ite(isNil, Int(0), ref)}}
	case "context.TODO", "context.Background":
		return st, Val{L: []*Term{r.e.extTag("context"), Int(1)}}
	case "context.WithCancel":
		r.e.used["contexts are not cancelled while a parse is running (select on ctx.Done() never fires)"] = true
		return st, tuple(Val{L: []*Term{r.e.extTag("context"), r.fresh(st)}}, one(Int(int64(r.e.closureID(&Closure{})))))
	case "github.com/deckarep/golang-set.NewSet":
		r.model("golang-set")
		r.assert(st, "unsupported", "NewSet with elements", pos, Eq(args[0].L[2], Int(0)), "")
		ref := r.fresh(st)
		r.put(st, "set", ref, ConstArr(ArrSort(SStr, SBool), False), ArrSort(SStr, SBool))
		return st, Val{L: []*Term{r.e.extTag("mapset"), ref}}
	case "reflect.DeepEqual":
		return st, one(r.deepEqualAny(st, args[0], args[1], pos))
	}
	if fn.Synthetic != "" || fn.Pkg == nil {
		// bound method or wrapper
		if len(fn.Blocks) > 0 {
			return r.inline(st, fn, args, bind, pos)
		}
	}
	if ns, v, ok := r.extModel(st, fn, name, args, pos); ok {
		return ns, v
	}
	r.e.unsup(pos, "external function %s", name)
	return nil, Val{}
}

func byteStr(b *Term) *Term {
	if b.op == OpInt {
		return Str(string([]byte{byte(b.ival)}))
	}
	return App("bytestr", SStr, b)
}

// strPrefix: the first n bytes, computed for concatenations
func strPrefix(s, n *Term) *Term {
	if n == Int(0) {
		return StrEmpty
	}
	ps := parts(s)
	var l []*Term
	rest := n
	for i := 0; i <= len(ps); i++ {
		if rest == Int(0) {
			return Concat(l...)
		}
		if i == len(ps) {
			break
		}
		// literal partially cut
		if ps[i].op == OpStr && rest.op == OpInt && rest.ival < int64(len(ps[i].name)) && rest.ival >= 0 {
			l = append(l, Str(ps[i].name[:rest.ival]))
			return Concat(l...)
		}
		// a fold that is cut within its last element
		if fd := theEngine.foldByName[ps[i].name]; fd != nil && ps[i].op == OpApp && i+1 == len(ps) {
			d := Sub(rest, StrLen(ps[i]))
			if d.op == OpInt && d.ival < 0 {
				m := ps[i].args[0]
				last := theEngine.foldBody(ps[i], Sub(m, Int(1)))
				lp := parts(last)
				if len(lp) > 0 {
					e := lp[len(lp)-1]
					if e.op == OpStr && int64(len(e.name)) >= -d.ival {
						a2 := append([]*Term{Sub(m, Int(1))}, ps[i].args[1:]...)
						l2 := append([]*Term{}, l...)
						l2 = append(l2, App(ps[i].name, SStr, a2...))
						l2 = append(l2, lp[:len(lp)-1]...)
						l2 = append(l2, Str(e.name[:int64(len(e.name))+d.ival]))
						return Ite(Le(Int(1), m), Concat(l2...), StrSub(s, Int(0), n))
					}
				}
			}
		}
		l = append(l, ps[i])
		rest = Sub(rest, StrLen(ps[i]))
	}
	return StrSub(s, Int(0), n)
}

func Itoa(t *Term) *Term {
	if t.op == OpInt {
		return Str(fmt.Sprint(t.ival))
	}
	// by cases, if that gives numbers
	var leaf func(t *Term, n int) *Term
	leaf = func(t *Term, n int) *Term {
		switch t.op {
		case OpInt:
			return Str(fmt.Sprint(t.ival))
		case OpIte:
			if n > 0 {
				if a, b := leaf(t.args[1], n-1), leaf(t.args[2], n-1); a != nil && b != nil {
					return Ite(t.args[0], a, b)
				}
			}
		case OpLin:
			for _, x := range t.args {
				if x.op == OpIte && n > 0 {
					a := leaf(Subst(t, map[*Term]*Term{x: x.args[1]}), n-1)
					b := leaf(Subst(t, map[*Term]*Term{x: x.args[2]}), n-1)
					if a != nil && b != nil {
						return Ite(x.args[0], a, b)
					}
				}
			}
		}
		return nil
	}
	if x := leaf(t, 12); x != nil {
		return x
	}
	return App("itoa", SStr, t)
}

func caseFn(w string, s *Term) *Term {
	switch s.op {
	case OpStr:
		if w == "upper" {
			return Str(strings.ToUpper(s.name))
		}
		return Str(strings.ToLower(s.name))
	case OpConcat:
		// letters are mapped one by one; only split at ASCII literals
	case OpIte:
		return Ite(s.args[0], caseFn(w, s.args[1]), caseFn(w, s.args[2]))
	}
	return App(w, SStr, s)
}

func replaceFn(s, o, n, k *Term) *Term {
	if s.op == OpStr && o.op == OpStr && n.op == OpStr && k.op == OpInt {
		return Str(strings.Replace(s.name, o.name, n.name, int(k.ival)))
	}
	return App("replace", SStr, s, o, n, k)
}

// opaqueFormat is an uninterpreted function of the arguments
func (r *Run) opaqueFormat(st *State, f *Term, sl Val) *Term {
	tags := r.get(st, "[]! interface{}#tag", sl.L[0], ArrSort(SInt, SInt))
	vals := r.get(st, "[]! interface{}#val", sl.L[0], ArrSort(SInt, SInt))
	return App("format", SStr, f, tags, vals, sl.L[1], sl.L[2])
}

func (r *Run) fmtArg(st *State, verb byte, sl Val, i int64, pos token.Pos) (*Term, bool) {
	tag := Select(r.get(st, "[]! interface{}#tag", sl.L[0], ArrSort(SInt, SInt)), Add(sl.L[1], Int(i)))
	val := Select(r.get(st, "[]! interface{}#val", sl.L[0], ArrSort(SInt, SInt)), Add(sl.L[1], Int(i)))
	if tag.op != OpInt {
		return nil, false
	}
	if tag == Int(0) || int(tag.ival) > len(r.e.tagTypes) {
		return nil, false
	}
	t := r.e.tagTypes[tag.ival-1]
	if t == nil {
		return nil, false
	}
	if isStr(t) && hasNoMethod(t, "String") && hasNoMethod(t, "Error") {
		s := unbox(SStr, val)
		switch verb {
		case 's', 'v':
			return s, true
		case 'q':
			if s.op == OpStr {
				return Str(fmt.Sprintf("%q", s.name)), true
			}
			return App("quote", SStr, s), true
		case 'x':
			return App("hex", SStr, s), true
		}
		return nil, false
	}
	if isBytes(t) {
		ref := r.load(st, &Addr{Key: "box " + ts(t), Ref: val}, t)
		s := r.bytesStr(st, ref)
		switch verb {
		case 's':
			return s, true
		case 'q':
			return App("quote", SStr, s), true
		case 'x':
			return App("hex", SStr, s), true
		}
		return nil, false
	}
	if isInt(t) && hasNoMethod(t, "String") {
		switch verb {
		case 'd', 'v':
			return Itoa(val), true
		}
		return App("fmtint!"+string(verb), SStr, val), true
	}
	// a String method of the module is called
	if inModuleType(t) && (verb == 's' || verb == 'v' || verb == 'q') && hasNoMethod(t, "Error") && hasNoMethod(t, "Format") && len(leaves(t)) == 1 {
		if fn := r.e.prog.LookupMethod(t, nil, "String"); fn != nil {
			_, v := r.callFn(nil, st, fn, []Val{one(unbox(leaves(t)[0].Sort, val))}, nil, pos)
			if verb == 'q' {
				return App("quote", SStr, v.L[0]), true
			}
			return v.L[0], true
		}
	}
	// values with a String method or other types: a function of the value
	return App(fmt.Sprintf("fmtval!%c!%s", verb, ts(t)), SStr, val), true
}

func hasNoMethod(t types.Type, m string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == m {
			return false
		}
	}
	return true
}

func (r *Run) sprintf(st *State, f *Term, sl Val, pos token.Pos) (*Term, bool) {
	if f.op != OpStr || sl.L[2].op != OpInt {
		return nil, false
	}
	s := f.name
	var l []*Term
	n := int64(0)
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			l = append(l, Str(s[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(s) {
			return nil, false
		}
		if s[i] == '%' {
			l = append(l, Str("%"))
			continue
		}
		if !strings.ContainsRune("svdqxc", rune(s[i])) {
			return nil, false
		}
		if n >= sl.L[2].ival {
			return nil, false
		}
		t, ok := r.fmtArg(st, s[i], sl, n, pos)
		if !ok {
			return nil, false
		}
		l = append(l, t)
		n++
	}
	if n != sl.L[2].ival {
		return nil, false
	}
	return Concat(l...), true
}

func (r *Run) rangeStart(st *State, in *ssa.Range) { r.e.unsup(in.Pos(), "range over map") }

// axioms instantiated for the applications that occur in a query
func axiomsFor(t *Term) []*Term {
	switch t.name {
	case "setdiff", "setinter":
		k := NewBound("s", SStr)
		sel := mk(OpSelect, SBool, "", 0, []*Term{t, k}, nil)
		b := Select(t.args[1], k)
		if t.name == "setdiff" {
			b = Not(b)
		}
		return []*Term{Forall(k, Eq(sel, And(Select(t.args[0], k), b)))}
	case "card":
		a, n := t.args[0], t
		k, x := NewBound("k", SInt), NewBound("s", SStr)
		// setat: the members in ascending order
		at := App("setat", SStr, a, k)
		pos := App("setpos", SInt, a, x)
		return []*Term{
			Forall(k, Implies(And(Le(Int(0), k), Lt(k, n)), And(Select(a, at), Eq(App("setpos", SInt, a, at), k)))),
			Forall(x, Implies(Select(a, x), And(Le(Int(0), pos), Lt(pos, n), Eq(App("setat", SStr, a, pos), x)))),
		}
	case "unboxS":
		// only strings are unboxed
	case "boxS":
		return []*Term{mkEq(App("unboxS", SStr, t), t.args[0])}
	case "bstr":
		return []*Term{Implies(Le(Int(0), t.args[2]), Eq(App("strlen", SInt, t), t.args[2]))}
	case "bytestr":
		return []*Term{Eq(App("strlen", SInt, t), Int(1))}
	case "strsub":
		s, a, b := t.args[0], t.args[1], t.args[2]
		return []*Term{Implies(And(Le(Int(0), a), Le(a, b), Le(b, StrLen(s))), Eq(App("strlen", SInt, t), Sub(b, a)))}
	}
	if setDefs[t.name] != nil {
		return setAxioms(t)
	}
	if lamDefs[t.name] != nil {
		k := NewBound("k", SInt)
		return []*Term{Forall(k, Eq(mk(OpSelect, t.sort.Val, "", 0, []*Term{t, k}, nil), lamBody(t, k)))}
	}
	if strings.HasPrefix(t.name, "eqlist!") {
		x, i, y, j, n := t.args[0], t.args[1], t.args[2], t.args[3], t.args[4]
		k := NewBound("k", SInt)
		return []*Term{Eq(t, Forall(k, Implies(And(Le(Zero, k), Lt(k, n)), Eq(Select(x, Add(i, k)), Select(y, Add(j, k))))))}
	}
	if strings.HasPrefix(t.name, "arrcat!") {
		// arrcat(src, at, app, off, n)
		src, at, app, off, n := t.args[0], t.args[1], t.args[2], t.args[3], t.args[4]
		k := NewBound("k", SInt)
		sel := mk(OpSelect, t.sort.Val, "", 0, []*Term{t, k}, nil)
		return []*Term{
			Forall(k, Implies(Lt(k, at), Eq(sel, Select(src, k)))),
			Forall(k, Implies(And(Le(at, k), Lt(k, Add(at, n))), Eq(sel, Select(app, Add(off, Sub(k, at)))))),
		}
	}
	return nil
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func hasPrefix(s, p *Term) *Term {
	if s.op == OpStr && p.op == OpStr {
		return Bool(strings.HasPrefix(s.name, p.name))
	}
	return And(Le(StrLen(p), StrLen(s)), Eq(StrSub(s, Int(0), StrLen(p)), p))
}

func hasSuffix(s, p *Term) *Term {
	if s.op == OpStr && p.op == OpStr {
		return Bool(strings.HasSuffix(s.name, p.name))
	}
	return And(Le(StrLen(p), StrLen(s)), Eq(StrSub(s, Sub(StrLen(s), StrLen(p)), StrLen(s)), p))
}
