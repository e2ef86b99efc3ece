package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of operating system, URL and database functions. What the outside
// world holds is an unknown function of what is asked for ("uf!..."); every
// operation may fail, which sets ghost#extfail.

const inKey = "io.Reader#in"

func ufS(name string, l ...*Term) *Term {
	var a []*Term
	for _, t := range l {
		a = append(a, box(t.sort, t))
	}
	return App("uf!"+name, SStr, a...)
}

func ufB(name string, l ...*Term) *Term {
	return Eq(ufS(name, l...), Str("true"))
}

func (r *Run) extFails(st *State, fail *Term) {
	f := r.get(st, "ghost#extfail", Int(1), SBool)
	r.put(st, "ghost#extfail", Int(1), Or(f, fail), SBool)
}

// mayFail gives a condition and the error that comes with it
func (r *Run) mayFail(st *State, what string) (*Term, Val) {
	fail := NewVar("fail", SBool, 0)
	r.extFails(st, fail)
	e := r.fresh(st)
	return fail, Val{L: []*Term{Ite(fail, r.e.extTag(what), Int(0)), Ite(fail, e, Int(0))}}
}

// content is what is left to read of a reader
func (r *Run) content(st *State, x Val) *Term {
	return Ite(Eq(x.L[0], r.bufTag()), r.get(st, "bytes.Buffer", x.L[1], SStr), r.get(st, inKey, x.L[1], SStr))
}

func (r *Run) extModel(st *State, fn *ssa.Function, name string, args []Val, pos token.Pos) (*State, Val, bool) {
	switch name {
	case "net/url.Parse":
		r.model("net/url")
		s := args[0].L[0]
		bad := ufB("url.bad", s)
		ref := r.fresh(st)
		k := "net/url.URL."
		r.put(st, k+"Scheme", ref, ufS("url.scheme", s), SStr)
		r.put(st, k+"Host", ref, ufS("url.host", s), SStr)
		r.put(st, k+"Path", ref, ufS("url.path", s), SStr)
		r.put(st, k+"RawQuery", ref, ufS("url.rawquery", s), SStr)
		e := r.fresh(st)
		return st, Val{L: []*Term{Ite(bad, Int(0), ref), Ite(bad, r.e.extTag("url error"), Int(0)), Ite(bad, e, Int(0))}}, true
	case "(*net/url.URL).Query":
		r.model("net/url")
		ref := r.fresh(st)
		r.put(st, "net/url.Values#raw", ref, r.get(st, "net/url.URL.RawQuery", args[0].L[0], SStr), SStr)
		return st, one(ref), true
	case "(net/url.Values).Get":
		r.model("net/url")
		return st, one(ufS("url.get", r.get(st, "net/url.Values#raw", args[0].L[0], SStr), args[1].L[0])), true
	case "io.Copy":
		r.model("io.Copy")
		dst, src := args[0], args[1]
		r.assert(st, "nil", "", pos, Not(Eq(src.L[0], Int(0))), "")
		fail := And(NewVar("rfail", SBool, 0), Not(Eq(src.L[0], r.bufTag())))
		r.extFails(st, fail)
		all := r.content(st, src)
		part := NewVar("rpart", SStr, 0)
		e := r.fresh(st)
		ns, v := r.write(st, dst, Ite(fail, part, all), pos)
		if src.L[0] == r.bufTag() {
			r.put(ns, "bytes.Buffer", src.L[1], NewVar("rest", SStr, 0), SStr)
		} else {
			isBuf := Eq(src.L[0], r.bufTag())
			rest := NewVar("rest", SStr, 0)
			r.put(ns, inKey, src.L[1], Ite(isBuf, r.get(ns, inKey, src.L[1], SStr), rest), SStr)
			if isBuf != False {
				r.put(ns, "bytes.Buffer", src.L[1], Ite(isBuf, rest, r.get(ns, "bytes.Buffer", src.L[1], SStr)), SStr)
			}
		}
		n := NewVar("n", SInt, 0)
		nonneg[n] = true
		return ns, Val{L: []*Term{n, Ite(fail, r.e.extTag("read error"), v.L[1]), Ite(fail, e, v.L[2])}}, true
	case "os.Open":
		r.model("os.Open")
		fail, err := r.mayFail(st, "open error")
		ref := r.fresh(st)
		r.put(st, inKey, ref, ufS("file", args[0].L[0]), SStr)
		return st, tuple(one(Ite(fail, Int(0), ref)), err), true
	case "io/ioutil.ReadFile", "os.ReadFile":
		r.model("ioutil.ReadFile")
		fail, err := r.mayFail(st, "read error")
		b := r.convert(st, one(ufS("file", args[0].L[0])), types.Typ[types.String], fn.Signature.Results().At(0).Type(), pos)
		for i, lf := range leaves(fn.Signature.Results().At(0).Type()) {
			b.L[i] = Ite(fail, zeroTerm(lf.Sort), b.L[i])
		}
		return st, tuple(b, err), true
	case "(*os.File).Close", "(*database/sql.DB).Close", "(*database/sql.Rows).Close":
		// only after reading
		r.assert(st, "nil", "", pos, Not(Eq(args[0].L[0], Int(0))), "")
		c := NewVar("closefail", SBool, 0)
		return st, Val{L: []*Term{Ite(c, r.e.extTag("close error"), Int(0)), Ite(c, r.fresh(st), Int(0))}}, true
	case "os/exec.Command":
		r.model("os/exec")
		ref := r.fresh(st)
		el := types.Typ[types.String]
		n := args[1].L[2]
		if n.op != OpInt {
			return nil, Val{}, false
		}
		l := []*Term{args[0].L[0]}
		for i := int64(0); i < n.ival; i++ {
			l = append(l, Select(r.get(st, sliceRegion(el), args[1].L[0], ArrSort(SInt, SStr)), Add(args[1].L[1], Int(i))))
		}
		t := derefT(fn.Signature.Results().At(0).Type())
		r.store(st, &Addr{Key: regionOf(t), Ref: ref}, t, zeroVal(t))
		r.put(st, "exec.Cmd#args", ref, ufS("cmdargs", l...), SStr)
		return st, one(ref), true
	case "(*os/exec.Cmd).Run":
		r.model("os/exec")
		c := args[0].L[0]
		r.assert(st, "nil", "", pos, Not(Eq(c, Int(0))), "")
		k := "os/exec.Cmd."
		fail, err := r.mayFail(st, "command error")
		out := ufS("cmdout", r.get(st, k+"Dir", c, SStr), r.get(st, "exec.Cmd#args", c, SStr))
		tag, val := r.get(st, k+"Stdout#tag", c, SInt), r.get(st, k+"Stdout#val", c, SInt)
		if tag != r.bufTag() {
			r.e.unsup(pos, "output of a command to something else than a buffer")
		}
		old := r.get(st, "bytes.Buffer", val, SStr)
		r.put(st, "bytes.Buffer", val, Concat(old, Ite(fail, NewVar("part", SStr, 0), out)), SStr)
		return st, err, true
	case "(*database/sql.DB).Query":
		r.model("database/sql")
		fail, err := r.mayFail(st, "query error")
		ref := r.fresh(st)
		r.put(st, "sql.Rows#q", ref, args[1].L[0], SStr)
		r.put(st, "sql.Rows#pos", ref, Int(0), SInt)
		r.put(st, "sql.Rows#err", ref, False, SBool)
		return st, tuple(one(Ite(fail, Int(0), ref)), err), true
	case "(*database/sql.Rows).Next":
		r.model("database/sql")
		x := args[0].L[0]
		r.assert(st, "nil", "", pos, Not(Eq(x, Int(0))), "")
		q := r.get(st, "sql.Rows#q", x, SStr)
		n := App("uf!rows", SInt, q)
		nonneg[n] = true
		p := r.get(st, "sql.Rows#pos", x, SInt)
		fail := NewVar("nextfail", SBool, 0)
		more := And(Lt(p, n), Not(fail))
		f := And(fail, Lt(p, n))
		r.extFails(st, f)
		r.put(st, "sql.Rows#err", x, f, SBool)
		r.put(st, "sql.Rows#pos", x, Ite(more, Add(p, Int(1)), p), SInt)
		return st, one(more), true
	case "(*database/sql.Rows).Err":
		r.model("database/sql")
		f := r.get(st, "sql.Rows#err", args[0].L[0], SBool)
		return st, Val{L: []*Term{Ite(f, r.e.extTag("rows error"), Int(0)), Ite(f, r.fresh(st), Int(0))}}, true
	case "(*database/sql.DB).QueryRow":
		r.model("database/sql")
		ref := r.fresh(st)
		r.put(st, "sql.Row#q", ref, args[1].L[0], SStr)
		return st, one(ref), true
	case "(*database/sql.Rows).Scan", "(*database/sql.Row).Scan":
		r.model("database/sql")
		x := args[0].L[0]
		fail, err := r.mayFail(st, "scan error")
		var key []*Term
		if name == "(*database/sql.Rows).Scan" {
			key = []*Term{r.get(st, "sql.Rows#q", x, SStr), r.get(st, "sql.Rows#pos", x, SInt)}
		} else {
			key = []*Term{r.get(st, "sql.Row#q", x, SStr), Int(0)}
		}
		n := args[1].L[2]
		if n.op != OpInt {
			return nil, Val{}, false
		}
		for i := int64(0); i < n.ival; i++ {
			at := Add(args[1].L[1], Int(i))
			tag := Select(r.get(st, "[]! interface{}#tag", args[1].L[0], ArrSort(SInt, SInt)), at)
			val := Select(r.get(st, "[]! interface{}#val", args[1].L[0], ArrSort(SInt, SInt)), at)
			if tag != Int(int64(r.e.tagOf(types.NewPointer(types.Typ[types.String])))) {
				r.e.unsup(pos, "Scan into something else than strings")
			}
			c := ufS("cell", append(append([]*Term{}, key...), Int(i))...)
			r.put(st, "string", val, Ite(fail, NewVar("cell", SStr, 0), c), SStr)
		}
		return st, err, true
	}
	return nil, Val{}, false
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
