package main

// Terms: hash-consed first-order terms with a light simplifier.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Sort struct {
	Name     string // Int, Bool, Str, Array
	Key, Val *Sort
}

var (
	SInt     = &Sort{Name: "Int"}
	SBool    = &Sort{Name: "Bool"}
	SStr     = &Sort{Name: "Str"}
	arrSorts = map[[2]*Sort]*Sort{}
)

func ArrSort(k, v *Sort) *Sort {
	key := [2]*Sort{k, v}
	if s, ok := arrSorts[key]; ok {
		return s
	}
	s := &Sort{Name: "Array", Key: k, Val: v}
	arrSorts[key] = s
	return s
}

func (s *Sort) String() string {
	if s.Name == "Array" {
		return "(Array " + s.Key.String() + " " + s.Val.String() + ")"
	}
	return s.Name
}

type Op int

const (
	OpInt Op = iota // ival
	OpBool
	OpStr // name
	OpVar // name
	OpApp // name, args
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpLin    // ival + sum coefs[i]*args[i]
	OpGe0    // args[0] >= 0
	OpMul    // non linear
	OpSelect // arr, idx
	OpStore  // arr, idx, val
	OpConst  // constant array (args[0])
	OpConcat
	OpForall // name: bound var args[0], body args[1]
)

type Term struct {
	op    Op
	sort  *Sort
	name  string
	ival  int64
	args  []*Term
	coefs []int64
	id    int
	// seq is the largest creation number of the variables in the term
	seq int
	// bound: contains a bound variable
	bound bool
	// mem: memoized "allocated before epoch" number, see epochOf
	epoch int
}

var (
	terms   = map[string]*Term{}
	termID  = 0
	varSeq  = 0
	funSigs = map[string]*FunSig{}
)

type FunSig struct {
	Name string
	Args []*Sort
	Ret  *Sort
}

func mk(op Op, sort_ *Sort, name string, ival int64, args []*Term, coefs []int64) *Term {
	var b strings.Builder
	b.Grow(16 + len(name) + 8*len(args))
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(ival, 10))
	for i, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if coefs != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(coefs[i], 10))
		}
	}
	if op == OpVar || op == OpConst {
		b.WriteByte(':')
		b.WriteString(sort_.String())
	}
	k := b.String()
	if t, ok := terms[k]; ok {
		return t
	}
	termID++
	t := &Term{op: op, sort: sort_, name: name, ival: ival, args: args, coefs: coefs, id: termID}
	for _, a := range args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
		if a.bound {
			t.bound = true
		}
	}
	if op == OpForall {
		// the bound variable is closed; bodies with other bound variables stay bound
		t.bound = hasOtherBound(args[1], args[0])
	}
	terms[k] = t
	return t
}

func hasOtherBound(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bound || seen[t] || t == v {
			return false
		}
		seen[t] = true
		if t.op == OpVar {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func Int(n int64) *Term { return mk(OpInt, SInt, "", n, nil, nil) }
func Bool(b bool) *Term {
	if b {
		return mk(OpBool, SBool, "", 1, nil, nil)
	}
	return mk(OpBool, SBool, "", 0, nil, nil)
}

var (
	True  = Bool(true)
	False = Bool(false)
	Zero  = Int(0)
	One   = Int(1)
)

func Str(s string) *Term { return mk(OpStr, SStr, s, 0, nil, nil) }

var StrEmpty = Str("")

// NewVar creates a fresh variable. epoch > 0 says that values (or, for an
// array, elements) are references allocated before that epoch.
func NewVar(prefix string, s *Sort, epoch int) *Term {
	varSeq++
	t := mk(OpVar, s, fmt.Sprintf("%s!%d", prefix, varSeq), 0, nil, nil)
	t.seq = varSeq
	t.epoch = epoch
	return t
}

func NewBound(prefix string, s *Sort) *Term {
	varSeq++
	t := mk(OpVar, s, fmt.Sprintf("%s!%d", prefix, varSeq), 0, nil, nil)
	t.seq = varSeq
	t.bound = true
	return t
}

func App(name string, ret *Sort, args ...*Term) *Term {
	sig, ok := funSigs[name]
	if !ok {
		sig = &FunSig{Name: name, Ret: ret}
		for _, a := range args {
			sig.Args = append(sig.Args, a.sort)
		}
		funSigs[name] = sig
	} else {
		if len(sig.Args) != len(args) {
			panic("UF arity mismatch " + name)
		}
		for i, a := range args {
			if sig.Args[i] != a.sort {
				panic(fmt.Sprintf("UF sort mismatch %s arg %d: %s vs %s", name, i, sig.Args[i], a.sort))
			}
		}
	}
	return mk(OpApp, ret, name, 0, args, nil)
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.op {
	case OpBool:
		return Bool(a.ival == 0)
	case OpNot:
		return a.args[0]
	case OpGe0:
		// not (t >= 0)  ==  -t-1 >= 0
		return Ge0(Add(Neg(a.args[0]), Int(-1)))
	}
	return mk(OpNot, SBool, "", 0, []*Term{a}, nil)
}

func And(as ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch {
		case a == True:
			return true
		case a == False:
			return false
		case a.op == OpAnd:
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		l = append(l, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(l) == 0 {
		return True
	}
	if len(l) == 1 {
		return l[0]
	}
	// equality with distinct constants: x=1 && x=2
	consts := map[*Term]*Term{}
	neq := false
	for _, a := range l {
		if a.op == OpEq {
			x, c := a.args[0], a.args[1]
			if isConst(x) {
				x, c = c, x
			}
			if isConst(c) {
				if o, ok := consts[x]; ok && o != c {
					return False
				}
				consts[x] = c
			}
		}
		if a.op == OpNot && a.args[0].op == OpEq {
			neq = true
		}
	}
	if neq && len(consts) > 0 {
		// x=1 && !(x=2): drop the second
		l2 := l[:0:0]
		for _, a := range l {
			if a.op == OpNot && a.args[0].op == OpEq {
				x, c := a.args[0].args[0], a.args[0].args[1]
				if isConst(x) {
					x, c = c, x
				}
				if o, ok := consts[x]; ok && isConst(c) && o != c {
					continue
				}
			}
			l2 = append(l2, a)
		}
		l = l2
		if len(l) == 1 {
			return l[0]
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return mk(OpAnd, SBool, "", 0, l, nil)
}

func isConst(t *Term) bool { return t.op == OpInt || t.op == OpStr || t.op == OpBool }

func conj(t *Term) []*Term {
	if t.op == OpAnd {
		return t.args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

// Or, with factoring of common conjuncts and absorption
func Or(as ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch {
		case a == False:
			return true
		case a == True:
			return false
		case a.op == OpOr:
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		l = append(l, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(l) == 0 {
		return False
	}
	if len(l) == 1 {
		return l[0]
	}
	// common conjuncts
	cnt := map[*Term]int{}
	for _, a := range l {
		for _, c := range conj(a) {
			cnt[c]++
		}
	}
	var common []*Term
	for _, c := range conj(l[0]) {
		if cnt[c] == len(l) {
			common = append(common, c)
		}
	}
	if len(common) > 0 {
		cs := map[*Term]bool{}
		for _, c := range common {
			cs[c] = true
		}
		var rest []*Term
		for _, a := range l {
			var r []*Term
			for _, c := range conj(a) {
				if !cs[c] {
					r = append(r, c)
				}
			}
			rest = append(rest, And(r...))
		}
		return And(append(common, Or(rest...))...)
	}
	// absorption: a or (not a and b) = a or b ; a or (a and b) = a
	changed := false
	for i, a := range l {
		if len(conj(a)) != 1 {
			continue
		}
		na := Not(a)
		for j, b := range l {
			if i == j || b.op != OpAnd {
				continue
			}
			var r []*Term
			drop, cut := false, false
			for _, c := range b.args {
				if c == a {
					drop = true
				} else if c == na {
					cut = true
				} else {
					r = append(r, c)
				}
			}
			if drop {
				l[j] = False
				changed = true
			} else if cut {
				l[j] = And(r...)
				changed = true
			}
		}
	}
	if changed {
		return Or(l...)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return mk(OpOr, SBool, "", 0, l, nil)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if b == True || a == False {
		return True
	}
	return Or(Not(a), b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == OpNot {
		return Ite(c.args[0], b, a)
	}
	if c.op == OpGe0 && c.args[0].op == OpLin && c.args[0].coefs[0] < 0 {
		if n := Not(c); n.op == OpGe0 && n.args[0].op == OpLin && n.args[0].coefs[0] > 0 {
			return Ite(n, b, a)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.sort == SStr && a.op == OpStr && b.op == OpStr {
		if x, y := a.name, b.name; x != "" && y != "" {
			if strings.HasSuffix(x, y) {
				return Concat(Ite(c, Str(x[:len(x)-len(y)]), StrEmpty), b)
			}
			if strings.HasSuffix(y, x) {
				return Concat(Ite(c, StrEmpty, Str(y[:len(y)-len(x)])), a)
			}
		} else if c.op == OpAnd {
			// disjunctions rather than conjunctions
			var l []*Term
			for _, x := range c.args {
				l = append(l, Not(x))
			}
			return Ite(Or(l...), b, a)
		}
	}
	if a.op == OpIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OpIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	// ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
	if b.op == OpIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == OpIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if a.sort == SStr {
		pa, pb := parts(a), parts(b)
		n := 0
		for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
			n++
		}
		m := 0
		for m < len(pa)-n && m < len(pb)-n && pa[len(pa)-1-m] == pb[len(pb)-1-m] {
			m++
		}
		// common prefix of literals
		if n > 0 || m > 0 {
			var l []*Term
			l = append(l, pa[:n]...)
			l = append(l, Ite(c, Concat(pa[n:len(pa)-m]...), Concat(pb[n:len(pb)-m]...)))
			l = append(l, pa[len(pa)-m:]...)
			return Concat(l...)
		}
	}
	if a.sort.Name == "Array" {
		if t := mergeArr(c, a, b); t != nil {
			return t
		}
	}
	if a.sort == SInt {
		// ite(c, x+k, x) stays as is; factor common constant offsets of refs
		if a.op == OpLin && b.op == OpLin && len(a.args) == 1 && len(b.args) == 1 && a.args[0] == b.args[0] && a.coefs[0] == b.coefs[0] && a.coefs[0] == 1 {
			return Add(a.args[0], Ite(c, Int(a.ival), Int(b.ival)))
		}
	}
	return mk(OpIte, a.sort, "", 0, []*Term{c, a, b}, nil)
}

// mergeArr merges two store chains over a common base
func mergeArr(c, a, b *Term) *Term {
	chain := func(t *Term) (base *Term, bases []*Term) {
		for t.op == OpStore {
			bases = append(bases, t)
			t = t.args[0]
		}
		bases = append(bases, t)
		return t, bases
	}
	_, ca := chain(a)
	_, cb := chain(b)
	pos := map[*Term]int{}
	for i, t := range ca {
		pos[t] = i
	}
	for j, t := range cb {
		i, ok := pos[t]
		if !ok {
			continue
		}
		// stores ca[0..i-1] and cb[0..j-1] over base t
		sa, sb := ca[:i], cb[:j]
		if len(sa)+len(sb) > 24 {
			return nil
		}
		idx := map[*Term]bool{}
		var order []*Term
		chk := func(l []*Term) bool {
			for k := len(l) - 1; k >= 0; k-- {
				ix := l[k].args[1]
				if !idx[ix] {
					for o := range idx {
						if eqIdx(o, ix) != 0 {
							return false
						}
					}
					idx[ix] = true
					order = append(order, ix)
				}
			}
			return true
		}
		if !chk(sa) || !chk(sb) {
			return nil
		}
		r := t
		for _, ix := range order {
			r = Store(r, ix, Ite(c, Select(a, ix), Select(b, ix)))
		}
		return r
	}
	return nil
}

// eqIdx: 1 equal, 0 distinct, -1 unknown
// localRefs are the addresses of local variables that are never stored
var localRefs = map[*Term]bool{}

// stripLocals forgets the values of local variables
func stripLocals(t *Term, locals map[*Term]bool, memo map[*Term]*Term) *Term {
	if t.op != OpStore && t.op != OpIte || t.sort.Name != "Array" {
		return t
	}
	if x, ok := memo[t]; ok {
		return x
	}
	var x *Term
	if t.op == OpStore {
		b := stripLocals(t.args[0], locals, memo)
		if locals[t.args[1]] {
			x = b
		} else if b == t.args[0] {
			x = t
		} else {
			x = Store(b, t.args[1], t.args[2])
		}
	} else {
		a, b := stripLocals(t.args[1], locals, memo), stripLocals(t.args[2], locals, memo)
		if a == t.args[1] && b == t.args[2] {
			x = t
		} else {
			x = Ite(t.args[0], a, b)
		}
	}
	memo[t] = x
	return x
}

func eqIdx(a, b *Term) int {
	if a == b {
		return 1
	}
	if a.sort == SInt {
		if localRefs[a] || localRefs[b] {
			return 0
		}
		d := Sub(a, b)
		if d.op == OpInt {
			if d.ival == 0 {
				return 1
			}
			return 0
		}
		// references allocated in different epochs
		if ea := epochOf(a); ea > 0 {
			if f, k := freshOf(b); f > 0 && k >= 0 && ea <= f {
				return 0
			}
		}
		if eb := epochOf(b); eb > 0 {
			if f, k := freshOf(a); f > 0 && k >= 0 && eb <= f {
				return 0
			}
		}
		return -1
	}
	if isConst(a) && isConst(b) {
		return 0
	}
	return -1
}

// Allocation epochs: variable alloc!e; references are alloc_e + k.
var epochVars = map[*Term]int{} // variable -> epoch number

// freshOf recognizes alloc_e + k
func freshOf(t *Term) (int, int64) {
	if e, ok := epochVars[t]; ok {
		return e, 0
	}
	if t.op == OpLin && len(t.args) == 1 && t.coefs[0] == 1 {
		if e, ok := epochVars[t.args[0]]; ok {
			return e, t.ival
		}
	}
	return 0, 0
}

// epochOf gives e > 0 if the reference is known to be < alloc_e
func epochOf(t *Term) int {
	if t.epoch != 0 && t.sort == SInt && t.op != OpVar {
		return t.epoch
	}
	e := epochOf0(t)
	if t.sort == SInt && t.op != OpVar {
		if e == 0 {
			e = -1
		}
		t.epoch = e
	}
	return e
}

func epochOf0(t *Term) int {
	switch t.op {
	case OpInt:
		if t.ival <= 0 {
			return 1
		}
		return 1 // globals and literals are small
	case OpVar:
		if e, ok := epochVars[t]; ok {
			return e + 1
		}
		return t.epoch
	case OpLin:
		if f, k := freshOf(t); f > 0 && k >= 0 {
			return f + 1
		}
		return 0
	case OpSelect:
		// select from array variable with epoch
		a := t.args[0]
		for a.op == OpSelect {
			a = a.args[0]
		}
		if a.op == OpVar {
			return a.epoch
		}
		return 0
	case OpIte:
		x, y := epochOf(t.args[1]), epochOf(t.args[2])
		if x > 0 && y > 0 {
			if x > y {
				return x
			}
			return y
		}
		return 0
	case OpApp:
		if e, ok := appEpoch[t]; ok {
			return e
		}
	}
	return 0
}

var appEpoch = map[*Term]int{}

// frozen array variables: select(v, r) = select(base, r) for r < alloc_e
// except at the given references
type frozenInfo struct {
	base   *Term
	epoch  int
	except []*Term
}

var frozen = map[*Term]*frozenInfo{}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if len(localRefs) > 0 && (localRefs[a] || localRefs[b]) {
		return False
	}
	if a.sort == SBool || a.sort == SStr {
		for _, x := range [2][2]*Term{{a, b}, {b, a}} {
			if y := x[1]; y.op == OpIte {
				if y.args[2] == x[0] {
					return Or(Not(y.args[0]), Eq(y.args[1], x[0]))
				}
				if y.args[1] == x[0] {
					return Or(y.args[0], Eq(y.args[2], x[0]))
				}
			}
		}
	}
	switch a.sort.Name {
	case "Bool":
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	case "Int":
		for _, x := range [2][2]*Term{{a, b}, {b, a}} {
			if x[0] == Zero && x[1].op == OpApp && x[1].name == "strlen" {
				if n := foldCount(x[1].args[0]); n != nil {
					return Ge0(Neg(n))
				}
			}
		}
		if tagExcluded != nil && (a.op == OpInt && tagExcluded(b, a.ival) || b.op == OpInt && tagExcluded(a, b.ival)) {
			return False
		}
		if a == Zero && nonzero[b] || b == Zero && nonzero[a] {
			return False
		}
		switch eqIdx(a, b) {
		case 1:
			return True
		case 0:
			return False
		}
		// distribute over ite with constants
		if t := eqIte(a, b); t != nil {
			return t
		}
		if t := eqIte(b, a); t != nil {
			return t
		}
		// normalise: keep as given if one side is constant, else canonical
		d := Sub(a, b)
		if d.op == OpLin {
			// gcd check skipped; canonical sign
			if len(d.args) == 1 && (d.coefs[0] == 1 || d.coefs[0] == -1) {
				c := Int(-d.ival * d.coefs[0])
				return mkEq(d.args[0], c)
			}
			if len(d.args) == 2 && d.ival == 0 && d.coefs[0] == -d.coefs[1] && (d.coefs[0] == 1 || d.coefs[0] == -1) {
				return mkEq(d.args[0], d.args[1])
			}
			if d.coefs[0] < 0 {
				d = Neg(d)
			}
			return mkEq(d, Zero)
		}
		if d.op != OpInt {
			return mkEq(d, Zero)
		}
	case "Str":
		for _, x := range [2][2]*Term{{a, b}, {b, a}} {
			if x[0] == StrEmpty {
				if n := foldCount(x[1]); n != nil {
					return Ge0(Neg(n))
				}
			}
		}
		if a.op == OpStr && b.op == OpStr {
			return Bool(a.name == b.name)
		}
		if t := eqIte(a, b); t != nil {
			return t
		}
		if t := eqIte(b, a); t != nil {
			return t
		}
		pa, pb := parts(a), parts(b)
		if len(pa) > 0 && len(pb) > 0 && (len(pa) > 1 || len(pb) > 1) {
			n, m := 0, 0
			for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
				n++
			}
			for m < len(pa)-n && m < len(pb)-n && pa[len(pa)-1-m] == pb[len(pb)-1-m] {
				m++
			}
			if n > 0 || m > 0 {
				return Eq(Concat(pa[n:len(pa)-m]...), Concat(pb[n:len(pb)-m]...))
			}
			if pa[0].op == OpStr && pb[0].op == OpStr {
				x, y := pa[0].name, pb[0].name
				l := len(x)
				if len(y) < l {
					l = len(y)
				}
				if x[:l] != y[:l] {
					return False
				}
				if l > 0 {
					na := append([]*Term{Str(x[l:])}, pa[1:]...)
					nb := append([]*Term{Str(y[l:])}, pb[1:]...)
					return Eq(Concat(na...), Concat(nb...))
				}
			}
			if u, v := pa[len(pa)-1], pb[len(pb)-1]; u.op == OpStr && v.op == OpStr {
				x, y := u.name, v.name
				l := 0
				for l < len(x) && l < len(y) && x[len(x)-1-l] == y[len(y)-1-l] {
					l++
				}
				if l < len(x) && l < len(y) {
					return False
				}
				if l > 0 {
					na := append(append([]*Term{}, pa[:len(pa)-1]...), Str(x[:len(x)-l]))
					nb := append(append([]*Term{}, pb[:len(pb)-1]...), Str(y[:len(y)-l]))
					return Eq(Concat(na...), Concat(nb...))
				}
			}
		}
		// concat containing a nonempty literal vs ""
		if a == StrEmpty || b == StrEmpty {
			p := pa
			if a == StrEmpty {
				p = pb
			}
			for _, x := range p {
				if x.op == OpStr && x.name != "" {
					return False
				}
			}
		}
		// head literal in one, and other is ite... leave
	}
	return mkEq(a, b)
}

func mkEq(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OpEq, SBool, "", 0, []*Term{a, b}, nil)
}

func eqIte(a, b *Term) *Term {
	if a.op != OpIte || !isConst(b) {
		return nil
	}
	// only when it decides something in at least one branch
	x, y := a.args[1], a.args[2]
	if isConst(x) || isConst(y) || x.op == OpIte || y.op == OpIte {
		ex, ey := Eq(x, b), Eq(y, b)
		return Ite(a.args[0], ex, ey)
	}
	return nil
}

// ---- linear arithmetic

func linOf(t *Term) (int64, []*Term, []int64) {
	switch t.op {
	case OpInt:
		return t.ival, nil, nil
	case OpLin:
		return t.ival, t.args, t.coefs
	}
	return 0, []*Term{t}, []int64{1}
}

func mkLin(c int64, m map[*Term]int64) *Term {
	var args []*Term
	for t, k := range m {
		if k != 0 {
			args = append(args, t)
		}
	}
	if len(args) == 0 {
		return Int(c)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if c == 0 && len(args) == 1 && m[args[0]] == 1 {
		return args[0]
	}
	coefs := make([]int64, len(args))
	for i, a := range args {
		coefs[i] = m[a]
	}
	return mk(OpLin, SInt, "", c, args, coefs)
}

func addScaled(k int64, ts ...*Term) *Term { panic("unused") }

func Add(ts ...*Term) *Term {
	var c int64
	m := map[*Term]int64{}
	for _, t := range ts {
		if t.sort != SInt {
			panic("Add of " + t.sort.String() + ": " + t.String())
		}
		k, as, cs := linOf(t)
		c += k
		for i, a := range as {
			m[a] += cs[i]
		}
	}
	return mkLin(c, m)
}

func Scale(k int64, t *Term) *Term {
	c, as, cs := linOf(t)
	m := map[*Term]int64{}
	for i, a := range as {
		m[a] += k * cs[i]
	}
	return mkLin(c*k, m)
}

func Neg(t *Term) *Term    { return Scale(-1, t) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func Mul(a, b *Term) *Term {
	if a.op == OpInt {
		return Scale(a.ival, b)
	}
	if b.op == OpInt {
		return Scale(b.ival, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OpMul, SInt, "", 0, []*Term{a, b}, nil)
}

func Ge0(t *Term) *Term {
	if t.op == OpInt {
		return Bool(t.ival >= 0)
	}
	if lb, ok := lowerBound(t, 4); ok && lb >= 0 {
		return True
	}
	if n, pos := lenTest(t); n != nil {
		if pos {
			return Ge0(Add(n, Int(-1)))
		}
		return Ge0(Neg(n))
	}
	if x := sumTest(t); x != nil {
		return x
	}
	return mk(OpGe0, SBool, "", 0, []*Term{t}, nil)
}

// tagExcluded tells whether a term is the tag of an interface value that
// cannot be of a type
var tagExcluded func(t *Term, tag int64) bool

// nonEmptyFold: folds that add at least one character each time
var nonEmptyFold = map[string]bool{}

func foldCount(t *Term) *Term {
	if t.op == OpApp && nonEmptyFold[t.name] {
		return t.args[0]
	}
	if t.op == OpApp && condFold[t.name] {
		return theEngine.foldCond(t)
	}
	return nil
}

// condFold: folds of which some elements are empty; the emptiness of the
// elements has been determined
var condFold = map[string]bool{}

// nonEmpty is the condition under which a text is not empty.
func nonEmpty(t *Term) *Term {
	return absorb(posTest(StrLen(t)))
}

// posTest is t >= 1, for a term that is not negative.
func posTest(t *Term) *Term {
	switch t.op {
	case OpInt:
		return Bool(t.ival >= 1)
	case OpIte:
		return Ite(t.args[0], posTest(t.args[1]), posTest(t.args[2]))
	case OpLin:
		if t.ival > 0 {
			return True
		}
		var l []*Term
		for _, a := range t.args {
			l = append(l, posTest(a))
		}
		return Or(l...)
	case OpApp:
		if t.name == "strlen" {
			if n := foldCount(t.args[0]); n != nil {
				return Ge0(Add(n, Int(-1)))
			}
		}
	}
	return Ge0(Add(t, Int(-1)))
}

// absorb drops the disjuncts that imply others
func absorb(t *Term) *Term {
	if t.op != OpOr {
		return t
	}
	l := append([]*Term{}, t.args...)
	for i := 0; i < len(l); {
		m := map[*Term]*Term{}
		for j, x := range l {
			if j != i {
				m[x] = False
			}
		}
		if Subst(l[i], m) == False {
			l = append(l[:i], l[i+1:]...)
			continue
		}
		i++
	}
	return Or(l...)
}

// accVars: lengths of texts under construction
var accVars = map[*Term]bool{}

// sumTest recognizes lengths + ... >= 1 and -lengths - ... >= 0
func sumTest(t *Term) *Term {
	if t.op != OpLin || len(t.args) < 2 {
		return nil
	}
	sg := int64(1)
	if t.coefs[0] < 0 {
		sg = -1
	}
	if sg == 1 && t.ival != -1 || sg == -1 && t.ival != 0 {
		return nil
	}
	ok := false
	for i, a := range t.args {
		if t.coefs[i]*sg < 0 {
			return nil
		}
		if lb, k := lowerBound(a, 4); !k || lb < 0 {
			return nil
		}
		if accVars[a] || a.op == OpApp && a.name == "strlen" && foldCount(a.args[0]) != nil {
			ok = true
		}
	}
	if !ok {
		return nil
	}
	var l []*Term
	for _, a := range t.args {
		l = append(l, posTest(a))
	}
	x := absorb(Or(l...))
	if sg < 0 {
		return Not(x)
	}
	return x
}

// lenTest recognizes len(fold(n)) <= 0 and len(fold(n)) >= 1
func lenTest(t *Term) (*Term, bool) {
	if t.op != OpLin || len(t.args) != 1 || t.args[0].op != OpApp || t.args[0].name != "strlen" {
		return nil, false
	}
	n := foldCount(t.args[0].args[0])
	if n == nil {
		return nil, false
	}
	if t.ival == 0 && t.coefs[0] == -1 {
		return n, false
	}
	if t.ival == -1 && t.coefs[0] == 1 {
		return n, true
	}
	return nil, false
}

// minLen: a lower bound of the length of a text
func minLen(t *Term) int {
	switch t.op {
	case OpStr:
		return len(t.name)
	case OpConcat:
		n := 0
		for _, a := range t.args {
			n += minLen(a)
		}
		return n
	case OpIte:
		a, b := minLen(t.args[1]), minLen(t.args[2])
		if b < a {
			return b
		}
		return a
	case OpApp:
		if t.name == "itoa" {
			return 1
		}
	}
	return 0
}

// lowerBound: cheap syntactic lower bound (lengths are not negative)
func lowerBound(t *Term, depth int) (int64, bool) {
	if nonneg[t] {
		return 0, true
	}
	switch t.op {
	case OpInt:
		return t.ival, true
	case OpApp:
		if t.name == "strlen" {
			return 0, true
		}
	case OpIte:
		if depth == 0 {
			return 0, false
		}
		a, ok1 := lowerBound(t.args[1], depth-1)
		b, ok2 := lowerBound(t.args[2], depth-1)
		if ok1 && ok2 {
			if a < b {
				return a, true
			}
			return b, true
		}
	case OpLin:
		if depth == 0 {
			return 0, false
		}
		s := t.ival
		for i, a := range t.args {
			if t.coefs[i] < 0 {
				return 0, false
			}
			l, ok := lowerBound(a, depth-1)
			if !ok {
				return 0, false
			}
			s += l * t.coefs[i]
		}
		return s, true
	}
	return 0, false
}

func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(Add(Sub(b, a), Int(-1))) }

// ---- arrays

func Select(a, i *Term) *Term {
	if a.sort.Name != "Array" {
		panic("select from " + a.sort.String() + " " + a.String())
	}
	t := a
	for {
		switch t.op {
		case OpStore:
			switch eqIdx(t.args[1], i) {
			case 1:
				return t.args[2]
			case 0:
				t = t.args[0]
				continue
			}
		case OpConst:
			return t.args[0]
		case OpIte:
			x, y := Select(t.args[1], i), Select(t.args[2], i)
			return Ite(t.args[0], x, y)
		case OpApp:
			if lamDefs[t.name] != nil {
				return lamBody(t, i)
			}
		case OpVar:
			if d := cellDef[[2]*Term{t, i}]; d != nil {
				return d
			}
			if f := frozen[t]; f != nil {
				if e := epochOf(i); e > 0 && e <= f.epoch {
					ok := true
					for _, x := range f.except {
						if eqIdx(x, i) != 0 {
							ok = false
							break
						}
					}
					if ok {
						t = f.base
						continue
					}
				}
			}
		}
		break
	}
	if i.op == OpIte && t.op == OpStore && (t.args[1].op == OpInt || t.args[1].op == OpStr) {
		return Ite(i.args[0], Select(t, i.args[1]), Select(t, i.args[2]))
	}
	return mk(OpSelect, t.sort.Val, "", 0, []*Term{t, i}, nil)
}

func Store(a, i, v *Term) *Term {
	if a.sort.Val != v.sort {
		panic(fmt.Sprintf("store sorts %s %s", a.sort, v.sort))
	}
	if a.op == OpStore && eqIdx(a.args[1], i) == 1 {
		return Store(a.args[0], i, v)
	}
	// local variables last
	if a.op == OpStore && localRefs[a.args[1]] && !localRefs[i] {
		return Store(Store(a.args[0], i, v), a.args[1], a.args[2])
	}
	// drop an older store at the same index, if all between are distinct
	if a.op == OpStore {
		t := a
		var between []*Term
		for t.op == OpStore && len(between) < 40 {
			e := eqIdx(t.args[1], i)
			if e == 1 {
				r := t.args[0]
				for k := len(between) - 1; k >= 0; k-- {
					r = mk(OpStore, r.sort, "", 0, []*Term{r, between[k].args[1], between[k].args[2]}, nil)
				}
				a = r
				break
			}
			if e != 0 {
				break
			}
			between = append(between, t)
			t = t.args[0]
		}
	}
	if v.op == OpSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk(OpStore, a.sort, "", 0, []*Term{a, i, v}, nil)
}

func ConstArr(s *Sort, v *Term) *Term {
	return mk(OpConst, s, "", 0, []*Term{v}, nil)
}

// ---- strings

func parts(t *Term) []*Term {
	if t.op == OpConcat {
		return t.args
	}
	if t == StrEmpty {
		return nil
	}
	return []*Term{t}
}

func Concat(ts ...*Term) *Term {
	var l []*Term
	for _, t := range ts {
		if t.sort != SStr {
			panic("concat of " + t.sort.String() + " " + t.String())
		}
		for _, p := range parts(t) {
			if p.op == OpStr && len(l) > 0 && l[len(l)-1].op == OpStr {
				l[len(l)-1] = Str(l[len(l)-1].name + p.name)
				continue
			}
			l = append(l, p)
		}
	}
	if len(l) == 0 {
		return StrEmpty
	}
	if len(l) == 1 {
		return l[0]
	}
	return mk(OpConcat, SStr, "", 0, l, nil)
}

func StrLen(t *Term) *Term {
	switch t.op {
	case OpStr:
		return Int(int64(len(t.name)))
	case OpConcat:
		var l []*Term
		for _, p := range t.args {
			l = append(l, StrLen(p))
		}
		return Add(l...)
	case OpIte:
		return Ite(t.args[0], StrLen(t.args[1]), StrLen(t.args[2]))
	}
	return App("strlen", SInt, t)
}

// ---- quantifier

func Forall(v, body *Term) *Term {
	if body == True {
		return True
	}
	if !mentions(body, v) {
		return body
	}
	return mk(OpForall, SBool, "", 0, []*Term{v, body}, nil)
}

func mentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] || t.seq < v.seq {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces variables (or other subterms) by terms, rebuilding with
// simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OpApp:
		switch t.name {
		case "strlen":
			return StrLen(args[0])
		case "strsub":
			return StrSub(args[0], args[1], args[2])
		case "strat":
			return StrAt(args[0], args[1])
		}
		return App(t.name, t.sort, args...)
	case OpNot:
		return Not(args[0])
	case OpAnd:
		return And(args...)
	case OpOr:
		return Or(args...)
	case OpEq:
		return Eq(args[0], args[1])
	case OpIte:
		return Ite(args[0], args[1], args[2])
	case OpLin:
		m := []*Term{Int(t.ival)}
		for i, a := range args {
			m = append(m, Scale(t.coefs[i], a))
		}
		return Add(m...)
	case OpGe0:
		return Ge0(args[0])
	case OpMul:
		return Mul(args[0], args[1])
	case OpSelect:
		return Select(args[0], args[1])
	case OpStore:
		return Store(args[0], args[1], args[2])
	case OpConst:
		return ConstArr(t.sort, args[0])
	case OpConcat:
		return Concat(args...)
	case OpForall:
		return Forall(args[0], args[1])
	}
	panic("rebuild")
}

// ---- debug printing

func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(d int) string {
	switch t.op {
	case OpInt:
		return strconv.FormatInt(t.ival, 10)
	case OpBool:
		return strconv.FormatBool(t.ival != 0)
	case OpStr:
		return strconv.Quote(t.name)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var l []string
	for i, a := range t.args {
		s := a.str(d - 1)
		if t.op == OpLin && t.coefs[i] != 1 {
			s = fmt.Sprintf("%d*%s", t.coefs[i], s)
		}
		l = append(l, s)
	}
	if t.op == OpLin && t.ival != 0 {
		l = append(l, strconv.FormatInt(t.ival, 10))
	}
	n := map[Op]string{OpApp: t.name, OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpLin: "+", OpGe0: ">=0", OpMul: "*", OpSelect: "select", OpStore: "store", OpConst: "const", OpConcat: "++", OpForall: "forall"}[t.op]
	return "(" + n + " " + strings.Join(l, " ") + ")"
}

// NewVarNamed makes a variable with a fixed name
func NewVarNamed(name string, s *Sort) *Term {
	t := mk(OpVar, s, name, 0, nil, nil)
	return t
}

// mentionsAny: whether one of the variables occurs in t
func mentionsAny(t *Term, vars map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if vars[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
