package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Query struct {
	e      *Engine
	r      *Run
	hyps   []*Term
	goal   *Term
	fuel   int
	strs   bool // use the theory of strings
	noFold bool
}

type printer struct {
	strs    bool
	out     bytes.Buffer
	decl    map[string]bool
	defined map[*Term]string
	lits    map[string]string
	litl    []string
	refs    map[*Term]int
	funs    []string
	terms   []*Term // all ground subterms seen
	quants  bool
}

func smtName(s string) string {
	var b strings.Builder
	b.WriteByte('|')
	for _, c := range []byte(s) {
		if c == '|' || c == '\\' {
			b.WriteByte('_')
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('|')
	return b.String()
}

func (p *printer) sort(s *Sort) string {
	switch s.Name {
	case "Str":
		if p.strs {
			return "String"
		}
		return "Str"
	case "Array":
		return "(Array " + p.sort(s.Key) + " " + p.sort(s.Val) + ")"
	}
	return s.Name
}

func (p *printer) lit(s string) string {
	if p.strs {
		var b strings.Builder
		b.WriteByte('"')
		for _, c := range []byte(s) {
			switch {
			case c == '"':
				b.WriteString(`""`)
			case c < 32 || c > 126 || c == '\\':
				fmt.Fprintf(&b, `\u{%x}`, c)
			default:
				b.WriteByte(c)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	if n, ok := p.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit%d", len(p.lits))
	p.lits[s] = n
	p.litl = append(p.litl, s)
	return n
}

func smtInt(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}

// collect counts references and gathers the declarations
func (p *printer) collect(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	p.terms = append(p.terms, t)
	for _, a := range t.args {
		p.collect(a)
	}
	switch t.op {
	case OpVar:
		if !t.bound && !p.decl[t.name] {
			p.decl[t.name] = true
			p.funs = append(p.funs, fmt.Sprintf("(declare-fun %s () %s)", smtName(t.name), p.sort(t.sort)))
		}
	case OpApp:
		if p.strs && t.name == "strlen" || t.name == "atom" {
			return
		}
		if !p.decl["f "+t.name] {
			p.decl["f "+t.name] = true
			var as []string
			for _, a := range t.args {
				as = append(as, p.sort(a.sort))
			}
			p.funs = append(p.funs, fmt.Sprintf("(declare-fun %s (%s) %s)", smtName(t.name), strings.Join(as, " "), p.sort(t.sort)))
		}
	case OpStr:
		p.lit(t.name)
	case OpForall:
		p.quants = true
	}
}

func (p *printer) term(t *Term, local map[*Term]string) string {
	if n, ok := p.defined[t]; ok {
		return n
	}
	if local != nil {
		if n, ok := local[t]; ok {
			return n
		}
	}
	s := p.expr(t, local)
	if !t.bound && len(t.args) > 0 && p.refs[t] > 1 {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&p.out, "(define-fun %s () %s %s)\n", n, p.sort(t.sort), s)
		p.defined[t] = n
		return n
	}
	return s
}

func (p *printer) expr(t *Term, local map[*Term]string) string {
	sub := func(i int) string { return p.term(t.args[i], local) }
	all := func() string {
		var l []string
		for i := range t.args {
			l = append(l, sub(i))
		}
		return strings.Join(l, " ")
	}
	switch t.op {
	case OpInt:
		return smtInt(t.ival)
	case OpBool:
		if t == True {
			return "true"
		}
		return "false"
	case OpStr:
		return p.lit(t.name)
	case OpVar:
		return smtName(t.name)
	case OpApp:
		if len(t.args) == 0 {
			return smtName(t.name)
		}
		if t.name == "atom" {
			return sub(0)
		}
		n := smtName(t.name)
		if p.strs && t.name == "strlen" {
			n = "str.len"
		}
		return "(" + n + " " + all() + ")"
	case OpNot:
		return "(not " + sub(0) + ")"
	case OpAnd:
		return "(and " + all() + ")"
	case OpOr:
		return "(or " + all() + ")"
	case OpEq:
		return "(= " + all() + ")"
	case OpIte:
		return "(ite " + all() + ")"
	case OpLin:
		var l []string
		if t.ival != 0 {
			l = append(l, smtInt(t.ival))
		}
		for i := range t.args {
			if t.coefs[i] == 1 {
				l = append(l, sub(i))
			} else {
				l = append(l, "(* "+smtInt(t.coefs[i])+" "+sub(i)+")")
			}
		}
		if len(l) == 1 {
			return l[0]
		}
		return "(+ " + strings.Join(l, " ") + ")"
	case OpGe0:
		return "(>= " + sub(0) + " 0)"
	case OpMul:
		return "(* " + all() + ")"
	case OpSelect:
		return "(select " + all() + ")"
	case OpStore:
		return "(store " + all() + ")"
	case OpConst:
		return "((as const " + p.sort(t.sort) + ") " + all() + ")"
	case OpConcat:
		if p.strs {
			return "(str.++ " + all() + ")"
		}
		s := sub(len(t.args) - 1)
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(cat " + sub(i) + " " + s + ")"
		}
		return s
	case OpForall:
		v, body := t.args[0], t.args[1]
		// shared bound subterms become lets
		cnt := map[*Term]int{}
		var order []*Term
		var walk func(x *Term)
		walk = func(x *Term) {
			cnt[x]++
			if cnt[x] > 1 {
				return
			}
			if x.op == OpForall {
				return
			}
			for _, a := range x.args {
				walk(a)
			}
			if x.bound && len(x.args) > 0 {
				order = append(order, x)
			}
		}
		walk(body)
		loc := map[*Term]string{}
		for k, n := range local {
			loc[k] = n
		}
		var lets []string
		for _, x := range order {
			if cnt[x] > 1 {
				if _, ok := loc[x]; ok {
					continue
				}
				s := p.expr(x, loc)
				n := fmt.Sprintf("b%d", x.id)
				loc[x] = n
				lets = append(lets, fmt.Sprintf("(let ((%s %s)) ", n, s))
			}
		}
		s := p.term(body, loc)
		return fmt.Sprintf("(forall ((%s %s)) %s%s%s)", smtName(v.name), p.sort(v.sort), strings.Join(lets, ""), s, strings.Repeat(")", len(lets)))
	}
	panic("smt: op")
}

// expand adds instances of definitions and axioms
func (q *Query) expand() []*Term {
	var ax []*Term
	e := q.e
	seen := map[*Term]bool{}
	var work []*Term
	type item struct {
		t     *Term
		level int
	}
	var recs, folds []item
	var nths, sets []*Term
	// nthAxiom: what the j-th element that counts is
	nthAxiom := func(c, x *Term) *Term {
		if c.name[len("count!"):] != x.name[len("nth!"):] {
			return True
		}
		for i := range c.args[1:] {
			if c.args[i+1] != x.args[i+1] {
				return True
			}
		}
		j := x.args[0]
		return Implies(And(Le(Int(0), j), Lt(j, c)), And(Le(Int(0), x), Lt(x, c.args[0]), e.foldBody(x, x)))
	}
	level := 0
	var arrs []*Term
	var visit func(t *Term)
	add := func(t *Term) {
		if t != True {
			ax = append(ax, t)
			work = append(work, t)
		}
	}
	var ints, bsel []*Term
	nthKeys := map[string]bool{}
	nthKey := func(t *Term) string {
		s := t.name[strings.Index(t.name, "!"):]
		for _, a := range t.args[1:] {
			s += fmt.Sprintf(" %d", a.id)
		}
		return s
	}
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		if t.op == OpApp && strings.HasPrefix(t.name, "nth!") {
			nthKeys[nthKey(t)] = true
		}
		if t.bound {
			if t.op == OpSelect && t.sort == SInt {
				a := t.args[0]
				for a.op == OpSelect {
					a = a.args[0]
				}
				bsel = append(bsel, a)
			}
			return
		}
		if t.sort == SInt && (t.op == OpVar || t.op == OpSelect || t.op == OpApp) {
			ints = append(ints, t)
		}
		if t.op == OpVar && t.sort.Name == "Array" {
			arrs = append(arrs, t)
		}
		if t.op == OpApp {
			switch {
			case strings.HasPrefix(t.name, "rec!"):
				recs = append(recs, item{t, level})
			case strings.HasPrefix(t.name, "fold!"), strings.HasPrefix(t.name, "count!"):
				folds = append(folds, item{t, level})
				if t.sort == SInt {
					for _, x := range nths {
						add(nthAxiom(t, x))
					}
				}
			case strings.HasPrefix(t.name, "setof!"):
				for _, x := range sets {
					// the same members are added
					sk := NewVar("sk", SInt, 0)
					ca, ka := setElem(t, sk)
					cb, kb := setElem(x, sk)
					add(Or(Not(Eq(t.args[0], x.args[0])), Not(Eq(t.args[1], x.args[1])), mk(OpEq, SBool, "", 0, []*Term{t, x}, nil),
						And(Le(Int(0), sk), Lt(sk, t.args[0]), Or(Not(Eq(ca, cb)), And(ca, Not(Eq(ka, kb)))))))
				}
				if len(sets) < 6 {
					sets = append(sets, t)
				}
			case strings.HasPrefix(t.name, "nth!"):
				nths = append(nths, t)
				for _, x := range folds {
					if x.t.sort == SInt {
						add(nthAxiom(x.t, t))
					}
				}
			}
			if f := q.r.axiomFor; f != nil {
				for _, x := range f(t) {
					add(x)
				}
			}
		}
	}
	drain := func() {
		for len(work) > 0 {
			t := work[len(work)-1]
			work = work[:len(work)-1]
			visit(t)
		}
	}
	for _, h := range q.hyps {
		visit(h)
	}
	visit(q.goal)
	drain()
	done := map[*Term]bool{}
	pairDone := map[[2]*Term]bool{}
	for round := 0; round < q.fuel; round++ {
		level = round + 1
		cur := recs
		recs = nil
		for _, it := range cur {
			if done[it.t] {
				continue
			}
			done[it.t] = true
			if b := e.unfold(it.t); b != nil {
				add(Eq(it.t, b))
			}
		}
		if !q.noFold {
			cf := append([]item{}, folds...)
			for _, it := range cf {
				if done[it.t] {
					continue
				}
				done[it.t] = true
				n := it.t.args[0]
				m1 := Add(n, Int(-1))
				prev := App(it.t.name, it.t.sort, append([]*Term{m1}, it.t.args[1:]...)...)
				done[prev] = true // no chains
				if it.t.sort == SInt {
					add(Implies(Le(n, Int(0)), Eq(it.t, Int(0))))
					add(Implies(Lt(Int(0), n), And(Eq(it.t, Add(prev, Ite(e.foldBody(it.t, m1), Int(1), Int(0)))), Le(Int(0), prev), Lt(prev, n))))
					continue
				}
				add(Implies(Le(n, Int(0)), Eq(it.t, StrEmpty)))
				add(Implies(Lt(Int(0), n), Eq(it.t, Concat(prev, e.foldBody(it.t, m1)))))
			}
			drain()
			cf = append([]item{}, folds...)
			for i := range cf {
				for j := 0; j < i; j++ {
					a, b := cf[i].t, cf[j].t
					k := [2]*Term{a, b}
					if pairDone[k] || len(pairDone) > 120 || a.sort != b.sort {
						continue
					}
					if cf[i].level > 1 || cf[j].level > 1 {
						continue
					}
					pairDone[k] = true
					if a.args[0] != b.args[0] && isConst(Sub(a.args[0], b.args[0])) {
						continue
					}
					sk := NewVar("sk", SInt, 0)
					diff := And(Le(Int(0), sk), Lt(sk, a.args[0]), Not(Eq(e.foldBody(a, sk), e.foldBody(b, sk))))
					add(Or(Not(Eq(a.args[0], b.args[0])), Eq(a, b), diff))
				}
			}
		}
		drain()
	}
	// everything that counts is found
	for _, it := range folds {
		c := it.t
		if c.sort != SInt || it.level > 1 || !nthKeys[nthKey(c)] {
			continue
		}
		delete(nthKeys, nthKey(c))
		k, j := NewBound("k", SInt), NewBound("j", SInt)
		ck := App(c.name, SInt, append([]*Term{k}, c.args[1:]...)...)
		nth := func(j *Term) *Term {
			return App("nth!"+c.name[len("count!"):], SInt, append([]*Term{j}, c.args[1:]...)...)
		}
		ax = append(ax, Forall(k, Implies(And(Le(Int(0), k), Lt(k, c.args[0]), e.foldBody(c, k)),
			And(Le(Int(0), ck), Lt(ck, c), Eq(nth(ck), k)))))
		x := nth(j)
		ax = append(ax, Forall(j, Implies(And(Le(Int(0), j), Lt(j, c)), And(Le(Int(0), x), Lt(x, c.args[0]), e.foldBody(c, x)))))
	}
	// facts about integers and references
	for i := 0; i < len(ints); i++ {
		t := ints[i]
		if nonneg[t] || t.op == OpApp && t.name == "strlen" {
			ax = append(ax, Ge0Raw(t))
		}
		if nonzero[t] {
			ax = append(ax, Ge0Raw(Add(t, Int(-1))))
		}
		if byteTerms[t] {
			ax = append(ax, Le(t, Int(255)))
		}
		if ep := freshIn[t]; ep > 0 && ep < len(q.r.alloc) {
			ax = append(ax, Or(Eq(t, Int(0)), Le(q.r.alloc[ep], t)))
		}
		if ep := epochOf(t); ep > 0 && t.op != OpInt && ep < len(q.r.alloc) {
			ax = append(ax, mk(OpGe0, SBool, "", 0, []*Term{Add(q.r.alloc[ep], Int(-1), Neg(t))}, nil))
		}
	}
	fr := map[*Term]bool{}
	for i := 0; i < len(arrs); i++ {
		a := arrs[i]
		f := frozen[a]
		if f == nil || fr[a] {
			continue
		}
		fr[a] = true
		k := NewBound("r", SInt)
		cs := []*Term{Lt(k, q.r.alloc[f.epoch])}
		for _, x := range f.except {
			cs = append(cs, Not(Eq(k, x)))
		}
		sa := mk(OpSelect, a.sort.Val, "", 0, []*Term{a, k}, nil)
		ax = append(ax, Forall(k, Implies(And(cs...), Eq(sa, Select(f.base, k)))))
		n := len(arrs)
		visit(f.base)
		_ = n
	}
	drain()
	// references in arrays that are read under a quantifier
	bdone := map[*Term]bool{}
	var leafs func(a *Term)
	leafs = func(a *Term) {
		if bdone[a] {
			return
		}
		bdone[a] = true
		switch a.op {
		case OpStore:
			leafs(a.args[0])
			if a.args[2].sort.Name == "Array" {
				leafs(a.args[2])
			}
		case OpIte:
			leafs(a.args[1])
			leafs(a.args[2])
		case OpSelect:
			b := a
			for b.op == OpSelect {
				b = b.args[0]
			}
			leafs(b)
		case OpVar:
			ep := a.epoch
			if ep <= 0 || ep >= len(q.r.alloc) || a.bound {
				return
			}
			k := NewBound("r", SInt)
			x := mk(OpSelect, a.sort.Val, "", 0, []*Term{a, k}, nil)
			if x.sort.Name == "Array" && x.sort.Val == SInt && x.sort.Key == SInt {
				i := NewBound("i", SInt)
				y := mk(OpSelect, SInt, "", 0, []*Term{x, i}, nil)
				ax = append(ax, Forall(k, Forall(i, And(Ge0Raw(y), mk(OpGe0, SBool, "", 0, []*Term{Add(q.r.alloc[ep], Int(-1), Neg(y))}, nil)))))
			} else if x.sort == SInt && a.sort.Key == SInt {
				ax = append(ax, Forall(k, And(Ge0Raw(x), mk(OpGe0, SBool, "", 0, []*Term{Add(q.r.alloc[ep], Int(-1), Neg(x))}, nil))))
			}
		}
	}
	for _, a := range bsel {
		leafs(a)
	}
	return ax
}

func Ge0Raw(t *Term) *Term { return mk(OpGe0, SBool, "", 0, []*Term{t}, nil) }

func (q *Query) text() string {
	q = q.instantiate().instances()
	p := &printer{strs: q.strs, decl: map[string]bool{}, defined: map[*Term]string{}, lits: map[string]string{}, refs: map[*Term]int{}}
	ax := q.expand()
	var all []*Term
	all = append(all, q.hyps...)
	all = append(all, ax...)
	neg := Not(q.goal)
	for _, t := range all {
		p.collect(t)
	}
	p.collect(neg)
	var body []string
	emit := func(t *Term) {
		s := p.term(t, nil)
		fmt.Fprintf(&p.out, "(assert %s)\n", s)
	}
	_ = body
	for _, t := range all {
		emit(t)
	}
	emit(neg)
	var h bytes.Buffer
	h.WriteString("(set-logic ALL)\n")
	if !p.strs {
		h.WriteString("(declare-sort Str 0)\n(declare-fun cat (Str Str) Str)\n")
		if !p.decl["f strlen"] {
			h.WriteString("(declare-fun |strlen| (Str) Int)\n")
		}
		lits := p.litl
		if _, ok := p.lits[""]; !ok {
			p.lit("")
			lits = p.litl
		}
		for i := range lits {
			fmt.Fprintf(&h, "(declare-fun lit%d () Str)\n", i)
		}
	}
	for _, f := range p.funs {
		h.WriteString(f + "\n")
	}
	if !p.strs {
		if len(p.litl) > 1 {
			h.WriteString("(assert (distinct")
			for i := range p.litl {
				fmt.Fprintf(&h, " lit%d", i)
			}
			h.WriteString("))\n")
		}
		for i, s := range p.litl {
			fmt.Fprintf(&h, "(assert (= (|strlen| lit%d) %d))\n", i, len(s))
		}
		hash := false
		for _, l := range p.litl {
			n := p.lits[l]
			if len(l) > 1 && strings.IndexByte(l, '#') == len(l)-1 {
				if !hash {
					// the part of a string up to the first #
					h.WriteString("(declare-fun uptohash (Str) Str)\n")
					hash = true
				}
				fmt.Fprintf(&h, "(assert (forall ((x Str)) (! (= (uptohash (cat %s x)) %s) :pattern ((cat %s x)))))\n", n, n, n)
			}
		}
		h.WriteString("(assert (forall ((x Str)) (! (>= (|strlen| x) 0) :pattern ((|strlen| x)))))\n")
		fmt.Fprintf(&h, "(assert (forall ((x Str)) (! (=> (= (|strlen| x) 0) (= x %s)) :pattern ((|strlen| x)))))\n", p.lits[""])
		h.WriteString("(assert (forall ((x Str) (y Str)) (! (= (|strlen| (cat x y)) (+ (|strlen| x) (|strlen| y))) :pattern ((cat x y)))))\n")
		fmt.Fprintf(&h, "(assert (forall ((x Str)) (! (= (cat x %s) x) :pattern ((cat x %s)))))\n", p.lits[""], p.lits[""])
		fmt.Fprintf(&h, "(assert (forall ((x Str)) (! (= (cat %s x) x) :pattern ((cat %s x)))))\n", p.lits[""], p.lits[""])
		h.WriteString("(assert (forall ((x Str) (y Str) (z Str)) (! (= (cat (cat x y) z) (cat x (cat y z))) :pattern ((cat (cat x y) z)))))\n")
	}
	if p.decl["f strlt"] {
		// the order of strings embeds into the reals
		n := "Str"
		if p.strs {
			n = "String"
		}
		fmt.Fprintf(&h, "(declare-fun strrank (%s) Real)\n(declare-fun strunrank (Real) %s)\n", n, n)
		fmt.Fprintf(&h, "(assert (forall ((x %s)) (! (= (strunrank (strrank x)) x) :pattern ((strrank x)))))\n", n)
		fmt.Fprintf(&h, "(assert (forall ((x %s) (y %s)) (! (= (|strlt| x y) (< (strrank x) (strrank y))) :pattern ((|strlt| x y)))))\n", n, n)
	}
	h.Write(p.out.Bytes())
	h.WriteString("(check-sat)\n")
	return h.String()
}

type solverRes struct {
	ok     bool
	solver string
	out    string
	dur    time.Duration
}

var (
	qcache  = map[[32]byte]solverRes{}
	qmu     sync.Mutex
	sem     = make(chan struct{}, 8)
	smtTime time.Duration
	smtN    int
	byProv  = map[string]int{}
)

func runSolver(ctx context.Context, name string, file string, secs int) string {
	if n, err := strconv.Atoi(os.Getenv("GOCON_MAX")); err == nil && n > 0 && secs > n {
		secs = n
	}
	var c *exec.Cmd
	switch name {
	case "z3-new":
		c = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", secs), "-memory:3000", file)
	case "z3-new 1", "z3-new 2", "z3-new 3":
		c = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", secs), "-memory:3000", "smt.random_seed="+name[7:], file)
	case "z3":
		c = exec.CommandContext(ctx, "z3", fmt.Sprintf("-T:%d", secs), "-memory:3000", file)
	case "cvc5":
		c = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000), file)
	case "cvc5s":
		c = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", secs*1000), file)
	}
	out, _ := c.CombinedOutput()
	return strings.TrimSpace(string(out))
}

var workDir string

// scale multiplies the time limits of the solvers
var scale = func() int {
	if n, err := strconv.Atoi(os.Getenv("GOCON_SCALE")); err == nil && n > 0 {
		return n
	}
	return 1
}()

func solve(text string, quick bool, strs bool) solverRes {
	h := sha256.Sum256([]byte(text))
	qmu.Lock()
	if r, ok := qcache[h]; ok {
		qmu.Unlock()
		return r
	}
	qmu.Unlock()
	sem <- struct{}{}
	defer func() { <-sem }()
	f := filepath.Join(workDir, fmt.Sprintf("q%x.smt2", h[:8]))
	os.WriteFile(f, []byte(text), 0644)
	if os.Getenv("GOCON_KEEP") == "" {
		defer os.Remove(f)
	}
	t0 := time.Now()
	type stage struct {
		names []string
		secs  int
	}
	stages := []stage{{[]string{"z3-new"}, 2}, {[]string{"cvc5", "z3", "z3-new"}, 12}, {[]string{"z3-new 1", "z3-new 2", "z3-new 3"}, 12}}
	if strs {
		stages = []stage{{[]string{"cvc5s", "z3-new"}, 10}}
	}
	if quick {
		stages = stages[:1]
	}
	for i := range stages {
		stages[i].secs *= scale
	}
	res := solverRes{}
	for _, s := range stages {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.secs+5)*time.Second)
		ch := make(chan [2]string, len(s.names))
		for _, n := range s.names {
			go func(n string) { ch <- [2]string{n, runSolver(ctx, n, f, s.secs)} }(n)
		}
		fin := false
		for range s.names {
			o := <-ch
			first := strings.SplitN(o[1], "\n", 2)[0]
			if first == "unsat" {
				res = solverRes{ok: true, solver: o[0]}
				fin = true
				break
			}
			if first == "sat" {
				res = solverRes{ok: false, solver: o[0], out: "sat"}
				fin = true
				break
			}
			if strings.Contains(o[1], "error") {
				res.out = o[0] + ": " + o[1]
				if os.Getenv("GOCON_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "solver error %s: %.300s (%s)\n", o[0], o[1], f)
				}
			} else if res.out == "" {
				res.out = first
			}
		}
		cancel()
		if fin {
			break
		}
	}
	res.dur = time.Since(t0)
	qmu.Lock()
	qcache[h] = res
	smtTime += res.dur
	smtN++
	if res.ok {
		byProv[res.solver]++
	}
	qmu.Unlock()
	return res
}

var _ = sort.Strings

// instances replaces quantifiers that only ask for a witness by fresh
// constants, and adds the instances of the others for these
func (q *Query) instances() *Query {
	var sks []*Term
	memo := map[*Term]*Term{}
	// has: contains a quantifier
	has := map[*Term]bool{}
	var quant func(t *Term) bool
	quant = func(t *Term) bool {
		if t.sort != SBool {
			return false
		}
		switch t.op {
		case OpForall:
			return true
		case OpNot, OpAnd, OpOr, OpIte:
		case OpEq:
			if t.args[0].sort != SBool {
				return false
			}
		default:
			return false
		}
		if v, ok := has[t]; ok {
			return v
		}
		has[t] = false
		for _, a := range t.args {
			if quant(a) {
				has[t] = true
			}
		}
		return has[t]
	}
	// both directions of an equivalence
	both := func(t *Term) *Term {
		a, b := t.args[0], t.args[1]
		return And(Or(Not(a), b), Or(Not(b), a))
	}
	var sk func(t *Term, pos bool) *Term
	sk = func(t *Term, pos bool) *Term {
		if !quant(t) {
			return t
		}
		switch t.op {
		case OpForall:
			so := t.args[0].sort
			if pos || so != SInt && so != SStr {
				return t
			}
			if x := memo[t]; x != nil {
				return x
			}
			v := NewVar("sk", so, 0)
			sks = append(sks, v)
			x := sk(Subst(t.args[1], map[*Term]*Term{t.args[0]: v}), pos)
			memo[t] = x
			return x
		case OpNot:
			return Not(sk(t.args[0], !pos))
		case OpAnd, OpOr:
			l := make([]*Term, len(t.args))
			for i, a := range t.args {
				l[i] = sk(a, pos)
			}
			if t.op == OpAnd {
				return And(l...)
			}
			return Or(l...)
		case OpIte:
			if quant(t.args[0]) {
				return t
			}
			return Ite(t.args[0], sk(t.args[1], pos), sk(t.args[2], pos))
		case OpEq:
			return sk(both(t), pos)
		}
		return t
	}
	nq := *q
	nq.hyps = make([]*Term, len(q.hyps))
	for i, h := range q.hyps {
		nq.hyps[i] = sk(h, true)
	}
	neg := sk(Not(q.goal), true)
	if len(sks) == 0 || len(sks) > 8 {
		return q
	}
	// the definitions of sets
	seen := map[*Term]bool{}
	var visit func(t *Term, f func(t *Term))
	visit = func(t *Term, f func(t *Term)) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a, f)
		}
		if t.op == OpApp && !t.bound {
			f(t)
		}
	}
	var ax []*Term
	addAx := func(t *Term) {
		if strings.HasPrefix(t.name, "setof!") || t.name == "setdiff" || t.name == "setinter" || t.name == "card" {
			ax = append(ax, axiomsFor(t)...)
		}
	}
	for _, h := range nq.hyps {
		visit(h, addAx)
	}
	visit(neg, addAx)
	nq.hyps = append(nq.hyps, ax...)
	n := 0
	var inst func(t *Term, pos bool, by []*Term) *Term
	inst = func(t *Term, pos bool, by []*Term) *Term {
		if !quant(t) {
			return t
		}
		switch t.op {
		case OpForall:
			if !pos || n > 400 {
				return t
			}
			l := []*Term{t}
			for _, v := range by {
				if v.sort != t.args[0].sort {
					continue
				}
				n++
				l = append(l, inst(Subst(t.args[1], map[*Term]*Term{t.args[0]: v}), pos, by))
			}
			return And(l...)
		case OpNot:
			return Not(inst(t.args[0], !pos, by))
		case OpAnd, OpOr:
			l := make([]*Term, len(t.args))
			for i, a := range t.args {
				l[i] = inst(a, pos, by)
			}
			if t.op == OpAnd {
				return And(l...)
			}
			return Or(l...)
		case OpIte:
			if quant(t.args[0]) {
				return t
			}
			return Ite(t.args[0], inst(t.args[1], pos, by), inst(t.args[2], pos, by))
		case OpEq:
			return And(t, inst(both(t), pos, by))
		}
		return t
	}
	by := sks
	hyps := append([]*Term{}, nq.hyps...)
	neg0 := neg
	for round := 0; round < 2 && len(by) > 0; round++ {
		for i, h := range hyps {
			if x := inst(h, true, by); x != h {
				nq.hyps[i] = And(nq.hyps[i], x)
			}
		}
		neg = And(neg, inst(neg0, true, by))
		// the witnesses that this has brought up
		by = nil
		seen = map[*Term]bool{}
		addW := func(t *Term) {
			if (t.name == "setwit" || t.name == "setpos") && len(by) < 8 {
				by = append(by, t)
			}
		}
		for _, h := range nq.hyps {
			visit(h, addW)
		}
		visit(neg, addW)
	}
	nq.goal = Not(neg)
	return &nq
}
