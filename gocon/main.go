package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"net/url"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblOut struct {
	Name   string `json:"name"`
	Status string `json:"status"`
	Solver string `json:"solver,omitempty"`
	Detail string `json:"detail,omitempty"`
}

type ConOut struct {
	Name     string   `json:"name"`
	Target   string   `json:"target,omitempty"`
	Trusted  bool     `json:"trusted,omitempty"`
	OK       bool     `json:"ok"`
	Obls     int      `json:"obligations"`
	Proved   int      `json:"proved"`
	Trivial  int      `json:"simplified"`
	Failed   []OblOut `json:"failed,omitempty"`
	Inlined  []string `json:"inlined,omitempty"`
	Callees  []string `json:"callees,omitempty"`
	Seconds  float64  `json:"seconds"`
	Modifies []string `json:"modifies,omitempty"`
	Dropped  []string `json:"dropped_invariants,omitempty"`
	Notes    []string `json:"notes,omitempty"`
}

type Out struct {
	Property    string         `json:"property"`
	OK          bool           `json:"ok"`
	Error       string         `json:"error,omitempty"`
	Contracts   []ConOut       `json:"contracts"`
	Obligations int            `json:"obligations"`
	Proved      int            `json:"proved"`
	BySolver    map[string]int `json:"by_solver"`
	SolverSec   float64        `json:"solver_seconds"`
	Queries     int            `json:"queries"`
	Assumptions []string       `json:"assumptions"`
	Seconds     float64        `json:"seconds"`
}

var (
	fRepo  = flag.String("repo", "/repo", "")
	fCon   = flag.String("contracts", "/verif/contracts", "")
	fProp  = flag.String("prop", "", "property")
	fOnly  = flag.String("only", "", "contract name")
	fClaim = flag.String("claim", "", "directory through which processes share the contracts among them")
	fJSON  = flag.String("json", "", "output")
	fV     = flag.Bool("v", false, "")
	fDump  = flag.Bool("dump", false, "print failed goals")
	fStats = flag.Bool("stats", false, "")
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "exts" {
		exts()
		return
	}
	flag.Parse()
	t0 := time.Now()
	if f := os.Getenv("GOCON_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	out := &Out{Property: *fProp, BySolver: byProv}
	defer func() {
		out.Seconds = time.Since(t0).Seconds()
		out.SolverSec = smtTime.Seconds()
		out.Queries = smtN
		if *fJSON != "" {
			b, _ := json.MarshalIndent(out, "", " ")
			os.WriteFile(*fJSON, b, 0644)
		}
		fmt.Printf("gocon: property=%s contracts=%d obligations=%d proved=%d ok=%v %.1fs (solver %.1fs, %d queries) %s\n", *fProp, len(out.Contracts), out.Obligations, out.Proved, out.OK, out.Seconds, out.SolverSec, out.Queries, out.Error)
		if os.Getenv("GOCON_KEEP") == "" {
			os.RemoveAll(workDir)
		}
		if !out.OK {
			os.Exit(1)
		}
	}()
	workDir, _ = os.MkdirTemp("", "gocon")
	e, err := Load(*fRepo, *fCon)
	theEngine = e
	if err != nil {
		out.Error = err.Error()
		return
	}
	var todo []*Contract
	for _, c := range e.all {
		if *fOnly != "" {
			if c.Name == *fOnly || strings.HasSuffix(c.Name, "."+*fOnly) {
				todo = append(todo, c)
			}
			continue
		}
		if *fProp == "" || contains(c.Props, *fProp) {
			todo = append(todo, c)
		}
	}
	if len(todo) == 0 {
		out.Error = "no contracts for the property"
		return
	}
	seen := map[*Contract]bool{}
	for _, c := range todo {
		seen[c] = true
	}
	out.OK = true
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if *fV {
			fmt.Fprintf(os.Stderr, "-- %s\n", c.Name)
		}
		if !claim(c.Name) {
			// another process discharges it
			r, _ := e.execute(c)
			for _, d := range r.calleeList() {
				if !seen[d] {
					seen[d] = true
					if d.elsewhere(*fProp) == "" {
						todo = append(todo, d)
					}
				}
			}
			continue
		}
		co, callees := e.verify(c)
		out.Contracts = append(out.Contracts, co)
		out.Obligations += co.Obls
		out.Proved += co.Proved
		if !co.OK {
			out.OK = false
		}
		if *fOnly == "" {
			for _, d := range callees {
				if !seen[d] {
					seen[d] = true
					if w := d.elsewhere(*fProp); w != "" {
						e.used["the contract of "+d.TName+" is discharged by the check of "+w+", not by this one"] = true
						continue
					}
					todo = append(todo, d)
				}
			}
		}
		if *fV || !co.OK {
			fmt.Printf("%s: %d/%d obligations (%d by simplification) %.1fs\n", co.Name, co.Proved, co.Obls, co.Trivial, co.Seconds)
			for _, f := range co.Failed {
				fmt.Printf("   FAILED %s: %s %s\n", f.Name, f.Status, f.Detail)
			}
		}
	}
	for k := range e.used {
		out.Assumptions = append(out.Assumptions, k)
	}
	sort.Strings(out.Assumptions)
}

// elsewhere names the check that discharges the contract instead of the one
// of the property: //gocon:elsewhere C15=C17
func (c *Contract) elsewhere(prop string) string {
	for _, f := range strings.Fields(c.Opts["elsewhere"]) {
		if p, w, ok := strings.Cut(f, "="); ok && p == prop {
			return w
		}
	}
	return ""
}

// claim takes a contract, unless another process has it
func claim(name string) bool {
	if *fClaim == "" {
		return true
	}
	f, err := os.OpenFile(filepath.Join(*fClaim, url.PathEscape(name)), os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		return !os.IsExist(err)
	}
	f.Close()
	return true
}

func (e *Engine) need(c *Contract) {
	if c.frame != nil || c.failMsg != "" {
		return
	}
	_, err := e.execute(c)
	if err != "" {
		c.failMsg = err
	}
}

// execute runs the contract symbolically
func (e *Engine) execute(c *Contract) (r *Run, errMsg string) {
	for i := 0; i < 5; i++ {
		old := c.frame
		if old == nil {
			old = &Frame{}
		}
		rd := strings.Join(c.reads, "|")
		r, errMsg = e.execute1(c)
		if !c.guessed || errMsg != "" || c.frame == nil || c.frame.String() == old.String() && rd == strings.Join(c.reads, "|") {
			return
		}
	}
	return r, "outside the verified subset: no frame found for the recursion"
}

func (f *Frame) String() string {
	s := ""
	for _, k := range f.keys {
		s += k + ":"
		if f.all[k] {
			s += "*"
		}
		var l []string
		for _, t := range f.refs[k] {
			x := fmt.Sprint(t.id)
			if g := f.guard[wrec{k, t}]; g != nil {
				x += fmt.Sprint("?", g.id)
			}
			l = append(l, x)
		}
		sort.Strings(l)
		s += strings.Join(l, ",")
		if f.fresh[k] {
			s += "+"
		}
		s += ";"
	}
	return s
}

func (e *Engine) execute1(c *Contract) (r *Run, errMsg string) {
	c.framing = true
	defer func() { c.framing = false }()
	r = &Run{e: e, c: c, init: map[string]*Term{}, nloop: map[string]int{}, dead: e.dead, keySort: map[string]*Sort{}, callees: map[*Contract]bool{},
		inlined: map[*ssa.Function]bool{}, reached: map[string]bool{}, labelN: map[string]int{}, itVars: map[*Term]bool{}, verify: true, axiomFor: axiomsFor}
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				errMsg = fmt.Sprintf("outside the verified subset: %s (%s)", u.msg, e.posStr(u.pos))
				return
			}
			errMsg = fmt.Sprintf("internal error: %v", x)
			if os.Getenv("GOCON_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	if c.Missing {
		return r, "the function " + c.TName + " does not exist any more"
	}
	r.alloc = []*Term{nil}
	st := &State{pc: True, heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
	r.newEpoch(st)
	r.entryEpoch = 1
	c.params = nil
	var args []Val
	for i, p := range c.Wrapper.Params {
		var v Val
		for _, lf := range leaves(p.Type()) {
			t := NewVarNamed(fmt.Sprintf("p!%s!%d!%s%s", c.Name, i, p.Name(), lf.Path), lf.Sort)
			if lf.IsRef {
				t.epoch = 1
			}
			v.L = append(v.L, t)
		}
		r.typeFacts(p.Type(), v)
		r.inputs = append(r.inputs, inputVar{p.Name(), v, p.Type()})
		args = append(args, v)
		c.params = append(c.params, v)
	}
	c.initHeap = r.init
	if c.Target != nil && c.Target.Signature.Recv() != nil {
		if _, ok := c.Target.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			st.pc = Not(Eq(args[0].L[0], Int(0)))
		}
	}
	end, _ := r.inline(st, c.Wrapper, args, nil, c.Wrapper.Pos())
	r.final = end
	return r, ""
}

func (e *Engine) verify(c *Contract) (ConOut, []*Contract) {
	t0 := time.Now()
	co := ConOut{Name: c.Name, Target: c.TName, Trusted: c.Trusted}
	var r *Run
	fail := func(name, st, d string) {
		co.Obls++
		co.Failed = append(co.Failed, OblOut{Name: name, Status: st, Detail: d})
	}
	for round := 0; ; round++ {
		var msg string
		r, msg = e.execute(c)
		if msg != "" {
			fail(c.Name+": verification conditions", "not generated", msg)
			co.Seconds = time.Since(t0).Seconds()
			return co, r.calleeList()
		}
		if c.Trusted {
			r.obls = nil
			break
		}
		bad := e.discharge(r)
		if len(bad) == 0 || round > 12 {
			break
		}
		// drop the candidate invariants that do not hold, and run again
		again := false
		for _, o := range bad {
			if o.Inv != "" && !e.dead[o.Inv] {
				e.dead[o.Inv] = true
				again = true
				if os.Getenv("GOCON_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "dropping %s\n  pc=%s\n  cond=%s\n", o.Name, o.PC.str(12), o.Cond.str(12))

				}
				if *fDump {
					fmt.Printf("   dropped %s\n", o.Name)
				}
				co.Dropped = append(co.Dropped, o.Name)
			}
		}
		if !again {
			break
		}
	}
	for i := range r.obls {
		o := &r.obls[i]
		co.Obls++
		switch {
		case o.Done == "simplifier":
			co.Proved++
			co.Trivial++
		case o.Done != "":
			co.Proved++
		default:
			d := o.Model
			co.Failed = append(co.Failed, OblOut{Name: o.Name, Status: "not proved", Detail: d})
			if *fDump {
				fmt.Printf("GOAL %s\n  pc=%s\n  cond=%s\n", o.Name, o.PC.str(12), o.Cond.str(12))
			}
		}
	}
	// every clause is reached
	for _, l := range ensuresLabels(c.Wrapper) {
		if !r.reached[l] {
			fail(c.Name+": ensures: "+l, "never reached", "")
		}
	}
	if r.final == nil || r.final.pc == False {
		fail(c.Name+": cover", "the function never returns under its precondition", "")
	} else {
		q := &Query{e: e, r: r, hyps: append(append([]*Term{}, r.facts...), r.final.pc), goal: False, fuel: 1}
		co.Obls++
		res := solve(q.text(), true, false)
		if res.ok {
			co.Failed = append(co.Failed, OblOut{Name: c.Name + ": cover", Status: "vacuous: the assumptions are contradictory"})
		} else {
			co.Proved++
		}
	}
	for f := range r.inlined {
		if f != c.Target {
			co.Inlined = append(co.Inlined, shortFn(f))
		}
	}
	sort.Strings(co.Inlined)
	cl := r.calleeList()
	for _, d := range cl {
		co.Callees = append(co.Callees, d.Name)
	}
	co.Notes = r.notes
	if c.frame != nil {
		co.Modifies = c.frame.keys
	}
	co.OK = len(co.Failed) == 0
	co.Seconds = time.Since(t0).Seconds()
	return co, cl
}

func shortFn(f *ssa.Function) string {
	return strings.Replace(f.String(), modPath, "schemalex", -1)
}

func (r *Run) calleeList() []*Contract {
	var l []*Contract
	for c := range r.callees {
		l = append(l, c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	return l
}

func ensuresLabels(fn *ssa.Function) []string {
	var l []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && pkgOf(g) == goconPath && (g.Name() == "Ensures" || g.Name() == "ModifiesOnly") {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						if cv, ok := constOf(k); ok {
							l = append(l, cv.s)
						}
					}
				}
			}
		}
	}
	return l
}

// discharge proves the obligations; it returns those that failed
func (e *Engine) discharge(r *Run) []*Obl {
	var open []*Obl
	first := map[*Term]*Obl{}
	dup := map[*Obl]*Obl{}
	for i := range r.obls {
		o := &r.obls[i]
		o.Done, o.Model = "", ""
		g := Implies(o.PC, o.Cond)
		if g == True {
			o.Done = "simplifier"
			continue
		}
		if f := first[g]; f != nil && f.NFact <= o.NFact {
			dup[o] = f
			continue
		}
		first[g] = o
		open = append(open, o)
	}
	// groups
	var groups [][]*Obl
	for i := 0; i < len(open); {
		j := i
		for j < len(open) && j-i < 8 && (open[j].Kind != "ensures" && open[j].Kind != "inv" && open[j].Kind != "lemma" && open[j].Kind != "requires" || j == i) && open[i].Kind == open[j].Kind {
			j++
		}
		if j == i {
			j++
		}
		groups = append(groups, open[i:j])
		i = j
	}
	var wg sync.WaitGroup
	var prove func(g []*Obl)
	var mu sync.Mutex
	// building the query is not safe for concurrent use
	prove = func(g []*Obl) {
		var goals []*Term
		nf := g[0].NFact
		for _, o := range g {
			if o.NFact < nf {
				nf = o.NFact
			}
		}
		mu.Lock()
		for _, o := range g {
			o.PC, o.Cond = e.unfoldParams(o.PC), e.unfoldParams(o.Cond)
			goals = append(goals, Implies(o.PC, o.Cond))
		}
		goal := And(goals...)
		var hyps []*Term
		if len(g) == 1 && g[0].PC != True {
			hyps = append(hyps, g[0].PC)
			goal = g[0].Cond
		}
		if len(g) == 1 {
			cases := tagCases(g[0].PC, g[0].Cond)
			var sub []subgoal
			split := len(cases) > 1
			for _, tc := range cases {
				pc, cond := Subst(g[0].PC, tc.m), Subst(g[0].Cond, tc.m)
				if cond == True || pc == False {
					continue
				}
				l, ok := splitGoal(pc, cond)
				if ok {
					split = true
				} else if pc2, c2 := premises(pc, cond); c2 != cond {
					split = true
					if c2 == True || pc2 == False {
						continue
					}
					l = []subgoal{{pc: pc2, goal: c2}}
				} else {
					l = []subgoal{{pc: pc, goal: cond}}
				}
				facts := r.facts[:nf]
				if len(cases) > 1 {
					facts = []*Term{tc.pc}
					memo := map[*Term]*Term{}
					for _, f := range r.facts[:nf] {
						if f = subst(f, tc.m, memo); f != True {
							facts = append(facts, f)
						}
					}
				}
				for _, sg := range l {
					if sg.goal = emptied(sg.pc, sg.goal); sg.goal == True {
						continue
					}
					sg.facts = facts
					sub = append(sub, sg)
				}
			}
			if split {
				var ts [][]qtext
				for _, sg := range sub {
					q := &Query{e: e, r: r, hyps: append([]*Term{sg.pc}, sg.facts...), goal: sg.goal, fuel: r.c.Fuel}
					ts = append(ts, q.texts())
				}
				mu.Unlock()
				solver := "simplifier"
				all, open := true, map[*Term]string{}
				ch := make(chan string, len(ts))
				for i, t := range ts {
					i, t := i, t
					go func() {
						for _, x := range t {
							if res := solve(x.text, x.quick, x.strs); res.ok {
								ch <- res.solver
								return
							} else if os.Getenv("GOCON_DEBUG") != "" {
								fmt.Fprintf(os.Stderr, "open case of %s: %s\n", g[0].Name, res.out)
							}
						}
						mu.Lock()
						if os.Getenv("GOCON_CASES") != "" {
							fmt.Fprintf(os.Stderr, "CASE %s\n", g[0].Name)
							for _, h := range conj(sub[i].pc) {
								fmt.Fprintf(os.Stderr, "H %s\n", h.str(12))
							}
							fmt.Fprintf(os.Stderr, "G %s\n", sub[i].goal.str(12))
						}
						open[sub[i].goal] = "OPEN"
						mu.Unlock()
						ch <- ""
					}()
				}
				for range ts {
					if s := <-ch; s == "" {
						all = false
					} else {
						solver = s
					}
				}
				if all {
					g[0].Done = solver
					return
				}
				if *fDump {
					for _, sg := range sub {
						walk(sg.goal, func(t *Term) {
							if t.op == OpApp && e.foldByName[t.name] != nil {
								fd := e.foldByName[t.name]
								fmt.Printf("FOLD %s %s\n", t.name, e.foldBody(t, fd.k).str(14))
							}
						})
						fmt.Printf("CASE %s pc=%s\n    goal=%s\n", open[sg.goal], sg.pc.str(14), sg.goal.str(14))
					}
				}
				mu.Lock()
			}
		}
		hyps = append(hyps, r.facts[:nf]...)
		q := &Query{e: e, r: r, hyps: hyps, goal: goal, fuel: r.c.Fuel}
		texts := q.texts()
		mu.Unlock()
		var res solverRes
		for i, t := range texts {
			res = solve(t.text, len(g) > 1 || t.quick, t.strs)
			if res.ok {
				break
			}
			_ = i
		}
		if res.ok {
			for _, o := range g {
				o.Done = res.solver
			}
			return
		}
		if len(g) == 1 {
			// case by case
			mu.Lock()
			var ts [][]qtext
			for _, c := range pcCases(And(g[0].PC, Not(g[0].Cond))) {
				q := &Query{e: e, r: r, hyps: append([]*Term{c}, r.facts[:nf]...), goal: False, fuel: r.c.Fuel}
				if *fDump {
					fmt.Printf("CASEPC %s\n", c.str(12))
				}
				ts = append(ts, q.texts())
			}
			mu.Unlock()
			if len(ts) > 1 {
				ch := make(chan string, len(ts))
				for _, t := range ts {
					t := t
					go func() {
						for _, x := range t {
							if res := solve(x.text, x.quick, x.strs); res.ok {
								ch <- res.solver
								return
							}
						}
						ch <- ""
					}()
				}
				solver := ""
				all := true
				for range ts {
					s := <-ch
					all = all && s != ""
					solver = s
				}
				if all {
					g[0].Done = solver
					return
				}
			}
			g[0].Model = res.out
			return
		}
		h := len(g) / 2
		prove(g[:h])
		prove(g[h:])
	}
	lim := make(chan struct{}, 8)
	for _, g := range groups {
		g := g
		wg.Add(1)
		lim <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-lim }()
			prove(g)
		}()
	}
	wg.Wait()
	for o, f := range dup {
		o.Done, o.Model = f.Done, f.Model
	}
	var bad []*Obl
	for i := range r.obls {
		if r.obls[i].Done == "" {
			bad = append(bad, &r.obls[i])
		}
	}
	return bad
}

type qtext struct {
	text  string
	quick bool
	strs  bool
}

// withoutAtoms is the query with the atoms left uninterpreted
func (q *Query) withoutAtoms() *Query {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpApp && t.name == "atom" && !t.bound {
			m[t] = App(fmt.Sprintf("atom!%d", t.id), SBool)
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, h := range q.hyps {
		rec(h)
	}
	rec(q.goal)
	if len(m) == 0 {
		return nil
	}
	n := *q
	memo := map[*Term]*Term{}
	n.hyps = nil
	for _, h := range q.hyps {
		n.hyps = append(n.hyps, subst(h, m, memo))
	}
	n.goal = subst(q.goal, m, memo)
	return &n
}

func (q *Query) texts() []qtext {
	q = q.instantiate().strip()
	l := q.texts1()
	if n := q.withoutAtoms(); n != nil {
		l = append(n.texts1(), l...)
	}
	return l
}

func (q *Query) texts1() []qtext {
	var l []qtext
	if len(q.hyps) <= 40 && mentionsRec(q.goal) {
		q0 := *q
		q0.fuel = 0
		l = append(l, qtext{q0.text(), true, false})
	}
	if len(q.hyps) > 40 && q.goal.sort == SBool {
		q1 := *q
		q1.hyps, q1.noFold = relevant(q.hyps, q.goal)
		if mentionsRec(q.goal) {
			// recursive functions as they are
			q0 := q1
			q0.fuel = 0
			l = append(l, qtext{q0.text(), true, false})
		}
		l = append(l, qtext{q1.text(), true, false})
	}
	t := q.text()
	l = append(l, qtext{t, false, false})
	if q.r.c.Opts["strings"] != "" {
		q2 := *q
		q2.strs = true
		l = append(l, qtext{q2.text(), false, true})
	}
	return l
}

func mentionsRec(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OpApp && strings.HasPrefix(t.name, "rec!") {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
