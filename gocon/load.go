package main

// Loading /repo with the contract files overlaid, and building SSA.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/schemalex/schemalex"
const goconPath = modPath + "/internal/gocon"

type Contract struct {
	Name    string        // pkg.wrapper
	Target  *ssa.Function // nil for a lemma
	TName   string
	Wrapper *ssa.Function
	Props   []string
	Trusted bool
	Fuel    int
	Pkg     string
	File    string
	Opts    map[string]string
	Missing bool // target does not exist in the code

	frame    *Frame // inferred on this run
	reads    []string
	readSort map[string]*Sort
	framing  bool
	guessed  bool // calls itself; the frame is found by iteration
	params   []Val
	initHeap map[string]*Term
	failMsg  string
	Fset     string
}

type Engine struct {
	repo       string
	prog       *ssa.Program
	pkgs       []*packages.Package
	spkgs      []*ssa.Package
	fset       *token.FileSet
	contracts  map[*ssa.Function]*Contract
	byName     map[string]*Contract
	all        []*Contract
	specFile   map[string]bool // overlay file names
	impls      map[string][]types.Type
	namedAll   []types.Type
	globals    map[*ssa.Global]int
	globInit   map[*ssa.Global]*globInit
	tagIDs     map[string]int
	tagTypes   []types.Type
	closures   []*Closure
	closeIdx   map[string]int
	recs       map[*ssa.Function]*RecFun
	recByName  map[string]*RecFun
	folds      map[string]*FoldDef
	dead       map[string]bool // dropped candidate invariants
	used       map[string]bool // trusted/assumed things used
	loopCache  map[*ssa.Function]*LoopInfo
	srcNotes   []string
	isRec      map[*ssa.Function]bool
	foldByName map[string]*FoldDef
	gocon      bool
	needFn     func(c *Contract)
}

type globInit struct {
	fields   map[string]constVal // leaf path -> const
	isMap    bool
	m        map[string]constVal
	keys     []constVal
	vals     []constVal
	stored   bool
	ok       bool
	allConst bool
	id       int
}

type constVal struct {
	s   string
	i   int64
	isS bool
	isB bool
}

func (c constVal) term() *Term {
	if c.isS {
		return Str(c.s)
	}
	if c.isB {
		return Bool(c.i != 0)
	}
	return Int(c.i)
}

func Load(repo, contractsDir string) (*Engine, error) {
	e := &Engine{repo: repo, contracts: map[*ssa.Function]*Contract{}, byName: map[string]*Contract{}, specFile: map[string]bool{},
		impls: map[string][]types.Type{}, globals: map[*ssa.Global]int{}, globInit: map[*ssa.Global]*globInit{}, tagIDs: map[string]int{},
		closeIdx: map[string]int{}, recs: map[*ssa.Function]*RecFun{}, recByName: map[string]*RecFun{}, folds: map[string]*FoldDef{}, isRec: map[*ssa.Function]bool{}, foldByName: map[string]*FoldDef{}, dead: map[string]bool{}, used: map[string]bool{}, loopCache: map[*ssa.Function]*LoopInfo{}}
	overlay := map[string][]byte{}
	err := filepath.Walk(contractsDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		rel, _ := filepath.Rel(contractsDir, p)
		dst := filepath.Join(repo, rel)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		overlay[dst] = b
		e.specFile[dst] = true
		return nil
	})
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./", "./model", "./format", "./diff", "./lint", "./internal/errors", "./internal/option", "./internal/util", "./internal/gocon")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, er := range p.Errors {
				errs = append(errs, er.Error())
			}
		}
	})
	if len(errs) > 0 {
		return e, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.BuilderMode(0))
	prog.Build()
	e.prog, e.pkgs, e.spkgs, e.fset = prog, pkgs, spkgs, prog.Fset
	e.collectTypes()
	e.collectGlobals()
	if err := e.collectContracts(); err != nil {
		return e, err
	}
	return e, nil
}

func (e *Engine) isSpecPos(pos token.Pos) bool {
	if !pos.IsValid() {
		return false
	}
	return e.specFile[e.fset.Position(pos).Filename]
}

func (e *Engine) isSpecFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return e.isSpecPos(f.Pos())
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (e *Engine) collectTypes() {
	for _, p := range e.pkgs {
		scope := p.Types.Scope()
		names := scope.Names()
		for _, n := range names {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if e.isSpecPos(tn.Pos()) {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				continue
			}
			e.namedAll = append(e.namedAll, tn.Type())
		}
	}
}

// implsOf lists the module types that implement the interface
func (e *Engine) implsOf(t types.Type) []types.Type {
	k := types.TypeString(t, nil)
	if l, ok := e.impls[k]; ok {
		return l
	}
	it := t.Underlying().(*types.Interface)
	var l []types.Type
	for _, n := range e.namedAll {
		if types.Implements(n, it) {
			l = append(l, n)
		}
		p := types.NewPointer(n)
		if types.Implements(p, it) {
			l = append(l, p)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	e.impls[k] = l
	return l
}

// singleImpl: the interface type is declared in the module and exactly one
// (pointer) type of the module implements it
func (e *Engine) singleImpl(t types.Type) types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !inModule(n.Obj().Pkg()) || n.Obj().Pkg().Path() == goconPath {
		return nil
	}
	l := e.implsOf(t)
	if len(l) != 1 {
		return nil
	}
	if _, ok := l[0].(*types.Pointer); !ok {
		return nil
	}
	return l[0]
}

func (e *Engine) tagOf(t types.Type) int {
	k := types.TypeString(types.Unalias(t), nil)
	if id, ok := e.tagIDs[k]; ok {
		return id
	}
	id := len(e.tagIDs) + 1
	e.tagIDs[k] = id
	e.tagTypes = append(e.tagTypes, t)
	return id
}

// collectGlobals evaluates the constant parts of package initialization
func (e *Engine) collectGlobals() {
	n := 0
	for _, sp := range e.spkgs {
		if sp == nil {
			continue
		}
		var names []string
		for name := range sp.Members {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				n++
				e.globals[g] = n
				e.globInit[g] = &globInit{fields: map[string]constVal{}, m: map[string]constVal{}, allConst: true, id: n}
			}
		}
	}
	for fn := range ssautil.AllFunctions(e.prog) {
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) {
			continue
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		maps := map[ssa.Value]*globInit{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					root, path := addrRoot(in.Addr)
					g, ok := root.(*ssa.Global)
					if !ok || e.globInit[g] == nil {
						continue
					}
					gi := e.globInit[g]
					if !isInit {
						gi.stored = true
						continue
					}
					gi.ok = true
					if c, ok := in.Val.(*ssa.Const); ok {
						if cv, ok := constOf(c); ok {
							gi.fields[path] = cv
						}
					} else if u, ok := in.Val.(*ssa.UnOp); ok && copyLit(gi, path, u) {
					} else {
						gi.allConst = false
					}
					if mm, ok := in.Val.(*ssa.MakeMap); ok {
						gi.isMap = true
						maps[mm] = gi
					}
				}
			}
		}
		if isInit {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if gi := maps[mu.Map]; gi != nil {
							k, ok1 := mu.Key.(*ssa.Const)
							v, ok2 := mu.Value.(*ssa.Const)
							if ok1 && ok2 {
								kc, ok1 := constOf(k)
								vc, ok2 := constOf(v)
								if ok1 && ok2 {
									gi.keys = append(gi.keys, kc)
									gi.vals = append(gi.vals, vc)
									continue
								}
							}
							gi.isMap = false
						}
					}
				}
			}
		} else {
			// a map update through a loaded global
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if u, ok := mu.Map.(*ssa.UnOp); ok {
							if g, ok := u.X.(*ssa.Global); ok && e.globInit[g] != nil {
								e.globInit[g].stored = true
							}
						}
					}
				}
			}
		}
	}
}

// copyLit: the value is a composite literal that was built in a local
func copyLit(gi *globInit, path string, u *ssa.UnOp) bool {
	al, ok := u.X.(*ssa.Alloc)
	if !ok || u.Op != token.MUL {
		return false
	}
	m := map[string]constVal{}
	for _, b := range u.Parent().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			r, p := addrRoot(st.Addr)
			if r != ssa.Value(al) {
				continue
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok {
				return false
			}
			cv, ok := constOf(c)
			if !ok {
				return false
			}
			m[path+p] = cv
		}
	}
	for k, v := range m {
		gi.fields[k] = v
	}
	return true
}

func addrRoot(v ssa.Value) (ssa.Value, string) {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		r, p := addrRoot(v.X)
		st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return r, p + "." + st.Field(v.Field).Name()
	case *ssa.IndexAddr:
		r, p := addrRoot(v.X)
		if c, ok := v.Index.(*ssa.Const); ok {
			return r, p + fmt.Sprintf("[%d]", c.Int64())
		}
		return r, p + "[?]"
	}
	return v, ""
}

func (e *Engine) collectContracts() error {
	for _, p := range e.pkgs {
		var sp *ssa.Package = e.prog.Package(p.Types)
		for _, f := range p.Syntax {
			fn := e.fset.Position(f.Pos()).Filename
			if !e.specFile[fn] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				var c *Contract
				for _, cm := range fd.Doc.List {
					if !strings.HasPrefix(cm.Text, "//gocon:") {
						continue
					}
					fs := strings.Fields(strings.TrimPrefix(cm.Text, "//gocon:"))
					if c == nil {
						c = &Contract{Name: p.Types.Name() + "." + fd.Name.Name, Pkg: p.PkgPath, File: fn, Fuel: 2, Opts: map[string]string{}}
					}
					switch fs[0] {
					case "contract":
						c.TName = fs[1]
					case "lemma":
					case "props":
						c.Props = fs[1:]
					case "trusted":
						c.Trusted = true
					case "fuel":
						fmt.Sscanf(fs[1], "%d", &c.Fuel)
					default:
						v := "1"
						if len(fs) > 1 {
							v = strings.Join(fs[1:], " ")
						}
						c.Opts[fs[0]] = v
					}
				}
				if c == nil {
					continue
				}
				c.Wrapper = sp.Func(fd.Name.Name)
				if c.Wrapper == nil {
					return fmt.Errorf("no SSA for %s", fd.Name.Name)
				}
				if c.Opts["named"] != "" {
					// a spec function kept as one symbol with a definition
					e.isRec[c.Wrapper] = true
					continue
				}
				if c.TName != "" {
					c.Target = findFunc(e.prog, p, sp, c.TName)
					if c.Target == nil {
						c.Missing = true
					} else {
						if o := e.contracts[c.Target]; o != nil {
							return fmt.Errorf("two contracts for %s", c.TName)
						}
						e.contracts[c.Target] = c
					}
				}
				e.all = append(e.all, c)
				e.byName[c.Name] = c
			}
		}
	}
	return nil
}

// findFunc resolves "name" or "(*T).name" or "T.name"
func findFunc(prog *ssa.Program, p *packages.Package, sp *ssa.Package, name string) *ssa.Function {
	if !strings.Contains(name, ".") {
		return sp.Func(name)
	}
	i := strings.LastIndex(name, ".")
	tn, m := name[:i], name[i+1:]
	ptr := false
	tn = strings.Trim(tn, "()")
	if strings.HasPrefix(tn, "*") {
		ptr = true
		tn = tn[1:]
	}
	o := p.Types.Scope().Lookup(tn)
	if o == nil {
		return nil
	}
	var t types.Type = o.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	sel := prog.MethodSets.MethodSet(t).Lookup(p.Types, m)
	if sel == nil {
		return nil
	}
	return prog.MethodValue(sel)
}
