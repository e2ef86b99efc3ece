package main

// Values: every Go value is a list of leaf terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Leaf struct {
	Path  string
	Sort  *Sort
	IsRef bool
	T     types.Type
}

type Addr struct {
	Key  string // heap region
	Ref  *Term
	Idx  *Term // element of a slice region
	Path string
}

type Val struct {
	L []*Term
	A *Addr
}

type unsupported struct {
	msg string
	pos token.Pos
}

func (e *Engine) unsup(pos token.Pos, f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...), pos})
}

var leafCache = map[types.Type][]Leaf{}
var tsCache = map[types.Type]string{}

func ts(t types.Type) string {
	if s, ok := tsCache[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), nil)
	tsCache[t] = s
	return s
}

var theEngine *Engine

func opaqueStruct(s string) bool {
	switch s {
	case "bytes.Buffer", "strings.Builder":
		return true
	}
	return false
}

func noLeaves(s string) bool {
	return strings.HasPrefix(s, "sync.")
}

func leaves(t types.Type) []Leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var r []Leaf
	s := ts(t)
	switch {
	case opaqueStruct(s):
		r = []Leaf{{"", SStr, false, t}}
	case noLeaves(s):
	default:
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				r = []Leaf{{"", SBool, false, t}}
			case u.Info()&types.IsString != 0:
				r = []Leaf{{"", SStr, false, t}}
			case u.Kind() == types.UntypedNil, u.Kind() == types.Invalid:
				r = []Leaf{{"", SInt, false, t}}
			default:
				r = []Leaf{{"", SInt, false, t}}
			}
		case *types.Pointer, *types.Map, *types.Chan:
			r = []Leaf{{"", SInt, true, t}}
		case *types.Signature:
			r = []Leaf{{"", SInt, false, t}}
		case *types.Slice:
			r = []Leaf{{"#ref", SInt, true, t}, {"#off", SInt, false, t}, {"#len", SInt, false, t}}
		case *types.Interface:
			if theEngine.singleImpl(t) != nil {
				r = []Leaf{{"", SInt, true, t}}
			} else {
				r = []Leaf{{"#tag", SInt, false, t}, {"#val", SInt, theEngine.allPtrImpls(t), t}}
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				for _, l := range leaves(f.Type()) {
					l.Path = "." + f.Name() + l.Path
					r = append(r, l)
				}
			}
		case *types.Array:
			if u.Len() > 64 {
				panic(unsupported{"large array type " + s, token.NoPos})
			}
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leaves(u.Elem()) {
					l.Path = fmt.Sprintf("[%d]%s", i, l.Path)
					r = append(r, l)
				}
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				for _, l := range leaves(u.At(i).Type()) {
					l.Path = fmt.Sprintf("$%d%s", i, l.Path)
					r = append(r, l)
				}
			}
		default:
			panic(unsupported{"type " + s, token.NoPos})
		}
	}
	leafCache[t] = r
	return r
}

// allPtrImpls: a module interface that only pointer types of the module implement
func (e *Engine) allPtrImpls(t types.Type) bool {
	switch ts(t) {
	case "io.Writer", "io.Reader", "hash.Hash", "github.com/deckarep/golang-set.Set":
		// identities of objects outside the module
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !inModule(n.Obj().Pkg()) || n.Obj().Pkg().Path() == goconPath {
		return false
	}
	l := e.implsOf(t)
	for _, x := range l {
		if _, ok := x.(*types.Pointer); !ok {
			return false
		}
	}
	return len(l) > 0
}

// closedIface: only the module's types are expected behind the interface
func (e *Engine) closedIface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if ok {
		return inModule(n.Obj().Pkg()) && n.Obj().Pkg().Path() != goconPath
	}
	return false
}

func fieldRange(st *types.Struct, i int) (int, int) {
	n := 0
	for k := 0; k < i; k++ {
		n += len(leaves(st.Field(k).Type()))
	}
	return n, n + len(leaves(st.Field(i).Type()))
}

func tupleRange(tp *types.Tuple, i int) (int, int) {
	n := 0
	for k := 0; k < i; k++ {
		n += len(leaves(tp.At(k).Type()))
	}
	return n, n + len(leaves(tp.At(i).Type()))
}

func zeroTerm(s *Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return StrEmpty
	}
	return ConstArr(s, zeroTerm(s.Val))
}

func zeroVal(t types.Type) Val {
	var v Val
	for _, l := range leaves(t) {
		v.L = append(v.L, zeroTerm(l.Sort))
	}
	return v
}

func constOf(c *ssa.Const) (constVal, bool) {
	if c.Value == nil {
		return constVal{}, false
	}
	switch c.Value.Kind() {
	case constant.Bool:
		b := int64(0)
		if constant.BoolVal(c.Value) {
			b = 1
		}
		return constVal{i: b, isB: true}, true
	case constant.String:
		return constVal{s: constant.StringVal(c.Value), isS: true}, true
	case constant.Int:
		i, ok := constant.Int64Val(c.Value)
		return constVal{i: i}, ok
	}
	return constVal{}, false
}

// regionOf is the heap region of objects of type t
func regionOf(t types.Type) string { return ts(t) }

func sliceRegion(elem types.Type) string { return "[]! " + ts(elem) }
func chanRegion(elem types.Type) string  { return "chan! " + ts(elem) }

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}
