package main

// reflect.DeepEqual on objects of the module: equal dynamic types, and the
// objects behind pointers compared field by field, lists element by element.

import (
	"go/token"
	"go/types"
)

// constTags: the tags a tag term can have
func constTags(t *Term, m map[int64]bool) bool {
	if t.op == OpIte {
		return constTags(t.args[1], m) && constTags(t.args[2], m)
	}
	if t.op == OpInt {
		m[t.ival] = true
		return true
	}
	return false
}

func (r *Run) deepEqualAny(st *State, x, y Val, pos token.Pos) *Term {
	mx, my := map[int64]bool{}, map[int64]bool{}
	if !constTags(x.L[0], mx) || !constTags(y.L[0], my) {
		r.e.unsup(pos, "reflect.DeepEqual of values of unknown type")
	}
	r.model("reflect.DeepEqual")
	cs := []*Term{}
	for tag := range mx {
		if tag == 0 || !my[tag] {
			continue
		}
		t := r.e.tagTypes[tag-1]
		ls := leaves(t)
		if len(ls) != 1 {
			r.e.unsup(pos, "reflect.DeepEqual of boxed values")
		}
		a, b := one(unbox(ls[0].Sort, x.L[1])), one(unbox(ls[0].Sort, y.L[1]))
		cs = append(cs, And(Eq(x.L[0], Int(tag)), r.deepEq(st, t, a, b, pos, 0)))
	}
	cs = append(cs, Eq(x.L[0], Int(0)))
	return Atom(And(Eq(x.L[0], y.L[0]), Or(cs...)))
}

// Atom is b, kept in one piece by the simplifier
func Atom(b *Term) *Term {
	if b == True || b == False {
		return b
	}
	return App("atom", SBool, b)
}

func (r *Run) deepEq(st *State, t types.Type, x, y Val, pos token.Pos, depth int) *Term {
	if depth > 6 {
		r.e.unsup(pos, "reflect.DeepEqual of nested objects")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return Eq(x.L[0], y.L[0])
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			lo, hi := fieldRange(u, i)
			cs = append(cs, r.deepEq(st, u.Field(i).Type(), Val{L: x.L[lo:hi]}, Val{L: y.L[lo:hi]}, pos, depth))
		}
		return And(cs...)
	case *types.Pointer:
		a := r.load(st, &Addr{Key: regionOf(u.Elem()), Ref: x.L[0]}, u.Elem())
		b := r.load(st, &Addr{Key: regionOf(u.Elem()), Ref: y.L[0]}, u.Elem())
		return Or(Eq(x.L[0], y.L[0]), And(Not(Eq(x.L[0], Int(0))), Not(Eq(y.L[0], Int(0))), r.deepEq(st, u.Elem(), a, b, pos, depth+1)))
	case *types.Interface:
		if s := r.e.singleImpl(t); s != nil {
			return r.deepEq(st, s, x, y, pos, depth)
		}
	case *types.Slice:
		return r.sameList(st, u, x, y, pos)
	}
	r.e.unsup(pos, "reflect.DeepEqual of %s", ts(t))
	return nil
}

// sameList: both nil or both not, of the same length, with equal elements
func (r *Run) sameList(st *State, u *types.Slice, x, y Val, pos token.Pos) *Term {
	ls := leaves(u.Elem())
	if _, ok := u.Elem().Underlying().(*types.Basic); !ok || len(ls) != 1 {
		r.e.unsup(pos, "comparison of lists of %s", ts(u.Elem()))
	}
	row := func(v Val) *Term {
		a := &Addr{Key: sliceRegion(u.Elem()), Ref: v.L[0], Idx: Zero}
		_, arr := r.arr(st, a, ls[0])
		r.logr(a.Key+a.Path+ls[0].Path, a.Ref)
		return Select(arr, a.Ref)
	}
	return And(Eq(x.L[2], y.L[2]), Eq(Eq(x.L[0], Zero), Eq(y.L[0], Zero)),
		App("eqlist!"+ls[0].Sort.String(), SBool, row(x), x.L[1], row(y), y.L[1], x.L[2]))
}
