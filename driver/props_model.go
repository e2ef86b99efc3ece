package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"
)

func init() {
	props["C09"] = c09
	props["C10"] = c10
	props["C11"] = c11
	props["C12"] = c12
	props["C13"] = c13
	props["C14"] = c14
	props["C15"] = func(g G) *Fail { return diffCase(g, "C15") }
	props["C16"] = func(g G) *Fail { return diffCase(g, "C16") }
	props["C17"] = func(g G) *Fail { return diffCase(g, "C17") }
	props["C18"] = func(g G) *Fail { return diffCase(g, "C18") }
	props["C21"] = c21
}

func c09(g G) *Fail {
	p := g.col(g.str, g.str)
	c := buildCol(p)
	n, mod := c.Normalize()
	want, wmod := normCol(p)
	in := p.String()
	if got := obsCol(n); !reflect.DeepEqual(got, want) {
		return failf(in, "normalized\nfound    %v\nexpected %v", got, want)
	}
	if got := obsCol(c); !reflect.DeepEqual(got, p) {
		return failf(in, "the receiver was changed to %v", got)
	}
	if !mod && n != c {
		return failf(in, "not modified, but a different column is returned")
	}
	if mod && n == c {
		return failf(in, "modified, but the receiver is returned")
	}
	_ = wmod
	n2, mod2 := n.Normalize()
	want2, _ := normCol(want)
	if got := obsCol(n2); !reflect.DeepEqual(got, want2) || !reflect.DeepEqual(want2, want) {
		return failf(in, "normalized twice\nfound    %v\nexpected %v", got, want)
	}
	if mod2 && !reflect.DeepEqual(obsCol(n2), obsCol(n)) {
		return failf(in, "normalizing twice changes the column")
	}
	return nil
}

func c10(g G) *Fail {
	nm := func() string { return g.one("a", "b", "c", "d", "id", "") }
	p := g.tab(nm, g.str)
	t := buildTab(p)
	n, mod := t.Normalize()
	want := normTab(p)
	in := p.String()
	if got := obsTab(n); !reflect.DeepEqual(got, want) {
		return failf(in, "normalized\nfound    %v\nexpected %v", got, want)
	}
	if got := obsTab(t); !reflect.DeepEqual(got, p) {
		return failf(in, "the receiver was changed to %v", got)
	}
	if !mod && n != t {
		return failf(in, "not modified, but a different table is returned")
	}
	return nil
}

func c11(g G) *Fail {
	name := func() string { return g.one("a", "b", "c", "") }
	t := model.NewTable("t")
	var cols []PCol
	var objs []model.TableColumn
	in := "columns:"
	var pool []model.TableColumn
	var poolP []PCol
	other := model.NewTable("u")
	for n := g.Intn(5); n >= 0; n-- {
		if len(pool) > 0 && g.p(30) {
			k := g.Intn(len(pool))
			t.AddColumn(pool[k])
			in += " again " + poolP[k].Name
			cols = append(cols, poolP[k])
		} else {
			p := g.col(name, g.str)
			c := buildCol(p)
			foreign := g.p(20)
			if foreign {
				other.AddColumn(c)
			}
			t.AddColumn(c)
			if foreign && c.TableID() != "table#u" {
				return failf(in, "adding a column of table u to table t moves it (table ID %q)", c.TableID())
			}
			pool, poolP = append(pool, c), append(poolP, p)
			cols = append(cols, p)
			in += " " + p.Name
		}
	}
	for c := range t.Columns() {
		objs = append(objs, c)
	}
	if len(objs) != len(cols) {
		return failf(in, "%d columns instead of %d", len(objs), len(cols))
	}
	for i := range objs {
		if got := obsCol(objs[i]); !reflect.DeepEqual(got, cols[i]) {
			return failf(in, "column %d is %v instead of %v", i, got, cols[i])
		}
		if objs[i].TableID() != "table#t" {
			return failf(in, "column %d has the table ID %q", i, objs[i].TableID())
		}
		for j := 0; j < i; j++ {
			if objs[i] == objs[j] {
				return failf(in, "columns %d and %d are one object", i, j)
			}
		}
	}
	for _, nm := range []string{"a", "b", "c", "", "zz"} {
		id := "tablecol#" + nm
		last := -1
		for i, c := range cols {
			if c.Name == nm {
				last = i
			}
		}
		c, ok := t.LookupColumn(id)
		o, ok2 := t.LookupColumnOrder(id)
		b, ok3 := t.LookupColumnBefore(id)
		if last < 0 {
			if ok || ok2 || ok3 || c != nil || b != nil {
				return failf(in, "lookup of %q, which does not exist, finds something", nm)
			}
			continue
		}
		if !ok || c != objs[last] || !ok2 || o != last {
			return failf(in, "lookup of %q finds position %d (%v) instead of %d", nm, o, ok2, last)
		}
		if ok3 != (last > 0) || last > 0 && b != objs[last-1] || last == 0 && b != nil {
			return failf(in, "wrong column before %q", nm)
		}
	}
	// indexes
	var idx []model.Index
	var pidx []PIdx
	for n := g.Intn(4); n > 0; n-- {
		p := g.idx(name)
		x := buildIdx(p, "table#t")
		pidx, idx = append(pidx, p), append(idx, x)
		t.AddIndex(x)
		if g.p(20) {
			y := x.Clone()
			pidx, idx = append(pidx, p), append(idx, y)
			t.AddIndex(y)
		}
	}
	k := 0
	for x := range t.Indexes() {
		if k >= len(idx) || x != idx[k] || !reflect.DeepEqual(obsIdx(x), pidx[k]) {
			return failf(in, "index %d is %v", k, obsIdx(x))
		}
		k++
	}
	if k != len(idx) {
		return failf(in, "%d indexes instead of %d", k, len(idx))
	}
	for i := range idx {
		first := i
		for j := i; j >= 0; j-- {
			if idx[j].ID() == idx[i].ID() {
				first = j
			}
		}
		if x, ok := t.LookupIndex(idx[i].ID()); !ok || x != idx[first] {
			return failf(in, "wrong index found for %s", idx[i].ID())
		}
	}
	if x, ok := t.LookupIndex("nope"); ok || x != nil {
		return failf(in, "an unknown index is found")
	}
	p := g.tab(name, g.str)
	if got := obsTab(buildTab(p)); !reflect.DeepEqual(got, p) {
		return failf(p.String(), "read back as %v", got)
	}
	s := buildStmts([]PTab{{Name: "a"}, {Name: "b"}, {Name: "a"}})
	if x, ok := s.Lookup("table#a"); !ok || x != s[0] {
		return failf("tables a, b, a", "wrong statement found")
	}
	if x, ok := s.Lookup("table#c"); ok || x != nil {
		return failf("tables a, b, a", "unknown statement found")
	}
	d := model.NewDatabase(p.Name)
	d.SetIfNotExists(p.INE)
	if d.Name() != p.Name || d.IsIfNotExists() != p.INE || d.ID() != "database#"+p.Name {
		return failf(p.Name, "database")
	}
	return nil
}

func sqlOf(v interface{}, o ...format.Option) (string, error) {
	var b bytes.Buffer
	err := format.SQL(&b, v, o...)
	return b.String(), err
}

func cmpFmt(in, got string, err error, want string, ok bool) *Fail {
	if !ok {
		if err == nil || got != "" {
			return failf(in, "must fail and write nothing, but: error %v, output %q", err, got)
		}
		return nil
	}
	if err != nil {
		return failf(in, "error %v, expected\n%s", err, want)
	}
	if got != want {
		return failf(in, "found    %q\nexpected %q", got, want)
	}
	return nil
}

func badType(g G, p *PCol) {
	if g.p(5) {
		p.Type = model.ColumnType([]int{0, -1, int(model.ColumnTypeMax), int(model.ColumnTypeMax) + 1}[g.Intn(4)])
	}
	if g.p(5) {
		p.Enum, p.Set = nil, nil
	}
}

func c12(g G) *Fail {
	p := g.col(g.str, g.str)
	badType(g, &p)
	got, err := sqlOf(buildCol(p))
	want, ok := fmtCol(p, "")
	if f := cmpFmt(p.String(), got, err, want, ok); f != nil {
		return f
	}
	got, err = sqlOf(p.Type)
	ok = p.Type > model.ColumnTypeInvalid && p.Type < model.ColumnTypeMax
	return cmpFmt(fmt.Sprintf("type %d", p.Type), got, err, typeName(p.Type), ok)
}

func c13(g G) *Fail {
	p := g.idx(g.str)
	if g.p(10) {
		p.Cols = nil
	}
	got, err := sqlOf(buildIdx(p, "t"))
	want, ok := fmtIdx(p, "")
	if f := cmpFmt(p.String(), got, err, want, ok); f != nil {
		return f
	}
	r := g.ref(g.str)
	got, err = sqlOf(buildRef(r))
	return cmpFmt(r.String(), got, err, fmtRef(r, ""), true)
}

func c14(g G) *Fail {
	p := g.tab(g.str, g.str)
	for i := range p.Cols {
		badType(g, &p.Cols[i])
	}
	if len(p.Idx) > 0 && g.p(10) {
		p.Idx[g.Intn(len(p.Idx))].Cols = nil
	}
	var o []format.Option
	indent := ""
	if g.p(50) {
		u, n := g.one(" ", "\t", "ab", ""), g.Intn(5)-1
		o = append(o, format.WithIndent(u, n))
		if n <= 0 {
			n = 1
		}
		indent = strings.Repeat(u, n)
	}
	got, err := sqlOf(buildTab(p), o...)
	want, ok := fmtTab(p, indent)
	if f := cmpFmt(p.String(), got, err, want, ok); f != nil {
		return f
	}
	var st model.Stmts
	all, allok := "", true
	for n := g.Intn(3); n > 0; n-- {
		q := g.tab(g.str, g.str)
		st = append(st, buildTab(q))
		w, ok := fmtTab(q, indent)
		allok = allok && ok
		all += w
		if g.p(50) {
			d := model.NewDatabase(q.Name)
			d.SetIfNotExists(q.INE)
			st = append(st, d)
			all += "CREATE DATABASE "
			if q.INE {
				all += "IF NOT EXISTS "
			}
			all += bq(q.Name) + ";"
		}
	}
	got, err = sqlOf(st, o...)
	if !allok {
		if err == nil {
			return failf("statements", "no error")
		}
	} else if f := cmpFmt("statements "+all, got, err, all, true); f != nil {
		return f
	}
	for _, x := range p.Opts {
		got, err = sqlOf(model.NewTableOption(x.K, x.V, x.Q))
		if f := cmpFmt(fmt.Sprintf("option %q", x), got, err, fmtOpt(x), true); f != nil {
			return f
		}
	}
	for _, v := range []interface{}{nil, 1, "x", struct{}{}, []string{"a"}} {
		got, err = sqlOf(v)
		if f := cmpFmt(fmt.Sprintf("%#v", v), got, err, "", false); f != nil {
			return f
		}
	}
	return nil
}

func c21(g G) *Fail {
	nm := func() string {
		return g.one("a", "b", "a.b", "", "none", "symbol#a", "a\".\"b", "a#b", "index_column#a", "a-asc", "1", "a-1")
	}
	ref := g.ref(nm)
	ref2 := g.ref(nm)
	if g.p(70) {
		c := *ref
		ref2 = &c
		ref2.Cols = append([]PICol(nil), ref.Cols...)
		switch g.Intn(5) {
		case 0:
			ref2.Table = nm()
		case 1:
			ref2.Match = model.ReferenceMatch(g.Intn(4))
		case 2:
			ref2.Del, ref2.Upd = ref.Upd, ref.Del
		case 3:
			ref2.Cols[g.Intn(len(ref2.Cols))].Dir = g.Intn(3)
		case 4:
			ref2.Cols = append(ref2.Cols, g.icols(nm)...)
		}
	}
	if a, b := buildRef(ref).ID(), buildRef(ref2).ID(); (a == b) != reflect.DeepEqual(ref, ref2) {
		return failf(ref.String()+"\n"+ref2.String(), "identities %s and %s", a, b)
	}
	for i := range ref.Cols {
		for j := range ref2.Cols {
			if a, b := buildICols(ref.Cols)[i].ID(), buildICols(ref2.Cols)[j].ID(); (a == b) != reflect.DeepEqual(ref.Cols[i], ref2.Cols[j]) {
				return failf(icols(ref.Cols[i:i+1])+"\n"+icols(ref2.Cols[j:j+1]), "identities %s and %s", a, b)
			}
		}
	}
	x, tx := g.idx(nm), nm()
	y, ty := g.idx(nm), tx
	if g.p(80) {
		y = x
		y.Cols = append([]PICol(nil), x.Cols...)
		switch g.Intn(9) {
		case 0:
			y.Name = g.optS(70, nm)
		case 1:
			y.Sym = g.optS(70, nm)
		case 2:
			y.Kind = model.IndexKind(1 + g.Intn(6))
		case 3:
			y.Typ = model.IndexType(g.Intn(3))
		case 4:
			y.Cols[g.Intn(len(y.Cols))] = g.icols(nm)[0]
		case 5:
			y.Cols = append(y.Cols, g.icols(nm)...)
		case 6:
			y.Ref = nil
			if g.p(70) {
				y.Ref = g.ref(nm)
			}
		case 7:
			ty = nm()
		case 8:
			y.Opts = append([]POpt(nil), x.Opts...)
			y.Opts = append(y.Opts, POpt{nm(), nm(), true})
		}
	}
	for i := range x.Opts {
		x.Opts[i].Q = true
	}
	for i := range y.Opts {
		y.Opts[i].Q = true
	}
	a, b := buildIdx(x, tx).ID(), buildIdx(y, ty).ID()
	if (a == b) != (reflect.DeepEqual(x, y) && tx == ty) {
		return failf(fmt.Sprintf("%s of %q\n%s of %q", x, tx, y, ty), "identities %s and %s", a, b)
	}
	n := nm()
	ids := []string{model.NewTable(n).ID(), model.NewTableColumn(n).ID(), model.NewDatabase(n).ID(), model.NewIndexOption(n, "v", true).ID(), model.NewTableOption(n, "v", true).ID(), model.NewIndexColumn(n).ID(), a, buildRef(ref).ID()}
	want := []string{"table#", "tablecol#", "database#", "indexopt#", "tableopt#", "index_column#", "index", "reference#"}
	for i := range ids {
		if !strings.HasPrefix(ids[i], want[i]) || i < 5 && ids[i] != want[i]+n {
			return failf(fmt.Sprintf("%q", n), "identity %q", ids[i])
		}
	}
	return nil
}

var _ = diff.Statements
