package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/model"
)

// ---- comparing schemas, as stated by C15 to C18

func diffOf(from, to []PTab, txn bool) (string, error) {
	var b bytes.Buffer
	var o []diff.Option
	if txn {
		o = append(o, diff.WithTransaction(true))
	}
	err := diff.Statements(&b, buildStmts(from), buildStmts(to), o...)
	return b.String(), err
}

func (g G) dcol() PCol {
	c := g.col(g.name, g.name)
	if c.Type == model.ColumnTypeEnum && len(c.Enum) == 0 {
		c.Enum = []string{"a"}
	}
	if c.Type == model.ColumnTypeSet && len(c.Set) == 0 {
		c.Set = []string{"a"}
	}
	return c
}

func (g G) didx() PIdx {
	x := g.idx(g.name)
	for i := range x.Opts {
		x.Opts[i].Q = true
	}
	if x.Name == nil && x.Sym == nil && g.p(90) {
		x.Name = sp(g.name())
	}
	return x
}

func hasCol(l []PCol, n string) bool {
	for _, c := range l {
		if c.Name == n {
			return true
		}
	}
	return false
}

func hasIdx(l []PIdx, x PIdx) bool {
	for _, y := range l {
		if reflect.DeepEqual(x, y) {
			return true
		}
	}
	return false
}

func addIdx(l []PIdx, x PIdx) []PIdx {
	if hasIdx(l, x) {
		return l
	}
	if x.Kind == model.IndexKindPrimaryKey {
		for _, y := range l {
			if y.Kind == x.Kind {
				return l
			}
		}
	}
	return append(l, x)
}

func (g G) dtab(name string) PTab {
	t := PTab{Name: name, Temp: g.p(10), INE: g.p(10)}
	for n := g.Intn(6); n >= 0; n-- {
		if c := g.dcol(); !hasCol(t.Cols, c.Name) {
			t.Cols = append(t.Cols, c)
		}
	}
	for n := g.Intn(4); n > 0; n-- {
		t.Idx = addIdx(t.Idx, g.didx())
	}
	return t
}

func (g G) dchange(t PTab) PTab {
	n := t
	n.Cols, n.Idx = nil, nil
	for _, c := range t.Cols {
		if g.p(25) {
			continue
		}
		if g.p(30) {
			d := g.dcol()
			d.Name = c.Name
			if g.p(60) {
				d = c
				switch g.Intn(7) {
				case 0:
					d.Comment = g.optS(70, g.name)
				case 1:
					d.Null = model.NullState(g.Intn(3))
				case 2:
					d.Def, d.DefQ = g.optS(70, g.name), true
				case 3:
					d.Len = g.lenP()
				case 4:
					d.Uns = !d.Uns
				case 5:
					d.AutoUpd = g.optS(70, func() string { return "NOW" })
				case 6:
					d.Charset = g.optS(70, g.name)
				}
				if d.Def == nil {
					d.DefQ = false
				}
			}
			c = d
		}
		n.Cols = append(n.Cols, c)
	}
	if g.p(30) {
		g.Shuffle(len(n.Cols), func(i, j int) { n.Cols[i], n.Cols[j] = n.Cols[j], n.Cols[i] })
	}
	for k := g.Intn(5); k > 0; k-- {
		c := g.dcol()
		if !hasCol(n.Cols, c.Name) {
			i := g.Intn(len(n.Cols) + 1)
			n.Cols = append(n.Cols[:i:i], append([]PCol{c}, n.Cols[i:]...)...)
		}
	}
	if len(n.Cols) == 0 {
		n.Cols = []PCol{g.dcol()}
	}
	for _, x := range t.Idx {
		if g.p(60) {
			n.Idx = addIdx(n.Idx, x)
		}
	}
	for k := g.Intn(4); k > 0; k-- {
		n.Idx = addIdx(n.Idx, g.didx())
	}
	return n
}

func find(l []PTab, n string) *PTab {
	for i := range l {
		if l[i].Name == n {
			return &l[i]
		}
	}
	return nil
}

func diffCase(g G, prop string) *Fail {
	var from, to []PTab
	for n := g.Intn(4); n > 0; n-- {
		if nm := g.name(); find(from, nm) == nil {
			from = append(from, g.dtab(nm))
		}
	}
	same := prop == "C18" && g.p(50)
	for _, t := range from {
		switch {
		case same:
			to = append(to, t)
		case g.p(20):
		default:
			if g.p(85) {
				t = g.dchange(t)
			}
			to = append(to, t)
		}
	}
	for n := g.Intn(3); n > 0 && !same; n-- {
		if nm := g.name(); find(to, nm) == nil {
			to = append(to, g.dtab(nm))
		}
	}
	if g.p(30) {
		g.Shuffle(len(to), func(i, j int) { to[i], to[j] = to[j], to[i] })
	}
	in := "from\n" + tabs(from) + "to\n" + tabs(to)
	out, err := diffOf(from, to, false)

	// what cannot be dropped is an error
	undroppable := false
	for _, t := range from {
		u := find(to, t.Name)
		if u == nil {
			continue
		}
		for _, x := range t.Idx {
			if x.Name == nil && x.Sym == nil && x.Kind != model.IndexKindPrimaryKey && !hasIdx(u.Idx, x) {
				undroppable = true
			}
		}
	}
	if undroppable {
		if err == nil && prop == "C17" {
			return failf(in, "an index without name is dropped:\n%s", out)
		}
		return nil
	}
	if err != nil {
		return failf(in, "error %v", err)
	}
	if prop == "C15" || prop == "C18" {
		if o2, _ := diffOf(from, to, false); o2 != out {
			return failf(in, "two runs differ:\n%s\n-----\n%s", out, o2)
		}
	}
	txt, err := diffOf(from, to, true)
	if err != nil {
		return failf(in, "error %v", err)
	}
	const pre, post = "\nBEGIN;\n\nSET FOREIGN_KEY_CHECKS = 0;", "\n\nSET FOREIGN_KEY_CHECKS = 1;\n\nCOMMIT;"
	if prop == "C18" {
		if same && out != "" {
			return failf(in, "differences between equal schemas:\n%s", out)
		}
		if !strings.HasPrefix(txt, pre) || !strings.HasSuffix(txt, post) || len(txt) < len(pre)+len(post) {
			return failf(in, "transaction:\n%s", txt)
		}
		mid := txt[len(pre) : len(txt)-len(post)]
		if strings.TrimLeft(mid, "\n") != out {
			return failf(in, "in a transaction:\n%s\n----- without\n%s", txt, out)
		}
		if out != "" && !strings.HasPrefix(mid, "\n") {
			return failf(in, "transaction:\n%s", txt)
		}
		if strings.HasPrefix(out, "\n") || strings.Contains(out, "FOREIGN_KEY_CHECKS") && !strings.Contains(in, "FOREIGN_KEY_CHECKS") {
			return failf(in, "without transaction:\n%s", out)
		}
		return nil
	}
	var st []string
	for _, s := range strings.Split(out, ";") {
		if s = strings.Trim(s, "\n"); s != "" {
			st = append(st, s)
		}
	}
	show := func(f string, a ...interface{}) *Fail {
		return failf(in, "%s\noutput:\n%s", fmt.Sprintf(f, a...), out)
	}
	phase := 0
	var drops, creates []string
	alters := map[string][]string{}
	for _, s := range st {
		p := 2
		switch {
		case strings.HasPrefix(s, "DROP TABLE "):
			p = 0
			drops = append(drops, s)
		case strings.HasPrefix(s, "CREATE "):
			p = 1
			creates = append(creates, s)
		case strings.HasPrefix(s, "ALTER TABLE "):
			ok := false
			for _, t := range to {
				if a := "ALTER TABLE " + bq(t.Name) + " "; strings.HasPrefix(s, a) && find(from, t.Name) != nil {
					alters[t.Name] = append(alters[t.Name], s[len(a):])
					ok = true
				}
			}
			if !ok {
				return show("alters a table that is not in both: %s", s)
			}
		default:
			return show("unknown statement %q", s)
		}
		if p < phase {
			return show("wrong order at %s", s)
		}
		phase = p
	}
	var wd, wc []string
	for _, t := range from {
		if find(to, t.Name) == nil {
			wd = append(wd, "DROP TABLE "+bq(t.Name))
		}
	}
	for _, t := range to {
		if find(from, t.Name) == nil {
			s, _ := fmtTab(t, "")
			wc = append(wc, s)
		}
	}
	if !sameSet(drops, wd) {
		return show("drops %q instead of %q", drops, wd)
	}
	if !sameSet(creates, wc) {
		return show("creates %q instead of %q", creates, wc)
	}
	if prop == "C15" {
		return nil
	}
	for _, a := range from {
		if b := find(to, a.Name); b != nil {
			var msg string
			if prop == "C16" {
				msg = checkCols(a, *b, alters[a.Name])
			} else {
				msg = checkIdx(a, *b, alters[a.Name])
			}
			if msg != "" {
				return show("table %q: %s", a.Name, msg)
			}
		}
	}
	return nil
}

func sameSet(a, b []string) bool {
	a, b = append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, "\x00") == strings.Join(b, "\x00")
}

func checkCols(a, b PTab, st []string) string {
	exists := map[string]bool{}
	for _, c := range a.Cols {
		exists[c.Name] = true
	}
	phase := 0
	var got, want []string
	for _, s := range st {
		p := -1
		switch {
		case strings.HasPrefix(s, "DROP COLUMN "):
			p = 0
			for _, c := range a.Cols {
				if s == "DROP COLUMN "+bq(c.Name) {
					delete(exists, c.Name)
				}
			}
		case strings.HasPrefix(s, "ADD COLUMN "):
			p = 1
			for i, c := range b.Cols {
				if strings.HasPrefix(s, "ADD COLUMN "+bq(c.Name)+" ") {
					if i > 0 && !exists[b.Cols[i-1].Name] {
						return fmt.Sprintf("%q is added after a column that does not exist yet", c.Name)
					}
					exists[c.Name] = true
				}
			}
		case strings.HasPrefix(s, "CHANGE COLUMN "):
			p = 2
		}
		if p < 0 {
			continue
		}
		if p < phase {
			return "wrong order at " + s
		}
		phase = p
		got = append(got, s)
	}
	for _, c := range a.Cols {
		if !hasCol(b.Cols, c.Name) {
			want = append(want, "DROP COLUMN "+bq(c.Name))
		}
	}
	for i, c := range b.Cols {
		def, _ := fmtCol(c, "")
		if !hasCol(a.Cols, c.Name) {
			if i == 0 {
				want = append(want, "ADD COLUMN "+def+" FIRST")
			} else {
				want = append(want, "ADD COLUMN "+def+" AFTER "+bq(b.Cols[i-1].Name))
			}
			continue
		}
		for _, d := range a.Cols {
			if d.Name == c.Name && !reflect.DeepEqual(c, d) {
				want = append(want, "CHANGE COLUMN "+bq(c.Name)+" "+def)
			}
		}
	}
	if !sameSet(got, want) {
		return fmt.Sprintf("column changes\nfound    %q\nexpected %q", got, want)
	}
	return ""
}

func checkIdx(a, b PTab, st []string) string {
	var got, want []string
	phase := 0
	for _, s := range st {
		p := 3
		switch {
		case strings.HasPrefix(s, "DROP FOREIGN KEY "):
			p = 0
		case s == "DROP PRIMARY KEY":
			p = phase
			if p > 1 {
				return "wrong order at " + s
			}
		case strings.HasPrefix(s, "DROP INDEX "):
			p = 1
		case strings.HasPrefix(s, "DROP COLUMN "), strings.HasPrefix(s, "ADD COLUMN "), strings.HasPrefix(s, "CHANGE COLUMN "):
			p = 2
		case strings.HasPrefix(s, "ADD "):
			for _, x := range b.Idx {
				if d, _ := fmtIdx(x, ""); s == "ADD "+d && x.Kind == model.IndexKindForeignKey {
					p = 4
				}
			}
		default:
			return "unknown statement " + s
		}
		if p < phase {
			return "wrong order at " + s
		}
		phase = p
		if p != 2 {
			got = append(got, s)
		}
	}
	nm := func(x, y *string) string {
		if x != nil {
			return bq(*x)
		}
		return bq(*y)
	}
	for _, x := range a.Idx {
		if hasIdx(b.Idx, x) {
			continue
		}
		switch x.Kind {
		case model.IndexKindPrimaryKey:
			want = append(want, "DROP PRIMARY KEY")
		case model.IndexKindForeignKey:
			want = append(want, "DROP FOREIGN KEY "+nm(x.Sym, x.Name))
		default:
			want = append(want, "DROP INDEX "+nm(x.Name, x.Sym))
		}
	}
	for _, x := range b.Idx {
		if !hasIdx(a.Idx, x) {
			d, _ := fmtIdx(x, "")
			want = append(want, "ADD "+d)
		}
	}
	if !sameSet(got, want) {
		return fmt.Sprintf("index changes\nfound    %q\nexpected %q", got, want)
	}
	return ""
}
