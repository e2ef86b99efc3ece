package diff

import (
	"bytes"
	"io"
	"reflect"

	"github.com/deckarep/golang-set"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/internal/errors"
	g "github.com/schemalex/schemalex/internal/gocon"
	"github.com/schemalex/schemalex/internal/util"
	"github.com/schemalex/schemalex/model"
)

// ---- the fixed order of a set

// sameOrder is ghost code: two ascending lists of the members of a set are
// the same list.
func sameOrder(set mapset.Set, l []string) {
	for k := 0; k < len(l); k++ {
	}
}

//gocon:contract sameOrder
//gocon:props C15 C16 C17
func sameOrder_(set mapset.Set, l []string) {
	g.SetLess("", set, set)
	g.Requires(len(l) == g.SetLen("", set, set))
	g.Requires(g.Forall(0, len(l), func(k int) bool { return g.SetHas(set, l[k]) }))
	g.Requires(g.ForallStr(func(s string) bool {
		return g.Implies(g.SetHas(set, s), g.Exists(0, len(l), func(k int) bool { return l[k] == s }))
	}))
	g.Requires(g.Forall(0, len(l), func(k int) bool {
		return g.Forall(k+1, len(l), func(j int) bool { return l[k] < l[j] })
	}))
	g.Inv(func(k int) bool {
		return g.Forall(0, k, func(j int) bool { return l[j] == g.SetAt("", set, set, j) })
	})
	sameOrder(set, l)
	g.Ensures("same", g.Forall(0, len(l), func(k int) bool { return l[k] == g.SetAt("", set, set, k) }))
}

//gocon:contract sortedIDs
//gocon:props C15 C16 C17
func sortedIDs_(set mapset.Set) {
	g.Requires(set != nil)
	l := sortedIDs(set)
	g.Ensures("length", len(l) == g.SetLen("", set, set))
	g.Ensures("members", g.Forall(0, len(l), func(k int) bool { return g.SetHas(set, l[k]) }))
	g.Ensures("all", g.ForallStr(func(s string) bool {
		return g.Implies(g.SetHas(set, s), g.Exists(0, len(l), func(k int) bool { return l[k] == s }))
	}))
	g.Ensures("ascending", g.Forall(0, len(l), func(k int) bool {
		return g.Forall(k+1, len(l), func(j int) bool { return l[k] < l[j] })
	}))
	sameOrder(set, l)
	g.SliceIs("order", l, g.SetLen("", set, set), func(k int) string { return g.SetAt("", set, set, k) })
}

// ---- what holds of the two schemas

// stmtsOK: the statements are tables, which have the representation
// invariant of tables, and databases.
func stmtsOK(l model.Stmts) bool {
	return g.Forall(0, len(l), func(k int) bool {
		switch s := l[k].(type) {
		case model.Table:
			return model.SpecTableWF(s)
		case model.Database:
			return true
		}
		return false
	})
}

// hasTable: a table with this ID is in the schema.
func hasTable(l model.Stmts, id string) bool {
	return g.Exists(0, len(l), func(k int) bool {
		_, is := l[k].(model.Table)
		return is && l[k].ID() == id
	})
}

func ctxOK(c *diffCtx) bool {
	return c != nil && c.fromSet != nil && c.toSet != nil && stmtsOK(c.from) && stmtsOK(c.to) &&
		g.SetSame(c.fromSet, tableIDs(c.from)) && g.SetSame(c.toSet, tableIDs(c.to)) &&
		g.ForallStr(func(s string) bool { return g.SetHas(c.fromSet, s) == hasTable(c.from, s) }) &&
		g.ForallStr(func(s string) bool { return g.SetHas(c.toSet, s) == hasTable(c.to, s) })
}

// tableIDs: the IDs of the tables of a schema.
func tableIDs(l model.Stmts) interface{} {
	return g.SetOf(len(l), func(k int) (bool, string) {
		_, is := l[k].(model.Table)
		return is, l[k].ID()
	})
}

//gocon:contract newDiffCtx
//gocon:fields
//gocon:props C15
func newDiffCtx_(from, to model.Stmts) {
	g.Requires(stmtsOK(from) && stmtsOK(to))
	c := newDiffCtx(from, to)
	g.Ensures("schemas", c != nil && g.Same(c.from, from) && g.Same(c.to, to) && c.fromSet != nil && c.toSet != nil)
	g.SetIs("old-tables", c.fromSet, tableIDs(from))
	g.SetIs("new-tables", c.toSet, tableIDs(to))
}

func newline(k int) string {
	if k > 0 {
		return "\n"
	}
	return ""
}

// ---- tables that only one schema has

func dropTablesText(l model.Stmts, from, to interface{}) string {
	return g.Concat(g.SetLen("-", from, to), func(k int) string {
		s, _ := l.Lookup(g.SetAt("-", from, to, k))
		return newline(k) + "DROP TABLE " + util.Backquote(s.(model.Table).Name()) + ";"
	})
}

//gocon:contract dropTables
//gocon:props C15 C22
func dropTables_(c *diffCtx, dst io.Writer) {
	g.Requires(ctxOK(c) && dst != nil)
	old, failed := g.Written(dst), g.ExtFail()
	text := dropTablesText(c.from, c.fromSet, c.toSet)
	n, err := dropTables(c, dst)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text && n == int64(len(text))))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(err != nil, g.ExtFail()))
}

func createTablesText(l model.Stmts, from, to interface{}) string {
	return g.Concat(g.SetLen("-", to, from), func(k int) string {
		s, _ := l.Lookup(g.SetAt("-", to, from, k))
		return newline(k) + format.SpecText("", s) + ";"
	})
}

func createTablesOK(l model.Stmts, from, to interface{}) bool {
	return g.Forall(0, g.SetLen("-", to, from), func(k int) bool {
		s, _ := l.Lookup(g.SetAt("-", to, from, k))
		return format.SpecOK(s)
	})
}

//gocon:contract createTables
//gocon:props C15 C22
func createTables_(c *diffCtx, dst io.Writer) {
	g.Requires(ctxOK(c) && dst != nil)
	old, failed := g.Written(dst), g.ExtFail()
	text, ok := createTablesText(c.to, c.fromSet, c.toSet), createTablesOK(c.to, c.fromSet, c.toSet)
	n, err := createTables(c, dst)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text && n == int64(len(text))))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// ---- two versions of a table

// hasColumn, hasIndex: a column, an index with this ID is in the table.
func hasColumn(t model.Table, id string) bool {
	cols := model.SpecColumns(t)
	return g.Exists(0, len(cols), func(k int) bool { return cols[k].ID() == id })
}

func hasIndex(t model.Table, id string) bool {
	l := model.SpecIndexes(t)
	return g.Exists(0, len(l), func(k int) bool { return l[k].ID() == id })
}

func alterOK(c *alterCtx) bool {
	return c != nil && c.fromColumns != nil && c.toColumns != nil && c.fromIndexes != nil && c.toIndexes != nil &&
		model.SpecTableWF(c.from) && model.SpecTableWF(c.to) &&
		g.SetSame(c.fromColumns, columnIDs(c.from)) && g.SetSame(c.toColumns, columnIDs(c.to)) &&
		g.SetSame(c.fromIndexes, indexIDs(c.from)) && g.SetSame(c.toIndexes, indexIDs(c.to))
}

// columnIDs, indexIDs: the IDs of the columns, of the indexes of a table.
func columnIDs(t model.Table) interface{} {
	l := model.SpecColumns(t)
	return g.SetOf(len(l), func(k int) (bool, string) { return true, l[k].ID() })
}

func indexIDs(t model.Table) interface{} {
	l := model.SpecIndexes(t)
	return g.SetOf(len(l), func(k int) (bool, string) { return true, l[k].ID() })
}

//gocon:contract newAlterCtx
//gocon:fields
//gocon:props C16 C17
func newAlterCtx_(from, to model.Table) {
	g.Requires(model.SpecTableWF(from) && model.SpecTableWF(to))
	c := newAlterCtx(from, to)
	g.Ensures("tables", c != nil && g.Same(c.from, from) && g.Same(c.to, to) && c.fromColumns != nil && c.toColumns != nil && c.fromIndexes != nil && c.toIndexes != nil)
	g.SetIs("old-columns", c.fromColumns, columnIDs(from))
	g.SetIs("new-columns", c.toColumns, columnIDs(to))
	g.SetIs("old-indexes", c.fromIndexes, indexIDs(from))
	g.SetIs("new-indexes", c.toIndexes, indexIDs(to))
}

func alterTable(t model.Table) string { return "ALTER TABLE " + util.Backquote(t.Name()) }

// What each step writes for a table that both schemas have, and whether it can.

//gocon:named
func dropIndexesPart(a, b model.Table) string { return dropIndexesText(a, indexIDs(a), indexIDs(b)) }

//gocon:named
func dropColumnsPart(a, b model.Table) string { return dropColumnsText(a, columnIDs(a), columnIDs(b)) }

//gocon:named
func changeColumnsPart(a, b model.Table) string {
	return changeColumnsText(a, b, columnIDs(a), columnIDs(b))
}

//gocon:named
func addIndexesPart(a, b model.Table) string { return addIndexesText(a, b, indexIDs(a), indexIDs(b)) }

//gocon:named
func canDropIndexes(a, b model.Table) bool { return dropIndexesOK(a, indexIDs(a), indexIDs(b)) }

//gocon:named
func canChangeColumns(a, b model.Table) bool {
	return changeColumnsOK(a, b, columnIDs(a), columnIDs(b))
}

//gocon:named
func canAddIndexes(a, b model.Table) bool { return addIndexesOK(b, indexIDs(a), indexIDs(b)) }

// ---- columns

func dropColumnsText(t model.Table, from, to interface{}) string {
	return g.Concat(g.SetLen("-", from, to), func(k int) string {
		col, _ := t.LookupColumn(g.SetAt("-", from, to, k))
		return newline(k) + alterTable(t) + " DROP COLUMN " + util.Backquote(col.Name()) + ";"
	})
}

//gocon:contract dropTableColumns
//gocon:props C16 C22
//gocon:elsewhere C15=C16 C17=C16 C18=C16
func dropTableColumns_(c *alterCtx, dst io.Writer) {
	g.Requires(alterOK(c) && dst != nil)
	old, failed := g.Written(dst), g.ExtFail()
	text := dropColumnsPart(c.from, c.to)
	n, err := dropTableColumns(c, dst)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text && n == int64(len(text))))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(err != nil, g.ExtFail()))
}

func addColumnText(old, t model.Table, id string) string {
	col, _ := t.LookupColumn(id)
	before, has := t.LookupColumnBefore(col.ID())
	text := alterTable(old) + " ADD COLUMN " + format.SpecText("", col)
	if has {
		return text + " AFTER " + util.Backquote(before.Name()) + ";"
	}
	return text + " FIRST;"
}

//gocon:contract writeAddColumn
//gocon:props C16 C22
//gocon:elsewhere C17=C16 C18=C16 C15=C16
func writeAddColumn_(c *alterCtx, buf *bytes.Buffer, ids ...string) {
	g.Requires(alterOK(c) && buf != nil)
	old, failed := g.Content(buf), g.ExtFail()
	text := g.Concat(len(ids), func(k int) string {
		return sep(k > 0 || old != "") + addColumnText(c.from, c.to, ids[k])
	})
	ok := g.Forall(0, len(ids), func(k int) bool {
		col, has := c.to.LookupColumn(ids[k])
		return has && format.SpecOK(col)
	})
	err := writeAddColumn(c, buf, ids...)
	g.Ensures("text", g.Implies(err == nil, g.Content(buf) == old+text))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// addTableColumns builds maps and sorts by a comparison function, which is
// outside the verifier's reach. Assumed of it is only that its output is a
// function of the two tables and that it reports the failures of the
// destination; what it writes is checked by the bounded stand-in.
func addColumnsText(old, t model.Table) string { return g.UF("addColumnsText", old, t) }
func addColumnsOK(old, t model.Table) bool     { return g.UF("addColumnsOK", old, t) == "" }

func addTableColumnsGhost(c *alterCtx, dst io.Writer) (int64, error) {
	if !addColumnsOK(c.from, c.to) {
		return 0, errors.Errorf("failed")
	}
	var buf bytes.Buffer
	buf.WriteString(addColumnsText(c.from, c.to))
	return buf.WriteTo(dst)
}

//gocon:contract addTableColumns
//gocon:props C16 C18 C22
//gocon:body addTableColumnsGhost
func addTableColumns_(c *alterCtx, dst io.Writer) {
	g.Requires(alterOK(c) && dst != nil)
	old, failed := g.Written(dst), g.ExtFail()
	text, ok := addColumnsText(c.from, c.to), addColumnsOK(c.from, c.to)
	n, err := addTableColumns(c, dst)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text && n == int64(len(text))))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// changed: the two versions of column k of those that both tables have differ
func changed(old, t model.Table, from, to interface{}, k int) bool {
	a, _ := old.LookupColumn(g.SetAt("&", to, from, k))
	b, _ := t.LookupColumn(g.SetAt("&", to, from, k))
	return !reflect.DeepEqual(a, b)
}

// equalColumns is ghost code: two columns are equal as reflect.DeepEqual
// sees it exactly if they have the same definition.
func equalColumns(a, b model.TableColumn) bool { return reflect.DeepEqual(a, b) }

//gocon:contract equalColumns
//gocon:props C16 C18
func equalColumns_(a, b model.TableColumn) {
	g.Requires(a != nil && b != nil)
	same := equalColumns(a, b)
	g.Ensures("definition", same == model.SpecSameColumn(a, b))
}

func changeColumnsText(old, t model.Table, from, to interface{}) string {
	n := g.SetLen("&", to, from)
	diff := func(k int) bool { return changed(old, t, from, to, k) }
	return g.Concat(n, func(k int) string {
		if !diff(k) {
			return ""
		}
		col, _ := t.LookupColumn(g.SetAt("&", to, from, k))
		return sep(g.Count(k, diff) > 0) + alterTable(old) + " CHANGE COLUMN " + util.Backquote(col.Name()) + " " + format.SpecText("", col) + ";"
	})
}

func changeColumnsOK(old, t model.Table, from, to interface{}) bool {
	return g.Forall(0, g.SetLen("&", to, from), func(k int) bool {
		col, _ := t.LookupColumn(g.SetAt("&", to, from, k))
		return !changed(old, t, from, to, k) || format.SpecOK(col)
	})
}

//gocon:contract alterTableColumns
//gocon:props C16 C22
//gocon:elsewhere C15=C16 C17=C16 C18=C16
func alterTableColumns_(c *alterCtx, dst io.Writer) {
	g.Requires(alterOK(c) && dst != nil)
	old, failed := g.Written(dst), g.ExtFail()
	text, ok := changeColumnsPart(c.from, c.to), canChangeColumns(c.from, c.to)
	n, err := alterTableColumns(c, dst)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text && n == int64(len(text))))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// ---- indexes

// indexName: what an index is dropped by
func indexName(i model.Index) string {
	if i.HasName() {
		return i.Name()
	}
	return i.Symbol()
}

func foreignName(i model.Index) string {
	if i.HasSymbol() {
		return i.Symbol()
	}
	return i.Name()
}

func sep(after bool) string {
	if after {
		return "\n"
	}
	return ""
}

// droppedFirst: primary keys and foreign keys are dropped before the indexes
// that foreign keys need
func droppedFirst(i model.Index) bool { return i.IsPrimaryKey() || i.IsForeignKey() }

func dropIndexesText(t model.Table, from, to interface{}) string {
	n := g.SetLen("-", from, to)
	at := func(k int) model.Index {
		i, _ := t.LookupIndex(g.SetAt("-", from, to, k))
		return i
	}
	first := func(k int) bool { return droppedFirst(at(k)) }
	later := func(k int) bool { return !droppedFirst(at(k)) }
	return g.Concat(n, func(k int) string {
		i := at(k)
		if i.IsPrimaryKey() {
			return sep(g.Count(k, first) > 0) + alterTable(t) + " DROP PRIMARY KEY;"
		}
		if i.IsForeignKey() {
			return sep(g.Count(k, first) > 0) + alterTable(t) + " DROP FOREIGN KEY " + util.Backquote(foreignName(i)) + ";"
		}
		return ""
	}) + g.Concat(g.Count(n, later), func(j int) string {
		i := at(g.Nth(j, later))
		return sep(j > 0 || g.Count(n, first) > 0) + alterTable(t) + " DROP INDEX " + util.Backquote(indexName(i)) + ";"
	})
}

// dropIndexesOK: an index that is dropped is found in its table and has a
// name to drop it by
func dropIndexesOK(t model.Table, from, to interface{}) bool {
	return g.Forall(0, g.SetLen("-", from, to), func(k int) bool {
		i, ok := t.LookupIndex(g.SetAt("-", from, to, k))
		return ok && (i.IsPrimaryKey() || i.HasName() || i.HasSymbol())
	})
}

//gocon:contract dropTableIndexes
//gocon:props C17 C22
//gocon:elsewhere C15=C17 C16=C17 C18=C17
func dropTableIndexes_(c *alterCtx, dst io.Writer) {
	g.Requires(alterOK(c) && dst != nil)
	old, failed := g.Written(dst), g.ExtFail()
	text, ok := dropIndexesPart(c.from, c.to), canDropIndexes(c.from, c.to)
	n, err := dropTableIndexes(c, dst)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text && n == int64(len(text))))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// addedFirst: foreign keys are added after the indexes, which they would
// otherwise create themselves
func addedFirst(i model.Index) bool { return !i.IsForeignKey() }

func addIndexText(t model.Table, i model.Index) string {
	return alterTable(t) + " ADD " + format.SpecText("", i) + ";"
}

func addIndexesText(old, t model.Table, from, to interface{}) string {
	n := g.SetLen("-", to, from)
	at := func(k int) model.Index {
		i, _ := t.LookupIndex(g.SetAt("-", to, from, k))
		return i
	}
	first := func(k int) bool { return addedFirst(at(k)) }
	later := func(k int) bool { return !addedFirst(at(k)) }
	return g.Concat(n, func(k int) string {
		if addedFirst(at(k)) {
			return sep(g.Count(k, first) > 0) + addIndexText(old, at(k))
		}
		return ""
	}) + g.Concat(g.Count(n, later), func(j int) string {
		return sep(j > 0 || g.Count(n, first) > 0) + addIndexText(old, at(g.Nth(j, later)))
	})
}

func addIndexesOK(t model.Table, from, to interface{}) bool {
	return g.Forall(0, g.SetLen("-", to, from), func(k int) bool {
		i, _ := t.LookupIndex(g.SetAt("-", to, from, k))
		return format.SpecOK(i)
	})
}

//gocon:contract addTableIndexes
//gocon:props C17 C22
//gocon:elsewhere C15=C17 C16=C17 C18=C17
func addTableIndexes_(c *alterCtx, dst io.Writer) {
	g.Requires(alterOK(c) && dst != nil)
	old, failed := g.Written(dst), g.ExtFail()
	text, ok := addIndexesPart(c.from, c.to), canAddIndexes(c.from, c.to)
	n, err := addTableIndexes(c, dst)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text && n == int64(len(text))))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// ---- tables that both schemas have

// joined puts what a step writes for a table on a line of its own.
func joined(s, t string) string {
	if len(s) > 0 && len(t) > 0 {
		return s + "\n" + t
	}
	return s + t
}

func tableOf(l model.Stmts, id string) model.Table {
	s, _ := l.Lookup(id)
	return s.(model.Table)
}

// alterText is what is written for the first n tables that both schemas have:
// indexes are dropped before columns, and added after them.
func alterText(from, to model.Stmts, n int) string {
	if n <= 0 {
		return ""
	}
	id := g.SetAt("&", tableIDs(to), tableIDs(from), n-1)
	a, b := tableOf(from, id), tableOf(to, id)
	text := alterText(from, to, n-1)
	text = joined(text, dropIndexesPart(a, b))
	text = joined(text, dropColumnsPart(a, b))
	text = joined(text, addColumnsText(a, b))
	text = joined(text, changeColumnsPart(a, b))
	return joined(text, addIndexesPart(a, b))
}

func alterTablesOK(from, to model.Stmts, fs, ts interface{}) bool {
	return g.Forall(0, g.SetLen("&", ts, fs), func(k int) bool {
		id := g.SetAt("&", ts, fs, k)
		_, old := from.Lookup(id)
		_, new := to.Lookup(id)
		a, b := tableOf(from, id), tableOf(to, id)
		return old && new && canDropIndexes(a, b) && addColumnsOK(a, b) && canChangeColumns(a, b) && canAddIndexes(a, b)
	})
}

//gocon:named
func alterTablesPart(from, to model.Stmts) string {
	return alterText(from, to, g.SetLen("&", tableIDs(to), tableIDs(from)))
}

//gocon:named
func canAlterTables(from, to model.Stmts) bool {
	return alterTablesOK(from, to, tableIDs(from), tableIDs(to))
}

//gocon:contract alterTables
//gocon:props C17
//gocon:elsewhere C15=C17 C16=C17 C18=C17 C22=C17
func alterTables_(c *diffCtx, dst io.Writer) {
	g.Requires(ctxOK(c) && dst != nil)
	old, failed := g.Written(dst), g.ExtFail()
	text, ok := alterTablesPart(c.from, c.to), canAlterTables(c.from, c.to)
	g.Inv(func(buf *bytes.Buffer, it int) bool { return g.Content(buf) == alterText(c.from, c.to, it) })
	n, err := alterTables(c, dst)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text && n == int64(len(text))))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// ---- the whole

// txnAfter: what the first n options ask for: the last one counts.
func txnAfter(options []Option, n int) bool {
	if n <= 0 {
		return false
	}
	if options[n-1].Name() == "transaction" {
		b, _ := options[n-1].Value().(bool)
		return b
	}
	return txnAfter(options, n-1)
}

// diffText: the parts that are not empty, with an empty line between them,
// inside a transaction if asked for.
func diffText(txn bool, from, to model.Stmts) string {
	t1 := dropTablesText(from, tableIDs(from), tableIDs(to))
	t2 := createTablesText(to, tableIDs(from), tableIDs(to))
	t3 := alterTablesPart(from, to)
	text := ""
	if txn {
		text = "\nBEGIN;\n\nSET FOREIGN_KEY_CHECKS = 0;"
	}
	if len(t1) > 0 {
		if txn {
			text += "\n\n"
		}
		text += t1
	}
	if len(t2) > 0 {
		if txn || len(t1) > 0 {
			text += "\n\n"
		}
		text += t2
	}
	if len(t3) > 0 {
		if txn || len(t1) > 0 || len(t2) > 0 {
			text += "\n\n"
		}
		text += t3
	}
	if txn {
		text += "\n\nSET FOREIGN_KEY_CHECKS = 1;\n\nCOMMIT;"
	}
	return text
}

//gocon:contract Statements
//gocon:props C15 C16 C17 C18 C22
func Statements_(dst io.Writer, from, to model.Stmts, options ...Option) {
	g.Requires(dst != nil && stmtsOK(from) && stmtsOK(to))
	g.Requires(g.Forall(0, len(options), func(k int) bool {
		if options[k] == nil {
			return false
		}
		_, isBool := options[k].Value().(bool)
		return options[k].Name() != "transaction" || isBool
	}))
	old, failed := g.Written(dst), g.ExtFail()
	text := diffText(txnAfter(options, len(options)), from, to)
	ok := createTablesOK(to, tableIDs(from), tableIDs(to)) && canAlterTables(from, to)
	g.Inv(func(txn bool, it int) bool { return txn == txnAfter(options, it) })
	err := Statements(dst, from, to, options...)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}
