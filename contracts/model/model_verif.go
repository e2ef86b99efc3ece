package model

import g "github.com/schemalex/schemalex/internal/gocon"

// ---- lists of tables, indexes, references

//gocon:contract (*table).AddIndex
//gocon:props C11
func table_AddIndex(t *table, v Index) {
	g.Requires(v != nil)
	o, n, old := obs_table(t), len(t.indexes), t.indexes
	r := t.AddIndex(v)
	g.Ensures("returns-receiver", r == Table(t))
	g.Ensures("count", len(t.indexes) == n+1)
	g.Ensures("last", t.indexes[n] == v)
	g.Ensures("kept", g.Forall(0, n, func(k int) bool { return g.Same(t.indexes[k], old[k]) }))
	g.Ensures("getters", obs_table(t) == o)
	g.ModifiesOnly("frame", t)
}

//gocon:contract (*table).AddOption
//gocon:props C11
func table_AddOption(t *table, v TableOption) {
	g.Requires(v != nil)
	o, n, old := obs_table(t), len(t.options), t.options
	r := t.AddOption(v)
	g.Ensures("returns-receiver", r == Table(t))
	g.Ensures("count", len(t.options) == n+1)
	g.Ensures("last", t.options[n] == v)
	g.Ensures("kept", g.Forall(0, n, func(k int) bool { return g.Same(t.options[k], old[k]) }))
	g.Ensures("getters", obs_table(t) == o)
	g.ModifiesOnly("frame", t)
}

//gocon:contract (*index).AddOption
//gocon:props C11
func index_AddOption(x *index, v IndexOption) {
	g.Requires(v != nil)
	o, n, old := obs_index(x), len(x.options), x.options
	r := x.AddOption(v)
	g.Ensures("returns-receiver", r == Index(x))
	g.Ensures("count", len(x.options) == n+1)
	g.Ensures("last", x.options[n] == v)
	g.Ensures("kept", g.Forall(0, n, func(k int) bool { return g.Same(x.options[k], old[k]) }))
	g.Ensures("getters", obs_index(x) == o)
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*index).AddColumns
//gocon:props C11
//gocon:inline
func index_AddColumns(x *index, l ...IndexColumn) {
	o, n, old := obs_index(x), len(x.columns), x.columns
	x.AddColumns(l...)
	g.Ensures("count", len(x.columns) == n+len(l))
	g.Ensures("added", g.Forall(0, len(l), func(k int) bool { return g.Same(x.columns[n+k], l[k]) }))
	g.Ensures("kept", g.Forall(0, n, func(k int) bool { return g.Same(x.columns[k], old[k]) }))
	g.Ensures("getters", obs_index(x) == o)
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*reference).AddColumns
//gocon:props C11
//gocon:inline
func reference_AddColumns(x *reference, l ...IndexColumn) {
	o, n, old := obs_reference(x), len(x.columns), x.columns
	x.AddColumns(l...)
	g.Ensures("count", len(x.columns) == n+len(l))
	g.Ensures("added", g.Forall(0, len(l), func(k int) bool { return g.Same(x.columns[n+k], l[k]) }))
	g.Ensures("kept", g.Forall(0, n, func(k int) bool { return g.Same(x.columns[k], old[k]) }))
	g.Ensures("getters", obs_reference(x) == o)
	g.ModifiesOnly("frame", x)
}

// ---- columns of a table and their lookup

// wfTable: the name table maps the ID of every column to the position of the
// last column with that ID.
func wfTable(t *table) bool { return wfMap(t) && wfCols(t) && wfNames(t) }

func wfMap(t *table) bool { return t.columnNameToIndex != nil }

func wfCols(t *table) bool {
	return g.Forall(0, len(t.columns), func(k int) bool {
		return t.columns[k] != nil && g.MapHas(t.columnNameToIndex, t.columns[k].ID()) && k <= t.columnNameToIndex[t.columns[k].ID()]
	})
}

func wfNames(t *table) bool {
	return g.ForallStr(func(s string) bool {
		return g.Implies(g.MapHas(t.columnNameToIndex, s), 0 <= t.columnNameToIndex[s] && t.columnNameToIndex[s] < len(t.columns) && t.columns[t.columnNameToIndex[s]].ID() == s)
	})
}

//gocon:contract NewTable
//gocon:props C11
//gocon:inline
func newTable(name string) {
	r := NewTable(name)
	t := r.(*table)
	g.Ensures("fresh", g.Fresh(t))
	g.Ensures("getters", obs_table(r) == tableObs{Name: name, ID: "table#" + name})
	g.Ensures("empty", len(t.columns) == 0 && len(t.indexes) == 0 && len(t.options) == 0)
	g.Ensures("wf", wfTable(t))
	g.ModifiesOnly("frame")
}

//gocon:contract (*table).AddColumn
//gocon:props C11
func table_AddColumn(t *table, v TableColumn) {
	g.Requires(wfTable(t) && v != nil)
	o, n, old, ov := obs_table(t), len(t.columns), t.columns, *(v.(*tablecol))
	r := t.AddColumn(v)
	g.Ensures("returns-receiver", r == Table(t))
	g.Ensures("count", len(t.columns) == n+1)
	g.Ensures("kept", g.Forall(0, n, func(k int) bool { return g.Same(t.columns[k], old[k]) }))
	w := t.columns[n]
	ov2 := ov
	ov2.tableID = t.ID()
	g.Ensures("added", g.Same(*(w.(*tablecol)), ov2))
	g.Ensures("independent", g.Implies(ov.tableID != "", g.Fresh(w) && g.Same(*(v.(*tablecol)), ov)))
	g.Ensures("same", g.Implies(ov.tableID == "", g.Same(v, w)))
	g.Ensures("getters", obs_table(t) == o)
	g.Ensures("wf-map", wfMap(t))
	g.Ensures("wf-columns", wfCols(t))
	g.Ensures("wf-names", wfNames(t))
}

//gocon:contract (*table).LookupColumn
//gocon:props C11
//gocon:pure
func table_LookupColumn(t *table, id string) {
	g.Requires(wfTable(t))
	c, ok := t.LookupColumn(id)
	g.Ensures("found", g.Implies(ok, g.Exists(0, len(t.columns), func(k int) bool {
		return g.Same(c, t.columns[k]) && t.columns[k].ID() == id &&
			g.Forall(k+1, len(t.columns), func(j int) bool { return t.columns[j].ID() != id })
	})))
	g.Ensures("not-found", g.Implies(!ok, c == nil && g.Forall(0, len(t.columns), func(k int) bool { return t.columns[k].ID() != id })))
	g.ModifiesOnly("frame")
}

//gocon:contract (*table).LookupColumnOrder
//gocon:props C11
//gocon:pure
func table_LookupColumnOrder(t *table, id string) {
	g.Requires(wfTable(t))
	i, ok := t.LookupColumnOrder(id)
	g.Ensures("found", g.Implies(ok, 0 <= i && i < len(t.columns) && t.columns[i].ID() == id && g.Forall(i+1, len(t.columns), func(j int) bool { return t.columns[j].ID() != id })))
	g.Ensures("not-found", g.Implies(!ok, g.Forall(0, len(t.columns), func(k int) bool { return t.columns[k].ID() != id })))
	g.ModifiesOnly("frame")
}

//gocon:contract (*table).LookupColumnBefore
//gocon:props C11
//gocon:pure
func table_LookupColumnBefore(t *table, id string) {
	g.Requires(wfTable(t))
	c, ok := t.LookupColumnBefore(id)
	g.Ensures("found", g.Implies(ok, g.Exists(1, len(t.columns), func(k int) bool {
		return g.Same(c, t.columns[k-1]) && t.columns[k].ID() == id && g.Forall(k+1, len(t.columns), func(j int) bool { return t.columns[j].ID() != id })
	})))
	g.Ensures("not-found", g.Implies(!ok, c == nil && g.Forall(1, len(t.columns), func(k int) bool {
		return g.Implies(t.columns[k].ID() == id, g.Exists(k+1, len(t.columns), func(j int) bool { return t.columns[j].ID() == id }))
	})))
	g.Ensures("object", g.Implies(ok, c != nil))
	g.ModifiesOnly("frame")
}

//gocon:contract (*table).LookupIndex
//gocon:props C11
//gocon:pure
func table_LookupIndex(t *table, id string) {
	c, ok := t.LookupIndex(id)
	g.Ensures("not-nil", g.Implies(ok, c != nil))
	g.Ensures("found", g.Implies(ok, g.Exists(0, len(t.indexes), func(k int) bool {
		return g.Same(c, t.indexes[k]) && t.indexes[k].ID() == id && g.Forall(0, k, func(j int) bool { return t.indexes[j].ID() != id })
	})))
	g.Ensures("not-found", g.Implies(!ok, c == nil && g.Forall(0, len(t.indexes), func(k int) bool { return t.indexes[k].ID() != id })))
}

// ---- constructors and copies

//gocon:contract NewTableColumn
//gocon:props C11
//gocon:inline
func newTableColumn(name string) {
	c := NewTableColumn(name)
	t := c.(*tablecol)
	g.Ensures("fresh", g.Fresh(t))
	g.Ensures("getters", obs_tablecol(c) == tablecolObs{Name: name, ID: "tablecol#" + name})
	g.Ensures("empty", len(t.enumValues) == 0 && len(t.setValues) == 0)
	g.ModifiesOnly("frame")
}

//gocon:contract (*tablecol).Clone
//gocon:props C11
//gocon:inline
func tablecol_Clone(t *tablecol) {
	o := *t
	c := t.Clone()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("copy", g.Same(*(c.(*tablecol)), o))
	g.Ensures("original", g.Same(*t, o))
	g.ModifiesOnly("frame")
}

//gocon:contract NewIndex
//gocon:props C11
//gocon:inline
func newIndex(kind IndexKind, table string) {
	c := NewIndex(kind, table)
	t := c.(*index)
	g.Ensures("fresh", g.Fresh(t))
	g.Ensures("getters", obs_index(c) == indexObs{IsPrimaryKey: kind == IndexKindPrimaryKey, IsNormal: kind == IndexKindNormal, IsUnique: kind == IndexKindUnique, IsFullText: kind == IndexKindFullText, IsSpatial: kind == IndexKindSpatial, IsForeignKey: kind == IndexKindForeignKey})
	g.Ensures("empty", len(t.columns) == 0 && len(t.options) == 0)
	g.ModifiesOnly("frame")
}

//gocon:contract (*index).Clone
//gocon:props C11
//gocon:inline
func index_Clone(t *index) {
	o := *t
	c := t.Clone()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("copy", g.Same(*(c.(*index)), o))
	g.ModifiesOnly("frame")
}

//gocon:contract NewIndexColumn
//gocon:props C11
//gocon:inline
func newIndexColumn(name string) {
	c := NewIndexColumn(name)
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("getters", obs_indexColumn(c) == indexColumnObs{Name: name})
	g.ModifiesOnly("frame")
}

//gocon:contract NewIndexOption
//gocon:props C11
//gocon:inline
func newIndexOption(k, v string, q bool) {
	c := NewIndexOption(k, v, q)
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("getters", obs_indexopt(c) == indexoptObs{Key: k, Value: v, NeedQuotes: q, ID: "indexopt#" + k})
	g.ModifiesOnly("frame")
}

//gocon:contract NewTableOption
//gocon:props C11
//gocon:inline
func newTableOption(k, v string, q bool) {
	c := NewTableOption(k, v, q)
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("getters", obs_tableopt(c) == tableoptObs{Key: k, Value: v, NeedQuotes: q, ID: "tableopt#" + k})
	g.ModifiesOnly("frame")
}

//gocon:contract NewReference
//gocon:props C11
//gocon:inline
func newReference() {
	c := NewReference()
	t := c.(*reference)
	g.Ensures("fresh", g.Fresh(t))
	g.Ensures("getters", obs_reference(c) == referenceObs{})
	g.Ensures("empty", len(t.columns) == 0)
	g.ModifiesOnly("frame")
}

//gocon:contract NewLength
//gocon:props C11
//gocon:inline
func newLength(v string) {
	c := NewLength(v)
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("getters", obs_length(c) == lengthObs{Length: v})
	g.ModifiesOnly("frame")
}

//gocon:contract NewDatabase
//gocon:props C11
//gocon:inline
func newDatabase(n string) {
	c := NewDatabase(n)
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("getters", obs_database(c) == databaseObs{Name: n, ID: "database#" + n})
	g.ModifiesOnly("frame")
}

//gocon:contract (Stmts).Lookup
//gocon:props C11
//gocon:pure
func stmts_Lookup(s Stmts, id string) {
	c, ok := s.Lookup(id)
	g.Ensures("found", g.Implies(ok, g.Exists(0, len(s), func(k int) bool {
		return g.Same(c, s[k]) && s[k].ID() == id && g.Forall(0, k, func(j int) bool { return s[j].ID() != id })
	})))
	g.Ensures("not-found", g.Implies(!ok, c == nil && g.Forall(0, len(s), func(k int) bool { return s[k].ID() != id })))
}

// ---- views for the contracts of other packages

func SpecEnumValues(c TableColumn) []string  { return c.(*tablecol).enumValues }
func SpecSetValues(c TableColumn) []string   { return c.(*tablecol).setValues }
func SpecColumns(t Table) []TableColumn      { return t.(*table).columns }
func SpecIndexes(t Table) []Index            { return t.(*table).indexes }
func SpecOptions(t Table) []TableOption      { return t.(*table).options }
func SpecIndexColumns(x Index) []IndexColumn { return x.(*index).columns }
func SpecIndexOptions(x Index) []IndexOption { return x.(*index).options }
func SpecRefColumns(x Reference) []IndexColumn {
	return x.(*reference).columns
}

// ---- names of types

//gocon:contract (ColumnType).String
//gocon:props C12
//gocon:pure
//gocon:opaque
func columnType_String(c ColumnType) {
	r := c.String()
	g.Ensures("name", r == columnTypeName(c))
	g.ModifiesOnly("frame")
}

// columnTypeName is the SQL name of a type.
func columnTypeName(c ColumnType) string {
	switch c {
	case ColumnTypeBit:
		return "BIT"
	case ColumnTypeTinyInt:
		return "TINYINT"
	case ColumnTypeSmallInt:
		return "SMALLINT"
	case ColumnTypeMediumInt:
		return "MEDIUMINT"
	case ColumnTypeInt:
		return "INT"
	case ColumnTypeInteger:
		return "INTEGER"
	case ColumnTypeBigInt:
		return "BIGINT"
	case ColumnTypeReal:
		return "REAL"
	case ColumnTypeDouble:
		return "DOUBLE"
	case ColumnTypeFloat:
		return "FLOAT"
	case ColumnTypeDecimal:
		return "DECIMAL"
	case ColumnTypeNumeric:
		return "NUMERIC"
	case ColumnTypeDate:
		return "DATE"
	case ColumnTypeTime:
		return "TIME"
	case ColumnTypeTimestamp:
		return "TIMESTAMP"
	case ColumnTypeDateTime:
		return "DATETIME"
	case ColumnTypeYear:
		return "YEAR"
	case ColumnTypeChar:
		return "CHAR"
	case ColumnTypeVarChar:
		return "VARCHAR"
	case ColumnTypeBinary:
		return "BINARY"
	case ColumnTypeVarBinary:
		return "VARBINARY"
	case ColumnTypeTinyBlob:
		return "TINYBLOB"
	case ColumnTypeBlob:
		return "BLOB"
	case ColumnTypeMediumBlob:
		return "MEDIUMBLOB"
	case ColumnTypeLongBlob:
		return "LONGBLOB"
	case ColumnTypeTinyText:
		return "TINYTEXT"
	case ColumnTypeText:
		return "TEXT"
	case ColumnTypeMediumText:
		return "MEDIUMTEXT"
	case ColumnTypeLongText:
		return "LONGTEXT"
	case ColumnTypeEnum:
		return "ENUM"
	case ColumnTypeSet:
		return "SET"
	case ColumnTypeBoolean:
		return "BOOLEAN"
	case ColumnTypeBool:
		return "BOOL"
	case ColumnTypeJSON:
		return "JSON"
	case ColumnTypeGEOMETRY:
		return "GEOMETRY"
	}
	return "(invalid)"
}

// SpecTableWF is the representation invariant of tables: every table that
// was made by NewTable and changed by its methods has it.
func SpecTableWF(t Table) bool {
	x, ok := t.(*table)
	return ok && x != nil && wfTable(x)
}

// SpecSameColumn: the two columns have the same definition: all attributes,
// the written length and the lists of values are the same.
func SpecSameColumn(c, d TableColumn) bool {
	a, b := c.(*tablecol), d.(*tablecol)
	return g.Atom(a.tableID == b.tableID && a.name == b.name && a.typ == b.typ && sameLength(a.length, b.length) &&
		a.nullstate == b.nullstate && a.charset == b.charset && a.collation == b.collation &&
		a.defaultValue == b.defaultValue && a.comment == b.comment && a.autoUpdate == b.autoUpdate &&
		g.SameList(a.enumValues, b.enumValues) && g.SameList(a.setValues, b.setValues) &&
		a.autoincr == b.autoincr && a.binary == b.binary && a.key == b.key && a.primary == b.primary &&
		a.unique == b.unique && a.unsigned == b.unsigned && a.fulltext == b.fulltext && a.zerofill == b.zerofill)
}

func sameLength(x, y Length) bool {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	a, b := x.(*length), y.(*length)
	return a.length == b.length && a.decimals == b.decimals
}
