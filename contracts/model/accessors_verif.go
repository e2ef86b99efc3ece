// Code generated by tools/gen_model_contracts.py. DO NOT EDIT.

package model

import g "github.com/schemalex/schemalex/internal/gocon"

// tableObs is everything the getters of a Table return.
type tableObs struct {
	Name          string
	IsTemporary   bool
	IsIfNotExists bool
	HasLikeTable  bool
	LikeTable     string
	ID            string
}

func obs_table(x Table) tableObs {
	return tableObs{
		Name:          x.Name(),
		IsTemporary:   x.IsTemporary(),
		IsIfNotExists: x.IsIfNotExists(),
		HasLikeTable:  x.HasLikeTable(),
		LikeTable:     x.LikeTable(),
		ID:            x.ID(),
	}
}

//gocon:contract (*table).SetTemporary
//gocon:props C11
//gocon:inline
func table_SetTemporary(x *table, v bool) {
	o := obs_table(x)
	columns := x.columns
	indexes := x.indexes
	options := x.options
	r := x.SetTemporary(v)
	o.IsTemporary = v
	g.Ensures("getters", obs_table(x) == o)
	g.Ensures("returns-receiver", r == Table(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.Ensures("list-indexes", g.Same(x.indexes, indexes))
	g.Ensures("list-options", g.Same(x.options, options))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*table).SetIfNotExists
//gocon:props C11
//gocon:inline
func table_SetIfNotExists(x *table, v bool) {
	o := obs_table(x)
	columns := x.columns
	indexes := x.indexes
	options := x.options
	r := x.SetIfNotExists(v)
	o.IsIfNotExists = v
	g.Ensures("getters", obs_table(x) == o)
	g.Ensures("returns-receiver", r == Table(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.Ensures("list-indexes", g.Same(x.indexes, indexes))
	g.Ensures("list-options", g.Same(x.options, options))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*table).SetLikeTable
//gocon:props C11
//gocon:inline
func table_SetLikeTable(x *table, v string) {
	o := obs_table(x)
	columns := x.columns
	indexes := x.indexes
	options := x.options
	r := x.SetLikeTable(v)
	o.HasLikeTable = true
	o.LikeTable = v
	g.Ensures("getters", obs_table(x) == o)
	g.Ensures("returns-receiver", r == Table(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.Ensures("list-indexes", g.Same(x.indexes, indexes))
	g.Ensures("list-options", g.Same(x.options, options))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*table).Columns
//gocon:props C11
func table_Columns(x *table) {
	c := x.Columns()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("unread", g.ChanHead(c) == 0)
	g.Ensures("count", g.ChanTail(c) == len(x.columns))
	g.Ensures("closed", g.ChanClosed(c))
	g.Ensures("each", g.Forall(0, len(x.columns), func(k int) bool { return g.Same(g.ChanAt(c, k), x.columns[k]) }))
	g.ModifiesOnly("frame")
}

//gocon:contract (*table).Indexes
//gocon:props C11
func table_Indexes(x *table) {
	c := x.Indexes()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("unread", g.ChanHead(c) == 0)
	g.Ensures("count", g.ChanTail(c) == len(x.indexes))
	g.Ensures("closed", g.ChanClosed(c))
	g.Ensures("each", g.Forall(0, len(x.indexes), func(k int) bool { return g.Same(g.ChanAt(c, k), x.indexes[k]) }))
	g.ModifiesOnly("frame")
}

//gocon:contract (*table).Options
//gocon:props C11
func table_Options(x *table) {
	c := x.Options()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("unread", g.ChanHead(c) == 0)
	g.Ensures("count", g.ChanTail(c) == len(x.options))
	g.Ensures("closed", g.ChanClosed(c))
	g.Ensures("each", g.Forall(0, len(x.options), func(k int) bool { return g.Same(g.ChanAt(c, k), x.options[k]) }))
	g.ModifiesOnly("frame")
}

// indexObs is everything the getters of a Index return.
type indexObs struct {
	HasType      bool
	HasName      bool
	HasSymbol    bool
	Name         string
	Symbol       string
	Reference    Reference
	IsBtree      bool
	IsHash       bool
	IsPrimaryKey bool
	IsNormal     bool
	IsUnique     bool
	IsFullText   bool
	IsSpatial    bool
	IsForeignKey bool
}

func obs_index(x Index) indexObs {
	return indexObs{
		HasType:      x.HasType(),
		HasName:      x.HasName(),
		HasSymbol:    x.HasSymbol(),
		Name:         x.Name(),
		Symbol:       x.Symbol(),
		Reference:    x.Reference(),
		IsBtree:      x.IsBtree(),
		IsHash:       x.IsHash(),
		IsPrimaryKey: x.IsPrimaryKey(),
		IsNormal:     x.IsNormal(),
		IsUnique:     x.IsUnique(),
		IsFullText:   x.IsFullText(),
		IsSpatial:    x.IsSpatial(),
		IsForeignKey: x.IsForeignKey(),
	}
}

//gocon:contract (*index).SetReference
//gocon:props C11
//gocon:inline
func index_SetReference(x *index, v Reference) {
	o := obs_index(x)
	columns := x.columns
	options := x.options
	r := x.SetReference(v)
	o.Reference = v
	g.Ensures("getters", obs_index(x) == o)
	g.Ensures("returns-receiver", r == Index(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.Ensures("list-options", g.Same(x.options, options))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*index).SetSymbol
//gocon:props C11
//gocon:inline
func index_SetSymbol(x *index, v string) {
	o := obs_index(x)
	columns := x.columns
	options := x.options
	r := x.SetSymbol(v)
	o.HasSymbol = true
	o.Symbol = v
	g.Ensures("getters", obs_index(x) == o)
	g.Ensures("returns-receiver", r == Index(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.Ensures("list-options", g.Same(x.options, options))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*index).SetName
//gocon:props C11
//gocon:inline
func index_SetName(x *index, v string) {
	o := obs_index(x)
	columns := x.columns
	options := x.options
	r := x.SetName(v)
	o.HasName = true
	o.Name = v
	g.Ensures("getters", obs_index(x) == o)
	g.Ensures("returns-receiver", r == Index(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.Ensures("list-options", g.Same(x.options, options))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*index).SetType
//gocon:props C11
//gocon:inline
func index_SetType(x *index, v IndexType) {
	o := obs_index(x)
	columns := x.columns
	options := x.options
	r := x.SetType(v)
	o.HasType = v != IndexTypeNone
	o.IsBtree = v == IndexTypeBtree
	o.IsHash = v == IndexTypeHash
	g.Ensures("getters", obs_index(x) == o)
	g.Ensures("returns-receiver", r == Index(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.Ensures("list-options", g.Same(x.options, options))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*index).Columns
//gocon:props C11
func index_Columns(x *index) {
	c := x.Columns()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("unread", g.ChanHead(c) == 0)
	g.Ensures("count", g.ChanTail(c) == len(x.columns))
	g.Ensures("closed", g.ChanClosed(c))
	g.Ensures("each", g.Forall(0, len(x.columns), func(k int) bool { return g.Same(g.ChanAt(c, k), x.columns[k]) }))
	g.ModifiesOnly("frame")
}

//gocon:contract (*index).Options
//gocon:props C11
func index_Options(x *index) {
	c := x.Options()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("unread", g.ChanHead(c) == 0)
	g.Ensures("count", g.ChanTail(c) == len(x.options))
	g.Ensures("closed", g.ChanClosed(c))
	g.Ensures("each", g.Forall(0, len(x.options), func(k int) bool { return g.Same(g.ChanAt(c, k), x.options[k]) }))
	g.ModifiesOnly("frame")
}

// indexColumnObs is everything the getters of a IndexColumn return.
type indexColumnObs struct {
	Name             string
	HasLength        bool
	Length           string
	HasSortDirection bool
	IsAscending      bool
	IsDescending     bool
}

func obs_indexColumn(x IndexColumn) indexColumnObs {
	return indexColumnObs{
		Name:             x.Name(),
		HasLength:        x.HasLength(),
		Length:           x.Length(),
		HasSortDirection: x.HasSortDirection(),
		IsAscending:      x.IsAscending(),
		IsDescending:     x.IsDescending(),
	}
}

//gocon:contract (*indexColumn).SetLength
//gocon:props C11
//gocon:inline
func indexColumn_SetLength(x *indexColumn, v string) {
	o := obs_indexColumn(x)
	r := x.SetLength(v)
	o.HasLength = true
	o.Length = v
	g.Ensures("getters", obs_indexColumn(x) == o)
	g.Ensures("returns-receiver", r == IndexColumn(x))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*indexColumn).SetSortDirection
//gocon:props C11
//gocon:inline
func indexColumn_SetSortDirection(x *indexColumn, v IndexColumnSortDirection) {
	o := obs_indexColumn(x)
	x.SetSortDirection(v)
	o.HasSortDirection = v != SortDirectionNone
	o.IsAscending = v == SortDirectionAscending
	o.IsDescending = v == SortDirectionDescending
	g.Ensures("getters", obs_indexColumn(x) == o)
	g.ModifiesOnly("frame", x)
}

// referenceObs is everything the getters of a Reference return.
type referenceObs struct {
	TableName    string
	OnDelete     ReferenceOption
	OnUpdate     ReferenceOption
	MatchFull    bool
	MatchPartial bool
	MatchSimple  bool
}

func obs_reference(x Reference) referenceObs {
	return referenceObs{
		TableName:    x.TableName(),
		OnDelete:     x.OnDelete(),
		OnUpdate:     x.OnUpdate(),
		MatchFull:    x.MatchFull(),
		MatchPartial: x.MatchPartial(),
		MatchSimple:  x.MatchSimple(),
	}
}

//gocon:contract (*reference).SetTableName
//gocon:props C11
//gocon:inline
func reference_SetTableName(x *reference, v string) {
	o := obs_reference(x)
	columns := x.columns
	r := x.SetTableName(v)
	o.TableName = v
	g.Ensures("getters", obs_reference(x) == o)
	g.Ensures("returns-receiver", r == Reference(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*reference).SetMatch
//gocon:props C11
//gocon:inline
func reference_SetMatch(x *reference, v ReferenceMatch) {
	o := obs_reference(x)
	columns := x.columns
	r := x.SetMatch(v)
	o.MatchFull = v == ReferenceMatchFull
	o.MatchPartial = v == ReferenceMatchPartial
	o.MatchSimple = v == ReferenceMatchSimple
	g.Ensures("getters", obs_reference(x) == o)
	g.Ensures("returns-receiver", r == Reference(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*reference).SetOnDelete
//gocon:props C11
//gocon:inline
func reference_SetOnDelete(x *reference, v ReferenceOption) {
	o := obs_reference(x)
	columns := x.columns
	r := x.SetOnDelete(v)
	o.OnDelete = v
	g.Ensures("getters", obs_reference(x) == o)
	g.Ensures("returns-receiver", r == Reference(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*reference).SetOnUpdate
//gocon:props C11
//gocon:inline
func reference_SetOnUpdate(x *reference, v ReferenceOption) {
	o := obs_reference(x)
	columns := x.columns
	r := x.SetOnUpdate(v)
	o.OnUpdate = v
	g.Ensures("getters", obs_reference(x) == o)
	g.Ensures("returns-receiver", r == Reference(x))
	g.Ensures("list-columns", g.Same(x.columns, columns))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*reference).Columns
//gocon:props C11
func reference_Columns(x *reference) {
	c := x.Columns()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("unread", g.ChanHead(c) == 0)
	g.Ensures("count", g.ChanTail(c) == len(x.columns))
	g.Ensures("closed", g.ChanClosed(c))
	g.Ensures("each", g.Forall(0, len(x.columns), func(k int) bool { return g.Same(g.ChanAt(c, k), x.columns[k]) }))
	g.ModifiesOnly("frame")
}

// lengthObs is everything the getters of a Length return.
type lengthObs struct {
	HasDecimal bool
	Decimal    string
	Length     string
}

func obs_length(x Length) lengthObs {
	return lengthObs{
		HasDecimal: x.HasDecimal(),
		Decimal:    x.Decimal(),
		Length:     x.Length(),
	}
}

//gocon:contract (*length).SetDecimal
//gocon:props C11
//gocon:inline
func length_SetDecimal(x *length, v string) {
	o := obs_length(x)
	r := x.SetDecimal(v)
	o.HasDecimal = true
	o.Decimal = v
	g.Ensures("getters", obs_length(x) == o)
	g.Ensures("returns-receiver", r == Length(x))
	g.ModifiesOnly("frame", x)
}

// databaseObs is everything the getters of a Database return.
type databaseObs struct {
	Name          string
	IsIfNotExists bool
	ID            string
}

func obs_database(x Database) databaseObs {
	return databaseObs{
		Name:          x.Name(),
		IsIfNotExists: x.IsIfNotExists(),
		ID:            x.ID(),
	}
}

//gocon:contract (*database).SetIfNotExists
//gocon:props C11
//gocon:inline
func database_SetIfNotExists(x *database, v bool) {
	o := obs_database(x)
	r := x.SetIfNotExists(v)
	o.IsIfNotExists = v
	g.Ensures("getters", obs_database(x) == o)
	g.Ensures("returns-receiver", r == Database(x))
	g.ModifiesOnly("frame", x)
}

// tablecolObs is everything the getters of a TableColumn return.
type tablecolObs struct {
	ID              string
	TableID         string
	Name            string
	Type            ColumnType
	HasLength       bool
	Length          Length
	HasCharacterSet bool
	CharacterSet    string
	HasCollation    bool
	Collation       string
	HasDefault      bool
	Default         string
	IsQuotedDefault bool
	HasComment      bool
	Comment         string
	HasAutoUpdate   bool
	AutoUpdate      string
	HasEnumValues   bool
	HasSetValues    bool
	NullState       NullState
	IsAutoIncrement bool
	IsBinary        bool
	IsKey           bool
	IsPrimary       bool
	IsUnique        bool
	IsUnsigned      bool
	IsZeroFill      bool
}

func obs_tablecol(x TableColumn) tablecolObs {
	return tablecolObs{
		ID:              x.ID(),
		TableID:         x.TableID(),
		Name:            x.Name(),
		Type:            x.Type(),
		HasLength:       x.HasLength(),
		Length:          x.Length(),
		HasCharacterSet: x.HasCharacterSet(),
		CharacterSet:    x.CharacterSet(),
		HasCollation:    x.HasCollation(),
		Collation:       x.Collation(),
		HasDefault:      x.HasDefault(),
		Default:         x.Default(),
		IsQuotedDefault: x.IsQuotedDefault(),
		HasComment:      x.HasComment(),
		Comment:         x.Comment(),
		HasAutoUpdate:   x.HasAutoUpdate(),
		AutoUpdate:      x.AutoUpdate(),
		HasEnumValues:   x.HasEnumValues(),
		HasSetValues:    x.HasSetValues(),
		NullState:       x.NullState(),
		IsAutoIncrement: x.IsAutoIncrement(),
		IsBinary:        x.IsBinary(),
		IsKey:           x.IsKey(),
		IsPrimary:       x.IsPrimary(),
		IsUnique:        x.IsUnique(),
		IsUnsigned:      x.IsUnsigned(),
		IsZeroFill:      x.IsZeroFill(),
	}
}

//gocon:contract (*tablecol).SetTableID
//gocon:props C11
//gocon:inline
func tablecol_SetTableID(x *tablecol, v string) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetTableID(v)
	o.TableID = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetType
//gocon:props C11
//gocon:inline
func tablecol_SetType(x *tablecol, v ColumnType) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetType(v)
	o.Type = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetLength
//gocon:props C11
//gocon:inline
func tablecol_SetLength(x *tablecol, v Length) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetLength(v)
	o.HasLength = v != nil
	o.Length = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetCharacterSet
//gocon:props C11
//gocon:inline
func tablecol_SetCharacterSet(x *tablecol, v string) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetCharacterSet(v)
	o.HasCharacterSet = true
	o.CharacterSet = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetCollation
//gocon:props C11
//gocon:inline
func tablecol_SetCollation(x *tablecol, v string) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetCollation(v)
	o.HasCollation = true
	o.Collation = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetDefault
//gocon:props C11
//gocon:inline
func tablecol_SetDefault(x *tablecol, v string, q bool) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetDefault(v, q)
	o.HasDefault = true
	o.Default = v
	o.IsQuotedDefault = q
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetComment
//gocon:props C11
//gocon:inline
func tablecol_SetComment(x *tablecol, v string) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetComment(v)
	o.HasComment = true
	o.Comment = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetAutoUpdate
//gocon:props C11
//gocon:inline
func tablecol_SetAutoUpdate(x *tablecol, v string) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetAutoUpdate(v)
	o.HasAutoUpdate = true
	o.AutoUpdate = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetEnumValues
//gocon:props C11
//gocon:inline
func tablecol_SetEnumValues(x *tablecol, v []string) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetEnumValues(v)
	o.HasEnumValues = len(v) != 0
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, v) && len(enumValues) >= 0)
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetSetValues
//gocon:props C11
//gocon:inline
func tablecol_SetSetValues(x *tablecol, v []string) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetSetValues(v)
	o.HasSetValues = len(v) != 0
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, v) && len(setValues) >= 0)
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetNullState
//gocon:props C11
//gocon:inline
func tablecol_SetNullState(x *tablecol, v NullState) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetNullState(v)
	o.NullState = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetAutoIncrement
//gocon:props C11
//gocon:inline
func tablecol_SetAutoIncrement(x *tablecol, v bool) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetAutoIncrement(v)
	o.IsAutoIncrement = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetBinary
//gocon:props C11
//gocon:inline
func tablecol_SetBinary(x *tablecol, v bool) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetBinary(v)
	o.IsBinary = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetKey
//gocon:props C11
//gocon:inline
func tablecol_SetKey(x *tablecol, v bool) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetKey(v)
	o.IsKey = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetPrimary
//gocon:props C11
//gocon:inline
func tablecol_SetPrimary(x *tablecol, v bool) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetPrimary(v)
	o.IsPrimary = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetUnique
//gocon:props C11
//gocon:inline
func tablecol_SetUnique(x *tablecol, v bool) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetUnique(v)
	o.IsUnique = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetUnsigned
//gocon:props C11
//gocon:inline
func tablecol_SetUnsigned(x *tablecol, v bool) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetUnsigned(v)
	o.IsUnsigned = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).SetZeroFill
//gocon:props C11
//gocon:inline
func tablecol_SetZeroFill(x *tablecol, v bool) {
	o := obs_tablecol(x)
	enumValues := x.enumValues
	setValues := x.setValues
	r := x.SetZeroFill(v)
	o.IsZeroFill = v
	g.Ensures("getters", obs_tablecol(x) == o)
	g.Ensures("returns-receiver", r == TableColumn(x))
	g.Ensures("list-enumValues", g.Same(x.enumValues, enumValues))
	g.Ensures("list-setValues", g.Same(x.setValues, setValues))
	g.ModifiesOnly("frame", x)
}

//gocon:contract (*tablecol).EnumValues
//gocon:props C11
func tablecol_EnumValues(x *tablecol) {
	c := x.EnumValues()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("unread", g.ChanHead(c) == 0)
	g.Ensures("count", g.ChanTail(c) == len(x.enumValues))
	g.Ensures("closed", g.ChanClosed(c))
	g.Ensures("each", g.Forall(0, len(x.enumValues), func(k int) bool { return g.Same(g.ChanAt(c, k), x.enumValues[k]) }))
	g.ModifiesOnly("frame")
}

//gocon:contract (*tablecol).SetValues
//gocon:props C11
func tablecol_SetValues(x *tablecol) {
	c := x.SetValues()
	g.Ensures("fresh", g.Fresh(c))
	g.Ensures("unread", g.ChanHead(c) == 0)
	g.Ensures("count", g.ChanTail(c) == len(x.setValues))
	g.Ensures("closed", g.ChanClosed(c))
	g.Ensures("each", g.Forall(0, len(x.setValues), func(k int) bool { return g.Same(g.ChanAt(c, k), x.setValues[k]) }))
	g.ModifiesOnly("frame")
}

// tableoptObs is everything the getters of a TableOption return.
type tableoptObs struct {
	Key        string
	Value      string
	NeedQuotes bool
	ID         string
}

func obs_tableopt(x TableOption) tableoptObs {
	return tableoptObs{
		Key:        x.Key(),
		Value:      x.Value(),
		NeedQuotes: x.NeedQuotes(),
		ID:         x.ID(),
	}
}

// indexoptObs is everything the getters of a IndexOption return.
type indexoptObs struct {
	Key        string
	Value      string
	NeedQuotes bool
	ID         string
}

func obs_indexopt(x IndexOption) indexoptObs {
	return indexoptObs{
		Key:        x.Key(),
		Value:      x.Value(),
		NeedQuotes: x.NeedQuotes(),
		ID:         x.ID(),
	}
}
