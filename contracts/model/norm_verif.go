package model

import g "github.com/schemalex/schemalex/internal/gocon"

// ---- normalization of columns

// baseType is the type that typ is another name of.
func baseType(typ ColumnType) ColumnType {
	switch typ {
	case ColumnTypeBool, ColumnTypeBoolean:
		return ColumnTypeTinyInt
	case ColumnTypeInteger:
		return ColumnTypeInt
	case ColumnTypeNumeric:
		return ColumnTypeDecimal
	case ColumnTypeReal:
		return ColumnTypeDouble
	}
	return typ
}

// displayLength is the length that a column of the type has if none is written.
func displayLength(typ ColumnType, unsigned bool) string {
	switch typ {
	case ColumnTypeBool, ColumnTypeBoolean:
		return "1"
	case ColumnTypeTinyInt:
		if unsigned {
			return "3"
		}
		return "4"
	case ColumnTypeSmallInt:
		if unsigned {
			return "5"
		}
		return "6"
	case ColumnTypeMediumInt:
		if unsigned {
			return "8"
		}
		return "9"
	case ColumnTypeInt, ColumnTypeInteger:
		if unsigned {
			return "10"
		}
		return "11"
	case ColumnTypeBigInt:
		return "20"
	case ColumnTypeDecimal, ColumnTypeNumeric:
		return "10"
	}
	return ""
}

func isDecimal(typ ColumnType) bool { return typ == ColumnTypeDecimal || typ == ColumnTypeNumeric }

func isBool(typ ColumnType) bool { return typ == ColumnTypeBool || typ == ColumnTypeBoolean }

func isNumeric(typ ColumnType) bool {
	switch typ {
	case ColumnTypeBool, ColumnTypeBoolean, ColumnTypeTinyInt, ColumnTypeSmallInt, ColumnTypeMediumInt, ColumnTypeInt, ColumnTypeInteger, ColumnTypeBigInt,
		ColumnTypeFloat, ColumnTypeDouble, ColumnTypeReal, ColumnTypeDecimal, ColumnTypeNumeric:
		return true
	}
	return false
}

// mayDefault: columns of the type may have a default value
func mayDefault(typ ColumnType) bool {
	switch typ {
	case ColumnTypeTinyText, ColumnTypeText, ColumnTypeMediumText, ColumnTypeLongText, ColumnTypeTinyBlob, ColumnTypeBlob, ColumnTypeMediumBlob, ColumnTypeLongBlob:
		return false
	}
	return true
}

func normalDefault(c tablecol) defaultValue {
	if !c.defaultValue.Valid {
		if c.nullstate != NullStateNotNull && mayDefault(c.typ) {
			return defaultValue{Valid: true, Value: "NULL"}
		}
		return c.defaultValue
	}
	d := c.defaultValue
	if isBool(c.typ) && d.Value == "TRUE" {
		return defaultValue{Valid: true, Value: "1"}
	}
	if isBool(c.typ) && d.Value == "FALSE" {
		return defaultValue{Valid: true, Value: "0"}
	}
	if isNumeric(c.typ) {
		d.Quoted = false
	}
	return d
}

func normalNull(s NullState) NullState {
	if s == NullStateNull {
		return NullStateNone
	}
	return s
}

// isNormal: normalization has nothing to change
func isNormal(c tablecol) bool {
	return baseType(c.typ) == c.typ && (c.length != nil || displayLength(c.typ, c.unsigned) == "") && normalNull(c.nullstate) == c.nullstate && normalDefault(c) == c.defaultValue
}

//gocon:contract (*tablecol).NativeLength
//gocon:props C09
func tablecol_NativeLength(t *tablecol) {
	o := *t
	l := t.NativeLength()
	want := displayLength(o.typ, o.unsigned)
	g.Ensures("none", g.Iff(l == nil, want == ""))
	g.Ensures("length", g.Implies(want != "", l.Length() == want && l.HasDecimal() == isDecimal(o.typ)))
	g.Ensures("decimals", g.Implies(isDecimal(o.typ), l.Decimal() == "0"))
	g.Ensures("new", g.Implies(want != "", g.Fresh(l)))
	g.ModifiesOnly("frame")
}

//gocon:contract (ColumnType).SynonymType
//gocon:props C09
//gocon:inline
func columnType_SynonymType(c ColumnType) {
	g.Ensures("base", c.SynonymType() == baseType(c))
	g.ModifiesOnly("frame")
}

//gocon:contract (*tablecol).Normalize
//gocon:props C09 C10
func tablecol_Normalize(t *tablecol) {
	o := *t
	c, mod := t.Normalize()
	want := o
	want.typ = baseType(o.typ)
	want.nullstate = normalNull(o.nullstate)
	want.defaultValue = normalDefault(o)
	n := *(c.(*tablecol))
	want.length = n.length
	native := displayLength(o.typ, o.unsigned)
	supplied := o.length == nil && native != ""
	g.Ensures("values", g.Same(n, want))
	g.Ensures("length-kept", g.Implies(!supplied, g.Same(n.length, o.length)))
	g.Ensures("length-supplied", g.Implies(supplied, n.length != nil && n.length.Length() == native && n.length.HasDecimal() == isDecimal(o.typ) && g.Fresh(n.length)))
	g.Ensures("decimals-supplied", g.Implies(supplied && isDecimal(o.typ), n.length.Decimal() == "0"))
	g.Ensures("original", g.Same(*t, o))
	g.Ensures("unmodified", g.Implies(!mod, g.Same(c, t)))
	g.Ensures("copy", g.Implies(mod, g.Fresh(c)))
	g.Ensures("modified", mod == !isNormal(o))
	g.ModifiesOnly("frame")
}

//gocon:lemma
//gocon:props C09
func normalizeIsIdempotent(t *tablecol) {
	g.Requires(t != nil)
	c, _ := t.Normalize()
	n := *(c.(*tablecol))
	d, mod := c.Normalize()
	g.Assert("unmodified", !mod && g.Same(d, c))
	g.Assert("same", g.Same(*(d.(*tablecol)), n))
}
