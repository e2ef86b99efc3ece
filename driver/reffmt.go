package main

import (
	"strings"

	"github.com/schemalex/schemalex/model"
)

// ---- rendering, as stated by C12, C13 and C14

func fmtCol(c PCol, indent string) (string, bool) {
	if c.Type <= model.ColumnTypeInvalid || c.Type >= model.ColumnTypeMax {
		return "", false
	}
	s := indent + bq(c.Name) + " " + typeName(c.Type)
	list := func(l []string) string {
		for _, v := range l {
			_ = v
		}
		var q []string
		for _, v := range l {
			q = append(q, sq(v))
		}
		return " (" + strings.Join(q, ",") + ")"
	}
	switch c.Type {
	case model.ColumnTypeEnum:
		if len(c.Enum) == 0 {
			return "", false
		}
		s += list(c.Enum)
	case model.ColumnTypeSet:
		if len(c.Set) == 0 {
			return "", false
		}
		s += list(c.Set)
	default:
		if c.Len != nil {
			s += " (" + c.Len.L
			if c.Len.D != nil {
				s += "," + *c.Len.D
			}
			s += ")"
		}
	}
	if c.Uns {
		s += " UNSIGNED"
	}
	if c.ZF {
		s += " ZEROFILL"
	}
	if c.Bin {
		s += " BINARY"
	}
	if c.Charset != nil {
		s += " CHARACTER SET " + bq(*c.Charset)
	}
	if c.Coll != nil {
		s += " COLLATE " + bq(*c.Coll)
	}
	if c.AutoUpd != nil {
		s += " ON UPDATE " + *c.AutoUpd
	}
	switch c.Null {
	case model.NullStateNull:
		s += " NULL"
	case model.NullStateNotNull:
		s += " NOT NULL"
	}
	if c.Def != nil {
		if c.DefQ {
			s += " DEFAULT " + sq(*c.Def)
		} else {
			s += " DEFAULT " + *c.Def
		}
	}
	if c.AI {
		s += " AUTO_INCREMENT"
	}
	if c.Uniq {
		s += " UNIQUE KEY"
	}
	if c.Prim {
		s += " PRIMARY KEY"
	} else if c.Key {
		s += " KEY"
	}
	if c.Comment != nil {
		s += " COMMENT " + sq(*c.Comment)
	}
	return s, true
}

var typeNameTab = map[model.ColumnType]string{
	model.ColumnTypeBit: "BIT", model.ColumnTypeTinyInt: "TINYINT", model.ColumnTypeSmallInt: "SMALLINT", model.ColumnTypeMediumInt: "MEDIUMINT", model.ColumnTypeInt: "INT", model.ColumnTypeInteger: "INTEGER", model.ColumnTypeBigInt: "BIGINT",
	model.ColumnTypeReal: "REAL", model.ColumnTypeDouble: "DOUBLE", model.ColumnTypeFloat: "FLOAT", model.ColumnTypeDecimal: "DECIMAL", model.ColumnTypeNumeric: "NUMERIC",
	model.ColumnTypeDate: "DATE", model.ColumnTypeTime: "TIME", model.ColumnTypeTimestamp: "TIMESTAMP", model.ColumnTypeDateTime: "DATETIME", model.ColumnTypeYear: "YEAR",
	model.ColumnTypeChar: "CHAR", model.ColumnTypeVarChar: "VARCHAR", model.ColumnTypeBinary: "BINARY", model.ColumnTypeVarBinary: "VARBINARY",
	model.ColumnTypeTinyBlob: "TINYBLOB", model.ColumnTypeBlob: "BLOB", model.ColumnTypeMediumBlob: "MEDIUMBLOB", model.ColumnTypeLongBlob: "LONGBLOB",
	model.ColumnTypeTinyText: "TINYTEXT", model.ColumnTypeText: "TEXT", model.ColumnTypeMediumText: "MEDIUMTEXT", model.ColumnTypeLongText: "LONGTEXT",
	model.ColumnTypeEnum: "ENUM", model.ColumnTypeSet: "SET", model.ColumnTypeBoolean: "BOOLEAN", model.ColumnTypeBool: "BOOL", model.ColumnTypeJSON: "JSON", model.ColumnTypeGEOMETRY: "GEOMETRY",
}

func typeName(t model.ColumnType) string { return typeNameTab[t] }

func fmtICols(l []PICol, dir bool) string {
	var q []string
	for _, c := range l {
		s := bq(c.Name)
		if c.Len != nil {
			s += "(" + *c.Len + ")"
		}
		if dir && c.Dir == 1 {
			s += " ASC"
		}
		if dir && c.Dir == 2 {
			s += " DESC"
		}
		q = append(q, s)
	}
	return "(" + strings.Join(q, ", ") + ")"
}

var actions = []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"}

func fmtRef(r *PRef, indent string) string {
	s := indent + "REFERENCES " + bq(r.Table) + " " + fmtICols(r.Cols, false)
	s += []string{"", " MATCH FULL", " MATCH PARTIAL", " MATCH SIMPLE"}[r.Match]
	if r.Del != 0 {
		s += " ON DELETE " + actions[r.Del]
	}
	if r.Upd != 0 {
		s += " ON UPDATE " + actions[r.Upd]
	}
	return s
}

func fmtIdx(x PIdx, indent string) (string, bool) {
	if len(x.Cols) == 0 {
		return "", false
	}
	s := indent
	if x.Sym != nil {
		s += "CONSTRAINT " + bq(*x.Sym) + " "
	}
	s += []string{"", "PRIMARY KEY", "INDEX", "UNIQUE INDEX", "FULLTEXT INDEX", "SPATIAL INDEX", "FOREIGN KEY"}[x.Kind]
	if x.Name != nil {
		s += " " + bq(*x.Name)
	}
	s += []string{"", " USING BTREE", " USING HASH"}[x.Typ] + " " + fmtICols(x.Cols, true)
	if x.Kind == model.IndexKindFullText {
		for _, o := range x.Opts {
			if o.K == "WITH PARSER" {
				if o.Q {
					s += " WITH PARSER " + bq(o.V)
				} else {
					s += " WITH PARSER " + o.V
				}
			}
		}
	}
	if x.Ref != nil {
		s += " " + fmtRef(x.Ref, indent)
	}
	return s, true
}

func fmtOpt(o POpt) string {
	if o.Q {
		return o.K + " = " + sq(o.V)
	}
	return o.K + " = " + o.V
}

func fmtTab(t PTab, indent string) (string, bool) {
	s := "CREATE"
	if t.Temp {
		s += " TEMPORARY"
	}
	s += " TABLE"
	if t.INE {
		s += " IF NOT EXISTS"
	}
	s += " " + bq(t.Name)
	if t.Like != nil {
		return s + " LIKE " + bq(*t.Like), true
	}
	var defs []string
	for _, c := range t.Cols {
		d, ok := fmtCol(c, indent)
		if !ok {
			return "", false
		}
		defs = append(defs, "\n"+d)
	}
	for _, x := range t.Idx {
		d, ok := fmtIdx(x, indent)
		if !ok {
			return "", false
		}
		defs = append(defs, "\n"+d)
	}
	s += " (" + strings.Join(defs, ",") + "\n)"
	var opts []string
	for _, o := range t.Opts {
		opts = append(opts, fmtOpt(o))
	}
	if len(opts) > 0 {
		s += " " + strings.Join(opts, ", ")
	}
	return s, true
}
