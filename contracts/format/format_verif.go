package format

import (
	"bytes"
	"io"
	"strings"

	g "github.com/schemalex/schemalex/internal/gocon"
	"github.com/schemalex/schemalex/model"
)

// The texts that the properties ask for. They are written against the getters
// and lists of the model, not against the code of this package.

func bq(s string) string { return "`" + strings.Replace(s, "`", "``", -1) + "`" }
func sq(s string) string { return "'" + strings.Replace(s, "'", "''", -1) + "'" }

func opt(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

// isBuf: the destination is memory, which does not fail
func isBuf(ctx *fmtCtx) bool {
	_, ok := ctx.dst.(*bytes.Buffer)
	return ok
}

func validType(t model.ColumnType) bool {
	return t > model.ColumnTypeInvalid && t < model.ColumnTypeMax
}

// list is the list q(0),q(1),...,q(n-1)
func valueList(l []string) string {
	return " (" + g.Concat(len(l)-1, func(k int) string { return sq(l[k]) + "," }) + sq(l[len(l)-1]) + ")"
}

func okColumn(c model.TableColumn) bool {
	return validType(c.Type()) &&
		!(c.Type() == model.ColumnTypeEnum && len(model.SpecEnumValues(c)) == 0) &&
		!(c.Type() == model.ColumnTypeSet && len(model.SpecSetValues(c)) == 0)
}

func lengthText(l model.Length) string {
	return " (" + l.Length() + opt(l.HasDecimal(), ","+l.Decimal()) + ")"
}

func typeArgs(c model.TableColumn) string {
	if c.Type() == model.ColumnTypeEnum {
		return valueList(model.SpecEnumValues(c))
	}
	if c.Type() == model.ColumnTypeSet {
		return valueList(model.SpecSetValues(c))
	}
	if c.HasLength() {
		return lengthText(c.Length())
	}
	return ""
}

func nullText(n model.NullState) string {
	if n == model.NullStateNull {
		return " NULL"
	}
	if n == model.NullStateNotNull {
		return " NOT NULL"
	}
	return opt(n != model.NullStateNone, " ")
}

func defaultText(c model.TableColumn) string {
	if !c.HasDefault() {
		return ""
	}
	if c.IsQuotedDefault() {
		return " DEFAULT " + sq(c.Default())
	}
	return " DEFAULT " + c.Default()
}

func columnText(indent string, c model.TableColumn) string {
	return indent + bq(c.Name()) + " " + c.Type().String() + typeArgs(c) +
		opt(c.IsUnsigned(), " UNSIGNED") + opt(c.IsZeroFill(), " ZEROFILL") + opt(c.IsBinary(), " BINARY") +
		opt(c.HasCharacterSet(), " CHARACTER SET "+bq(c.CharacterSet())) +
		opt(c.HasCollation(), " COLLATE "+bq(c.Collation())) +
		opt(c.HasAutoUpdate(), " ON UPDATE "+c.AutoUpdate()) +
		nullText(c.NullState()) + defaultText(c) +
		opt(c.IsAutoIncrement(), " AUTO_INCREMENT") + opt(c.IsUnique(), " UNIQUE KEY") +
		opt(c.IsPrimary(), " PRIMARY KEY") + opt(!c.IsPrimary() && c.IsKey(), " KEY") +
		opt(c.HasComment(), " COMMENT "+sq(c.Comment()))
}

//gocon:contract formatColumnType
//gocon:props C12 C22
func formatColumnType_(ctx *fmtCtx, t model.ColumnType) {
	g.Requires(ctx != nil && ctx.dst != nil)
	old, failed := g.Written(ctx.dst), g.ExtFail()
	err := formatColumnType(ctx, t)
	g.Ensures("buffer", g.Implies(isBuf(ctx), g.Iff(err == nil, validType(t))))
	g.Ensures("text", g.Implies(err == nil, g.Written(ctx.dst) == old+t.String()))
	g.Ensures("invalid", g.Implies(!validType(t), err != nil && g.Written(ctx.dst) == old && g.ExtFail() == failed))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(validType(t) && err != nil, g.ExtFail()))
}

//gocon:contract formatTableColumn
//gocon:props C12 C22
func formatTableColumn_(ctx *fmtCtx, c model.TableColumn) {
	g.Requires(ctx != nil && ctx.dst != nil && c != nil)
	old, failed := g.Written(ctx.dst), g.ExtFail()
	ok, text := okColumn(c), columnText(ctx.curIndent, c)
	err := formatTableColumn(ctx, c)
	g.Ensures("buffer", g.Implies(isBuf(ctx), g.Iff(err == nil, ok)))
	g.Ensures("text", g.Implies(err == nil, g.Written(ctx.dst) == old+text))
	g.Ensures("invalid", g.Implies(!ok, err != nil && g.Written(ctx.dst) == old && g.ExtFail() == failed))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// ---- indexes and references

func kindText(x model.Index) string {
	return opt(x.IsPrimaryKey(), "PRIMARY KEY") + opt(x.IsNormal(), "INDEX") + opt(x.IsUnique(), "UNIQUE INDEX") +
		opt(x.IsFullText(), "FULLTEXT INDEX") + opt(x.IsSpatial(), "SPATIAL INDEX") + opt(x.IsForeignKey(), "FOREIGN KEY")
}

func columnRef(c model.IndexColumn) string {
	return bq(c.Name()) + opt(c.HasLength(), "("+c.Length()+")")
}

func direction(c model.IndexColumn) string {
	if !c.HasSortDirection() {
		return ""
	}
	if c.IsAscending() {
		return " ASC"
	}
	return " DESC"
}

func indexColumns(l []model.IndexColumn) string {
	return " (" + g.Concat(len(l), func(k int) string {
		return columnRef(l[k]) + direction(l[k]) + opt(k < len(l)-1, ", ")
	}) + ")"
}

func parserText(x model.Index) string {
	l := model.SpecIndexOptions(x)
	if !x.IsFullText() {
		return ""
	}
	return g.Concat(len(l), func(k int) string { return opt(l[k].Key() == "WITH PARSER", " WITH PARSER "+optionValue(l[k])) })
}

func optionValue(o model.IndexOption) string {
	if o.NeedQuotes() {
		return bq(o.Value())
	}
	return o.Value()
}

func okAction(o model.ReferenceOption) bool {
	return o >= model.ReferenceOptionNone && o <= model.ReferenceOptionNoAction
}

func okReference(r model.Reference) bool { return okAction(r.OnDelete()) && okAction(r.OnUpdate()) }

func actionText(prefix string, o model.ReferenceOption) string {
	switch o {
	case model.ReferenceOptionRestrict:
		return " " + prefix + " RESTRICT"
	case model.ReferenceOptionCascade:
		return " " + prefix + " CASCADE"
	case model.ReferenceOptionSetNull:
		return " " + prefix + " SET NULL"
	case model.ReferenceOptionNoAction:
		return " " + prefix + " NO ACTION"
	}
	return ""
}

func referenceText(indent string, r model.Reference) string {
	l := model.SpecRefColumns(r)
	return indent + "REFERENCES " + bq(r.TableName()) + " (" +
		g.Concat(len(l), func(k int) string { return columnRef(l[k]) + opt(k < len(l)-1, ", ") }) + ")" +
		opt(r.MatchFull(), " MATCH FULL") + opt(r.MatchPartial(), " MATCH PARTIAL") + opt(r.MatchSimple(), " MATCH SIMPLE") +
		actionText("ON DELETE", r.OnDelete()) + actionText("ON UPDATE", r.OnUpdate())
}

func okIndex(x model.Index) bool {
	return len(model.SpecIndexColumns(x)) > 0 && (x.Reference() == nil || okReference(x.Reference()))
}

func indexText(indent string, x model.Index) string {
	s := indent + opt(x.HasSymbol(), "CONSTRAINT "+bq(x.Symbol())+" ") + kindText(x) + opt(x.HasName(), " "+bq(x.Name())) +
		opt(x.IsBtree(), " USING BTREE") + opt(x.IsHash(), " USING HASH") + indexColumns(model.SpecIndexColumns(x)) + parserText(x)
	if x.Reference() != nil {
		s += " " + referenceText(indent, x.Reference())
	}
	return s
}

//gocon:contract writeReferenceOption
//gocon:props C13 C22
func writeReferenceOption_(buf *bytes.Buffer, prefix string, o model.ReferenceOption) {
	g.Requires(buf != nil)
	old, failed := g.Written(buf), g.ExtFail()
	err := writeReferenceOption(buf, prefix, o)
	g.Ensures("error", g.Iff(err == nil, okAction(o)))
	g.Ensures("text", g.Implies(err == nil, g.Written(buf) == old+actionText(prefix, o)))
	g.Ensures("memory", g.ExtFail() == failed)
}

//gocon:contract formatReference
//gocon:props C13 C22
func formatReference_(ctx *fmtCtx, r model.Reference) {
	g.Requires(ctx != nil && ctx.dst != nil && r != nil)
	old, failed := g.Written(ctx.dst), g.ExtFail()
	ok, text := okReference(r), referenceText(ctx.curIndent, r)
	err := formatReference(ctx, r)
	g.Ensures("buffer", g.Implies(isBuf(ctx), g.Iff(err == nil, ok)))
	g.Ensures("text", g.Implies(err == nil, g.Written(ctx.dst) == old+text))
	g.Ensures("invalid", g.Implies(!ok, err != nil && g.Written(ctx.dst) == old && g.ExtFail() == failed))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

//gocon:contract formatIndex
//gocon:props C13 C22
func formatIndex_(ctx *fmtCtx, x model.Index) {
	g.Requires(ctx != nil && ctx.dst != nil && x != nil)
	old, failed := g.Written(ctx.dst), g.ExtFail()
	ok, text := okIndex(x), indexText(ctx.curIndent, x)
	err := formatIndex(ctx, x)
	g.Ensures("buffer", g.Implies(isBuf(ctx), g.Iff(err == nil, ok)))
	g.Ensures("text", g.Implies(err == nil, g.Written(ctx.dst) == old+text))
	g.Ensures("invalid", g.Implies(!ok, err != nil && g.Written(ctx.dst) == old && g.ExtFail() == failed))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// ---- tables, databases, statement lists

func optionText(o model.TableOption) string {
	if o.NeedQuotes() {
		return o.Key() + " = " + sq(o.Value())
	}
	return o.Key() + " = " + o.Value()
}

func databaseText(d model.Database) string {
	return "CREATE DATABASE" + opt(d.IsIfNotExists(), " IF NOT EXISTS") + " " + bq(d.Name()) + ";"
}

func okTable(t model.Table) bool {
	cols, idxs := model.SpecColumns(t), model.SpecIndexes(t)
	return t.HasLikeTable() ||
		g.Forall(0, len(cols), func(k int) bool { return okColumn(cols[k]) }) &&
			g.Forall(0, len(idxs), func(k int) bool { return okIndex(idxs[k]) })
}

func tableBody(indent string, t model.Table) string {
	cols, idxs, opts := model.SpecColumns(t), model.SpecIndexes(t), model.SpecOptions(t)
	nc, ni, no := len(cols), len(idxs), len(opts)
	return " (" +
		g.Concat(nc, func(k int) string { return "\n" + columnText(indent, cols[k]) + opt(k < nc-1 || ni > 0, ",") }) +
		g.Concat(ni, func(k int) string { return "\n" + indexText(indent, idxs[k]) + opt(k < ni-1, ",") }) +
		"\n)" + opt(no > 0, " ") +
		g.Concat(no, func(k int) string { return optionText(opts[k]) + opt(k < no-1, ", ") })
}

func tableText(indent string, t model.Table) string {
	s := "CREATE" + opt(t.IsTemporary(), " TEMPORARY") + " TABLE" + opt(t.IsIfNotExists(), " IF NOT EXISTS") + " " + bq(t.Name())
	if t.HasLikeTable() {
		return s + " LIKE " + bq(t.LikeTable())
	}
	return s + tableBody(indent, t)
}

//gocon:contract formatTableOption
//gocon:props C14 C22
func formatTableOption_(ctx *fmtCtx, o model.TableOption) {
	g.Requires(ctx != nil && ctx.dst != nil && o != nil)
	old, failed := g.Written(ctx.dst), g.ExtFail()
	text := optionText(o)
	err := formatTableOption(ctx, o)
	g.Ensures("buffer", g.Implies(isBuf(ctx), err == nil))
	g.Ensures("text", g.Implies(err == nil, g.Written(ctx.dst) == old+text))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(err != nil, g.ExtFail()))
}

//gocon:contract formatDatabase
//gocon:props C14 C22
func formatDatabase_(ctx *fmtCtx, d model.Database) {
	g.Requires(ctx != nil && ctx.dst != nil && d != nil)
	old, failed := g.Written(ctx.dst), g.ExtFail()
	text := databaseText(d)
	err := formatDatabase(ctx, d)
	g.Ensures("text", g.Implies(err == nil, g.Written(ctx.dst) == old+text))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(err != nil, g.ExtFail()))
}

//gocon:contract formatTable
//gocon:props C14 C22
func formatTable_(ctx *fmtCtx, t model.Table) {
	g.Requires(ctx != nil && ctx.dst != nil && t != nil)
	old, failed := g.Written(ctx.dst), g.ExtFail()
	ok, text := okTable(t), tableText(ctx.indent+ctx.curIndent, t)
	err := formatTable(ctx, t)
	g.Ensures("text", g.Implies(err == nil, g.Written(ctx.dst) == old+text))
	g.Ensures("invalid", g.Implies(!ok, err != nil && g.Written(ctx.dst) == old && g.ExtFail() == failed))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// ---- any model object

//gocon:named
func okValue(v interface{}) bool {
	switch x := v.(type) {
	case model.ColumnType:
		return validType(x)
	case model.Database:
		return true
	case model.Table:
		return okTable(x)
	case model.TableColumn:
		return okColumn(x)
	case model.TableOption:
		return true
	case model.Index:
		return okIndex(x)
	case model.Reference:
		return okReference(x)
	}
	return false
}

//gocon:named
func valueText(indent, curIndent string, v interface{}) string {
	switch x := v.(type) {
	case model.ColumnType:
		return x.String()
	case model.Database:
		return databaseText(x)
	case model.Table:
		return tableText(indent+curIndent, x)
	case model.TableColumn:
		return columnText(curIndent, x)
	case model.TableOption:
		return optionText(x)
	case model.Index:
		return indexText(curIndent, x)
	case model.Reference:
		return referenceText(curIndent, x)
	}
	return ""
}

func okAny(v interface{}) bool {
	if l, is := v.(model.Stmts); is {
		return g.Forall(0, len(l), func(k int) bool { return okValue(l[k]) })
	}
	return okValue(v)
}

func anyText(indent, curIndent string, v interface{}) string {
	if l, is := v.(model.Stmts); is {
		return g.Concat(len(l), func(k int) string { return valueText(indent, curIndent, l[k]) })
	}
	return valueText(indent, curIndent, v)
}

//gocon:contract format
//gocon:props C14 C22
func format_(ctx *fmtCtx, v interface{}) {
	g.Requires(ctx != nil && ctx.dst != nil)
	old, failed := g.Written(ctx.dst), g.ExtFail()
	ok, text := okAny(v), anyText(ctx.indent, ctx.curIndent, v)
	_, list := v.(model.Stmts)
	err := format(ctx, v)
	g.Ensures("text", g.Implies(err == nil, g.Written(ctx.dst) == old+text))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("invalid-nothing-written", g.Implies(!ok && !list, g.Written(ctx.dst) == old && g.ExtFail() == failed))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

// indentAfter is the indentation that the first n options ask for: the last one counts.
func indentAfter(options []Option, n int) string {
	if n <= 0 {
		return ""
	}
	if options[n-1].Name() == "indent" {
		s, _ := options[n-1].Value().(string)
		return s
	}
	return indentAfter(options, n-1)
}

//gocon:contract SQL
//gocon:props C14 C20 C22
func SQL_(dst io.Writer, v interface{}, options ...Option) {
	g.Requires(dst != nil)
	g.Requires(g.Forall(0, len(options), func(k int) bool {
		if options[k] == nil {
			return false
		}
		_, isString := options[k].Value().(string)
		return options[k].Name() != "indent" || isString
	}))
	_, list := v.(model.Stmts)
	old, failed := g.Written(dst), g.ExtFail()
	ok, text := okAny(v), anyText(indentAfter(options, len(options)), "", v)
	g.Inv(func(it int, ctx *fmtCtx) bool {
		return ctx.indent == indentAfter(options, it) && ctx.curIndent == "" && g.Same(ctx.dst, dst)
	})
	err := SQL(dst, v, options...)
	g.Ensures("text", g.Implies(err == nil, g.Written(dst) == old+text))
	g.Ensures("invalid", g.Implies(!ok, err != nil))
	g.Ensures("invalid-nothing-written", g.Implies(!ok && !list, g.Written(dst) == old && g.ExtFail() == failed))
	g.Ensures("failures-reported", g.Implies(err == nil, g.ExtFail() == failed))
	g.Ensures("no-spurious-error", g.Implies(ok && err != nil, g.ExtFail()))
}

//gocon:contract WithIndent
//gocon:props C14
func WithIndent_(s string, n int) {
	o := WithIndent(s, n)
	text, is := o.Value().(string)
	times := n
	if n < 1 {
		times = 1
	}
	g.Ensures("indent", o != nil && o.Name() == "indent" && is && text == g.Concat(times, func(int) string { return s }))
}

// for the contracts of the packages that use this one

func SpecIndent(options []Option) string { return indentAfter(options, len(options)) }

func SpecOptionsOK(options []Option) bool {
	return g.Forall(0, len(options), func(k int) bool {
		if options[k] == nil {
			return false
		}
		_, isString := options[k].Value().(string)
		return options[k].Name() != "indent" || isString
	})
}

func SpecOK(v interface{}) bool { return okAny(v) }

func SpecText(indent string, v interface{}) string { return anyText(indent, "", v) }
