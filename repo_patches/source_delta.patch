From 9e80d0db185e623f3e96d3216fae25e2573c4427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 01/29] fix: report an error for file:// URIs naming a remote
 host

errors.Wrap of a nil error is nil, so (nil, nil) was returned.
---
 source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source.go b/source.go
index f07bb6b..993d0f3 100644
--- a/source.go
+++ b/source.go
@@ -71,7 +71,7 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	case "file", "":
 		// Eh, no remote host, please
 		if u.Host != "" && u.Host != "localhost" {
-			return nil, errors.Wrap(err, `remote hosts for file:// sources are not supported`)
+			return nil, errors.New(`remote hosts for file:// sources are not supported`)
 		}
 		return NewLocalFileSource(u.Path), nil
 	}
-- 
2.43.0


From b74c63b79c06c34f6854c2c1afb3267773a5977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 02/29] fix: report malformed ENUM and SET value lists

The error was ignored, and parsing went on behind the offending token.
---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 3ecf5a5..bb2290f 100644
--- a/parser.go
+++ b/parser.go
@@ -886,9 +886,13 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				l.SetDecimal(tscale)
 				col.SetLength(l)
 			} else if check(coloptEnumValues) {
-				ctx.parseSetOrEnum(col.SetEnumValues)
+				if err := ctx.parseSetOrEnum(col.SetEnumValues); err != nil {
+					return err
+				}
 			} else if check(coloptSetValues) {
-				ctx.parseSetOrEnum(col.SetSetValues)
+				if err := ctx.parseSetOrEnum(col.SetSetValues); err != nil {
+					return err
+				}
 			} else {
 				return newParseError(ctx, t, "cannot apply coloptSize, coloptDecimalSize, coloptDecimalOptionalSize, coloptEnumValues, coloptSetValues")
 			}
-- 
2.43.0


From c474851464debd1a4f8420280abbc11462f54f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 03/29] fix: keep the name of the DELAY_KEY_WRITE table option

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index bb2290f..d1b78cc 100644
--- a/parser.go
+++ b/parser.go
@@ -731,7 +731,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case DELAY_KEY_WRITE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DATA_KEY_WRITE", NUMBER); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DELAY_KEY_WRITE", NUMBER); err != nil {
 				return err
 			}
 		case INDEX:
-- 
2.43.0


From adabc653d3337be1835c3e211ef4ce658f42e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 04/29] fix: accept blanks between index column length and sort
 direction

`a(10) ASC`, which the formatter emits, was rejected.
---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index d1b78cc..3e3a48a 100644
--- a/parser.go
+++ b/parser.go
@@ -1360,6 +1360,7 @@ OUTER:
 		}
 
 		// optional sort direction
+		ctx.skipWhiteSpaces()
 		switch t = ctx.peek(); t.Type {
 		case ASC:
 			ctx.advance()
-- 
2.43.0


From 5eece97894e46e075feaa8d951720c5a7ff54218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 05/29] fix: return a ParseError for all malformed index and
 reference clauses

A second USING clause and bad ON DELETE/ON UPDATE actions gave errors
that are no ParseError.
---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 3e3a48a..c541540 100644
--- a/parser.go
+++ b/parser.go
@@ -1262,11 +1262,11 @@ OUTER:
 		switch t := ctx.next(); t.Type {
 		case DELETE:
 			if err := p.parseReferenceOption(ctx, r.SetOnDelete); err != nil {
-				return errors.Wrap(err, `failed to parse ON DELETE`)
+				return err
 			}
 		case UPDATE:
 			if err := p.parseReferenceOption(ctx, r.SetOnUpdate); err != nil {
-				return errors.Wrap(err, `failed to parse ON UPDATE`)
+				return err
 			}
 			break OUTER
 		default:
@@ -1290,7 +1290,8 @@ func (p *Parser) parseColumnIndexName(ctx *parseCtx, index model.Index) error {
 
 func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type != USING {
+	using := ctx.peek()
+	if using.Type != USING {
 		return nil
 	}
 	ctx.advance()
@@ -1304,7 +1305,7 @@ func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 		} else {
 			typ = "NONE"
 		}
-		return errors.Errorf(`statement already has index type declared (%s)`, typ)
+		return newParseError(ctx, using, "statement already has index type declared (%s)", typ)
 	}
 
 	ctx.skipWhiteSpaces()
-- 
2.43.0


From 86dd920e07a9fd972c7d6ef1be7082dda9691f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 06/29] fix: normalize columns that are both PRIMARY KEY and
 UNIQUE

The unique index was lost from the table indexes and left on the column.
---
 model/table.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/table.go b/model/table.go
index 2407946..03ed6ca 100644
--- a/model/table.go
+++ b/model/table.go
@@ -157,8 +157,7 @@ func (t *table) Normalize() (Table, bool) {
 
 		// column_definition [UNIQUE [KEY] | [PRIMARY] KEY]
 		// they mean same as INDEX or CONSTRAINT
-		switch {
-		case ncol.IsPrimary():
+		if ncol.IsPrimary() {
 			// we have to move off the index declaration from the
 			// primary key column to an index associated with the table
 			index := NewIndex(IndexKindPrimaryKey, t.ID())
@@ -171,7 +170,8 @@ func (t *table) Normalize() (Table, bool) {
 			}
 			ncol = ncol.Clone()
 			ncol.SetPrimary(false)
-		case ncol.IsUnique():
+		}
+		if ncol.IsUnique() {
 			index := NewIndex(IndexKindUnique, t.ID())
 			// if you do not assign a name, the index is assigned the same name as the first indexed column
 			index.SetName(ncol.Name())
-- 
2.43.0


From 41f7fa3d3713bbda2adfa13c6c5629b2130ed4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 07/29] fix: do not add an implicit index that is declared
 after its constraint

---
 model/table.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/model/table.go b/model/table.go
index 03ed6ca..20e1470 100644
--- a/model/table.go
+++ b/model/table.go
@@ -191,6 +191,9 @@ func (t *table) Normalize() (Table, bool) {
 
 	var indexes []Index
 	var seen = make(map[string]struct{})
+	for idx := range t.Indexes() {
+		seen[idx.Name()] = struct{}{}
+	}
 	for idx := range t.Indexes() {
 		nidx, modified := idx.Normalize()
 		if modified {
@@ -204,7 +207,7 @@ func (t *table) Normalize() (Table, bool) {
 		if nidx.IsForeignKey() && nidx.HasSymbol() {
 			// There's a chance the user has already explicitly declared the
 			// index for this constraint. Only add this implicit index if we
-			// haven't seen it before
+			// haven't seen it, no matter where it is declared
 			if _, ok := seen[nidx.Symbol()]; !ok {
 				clone = true
 				// add implicitly created INDEX
@@ -224,7 +227,6 @@ func (t *table) Normalize() (Table, bool) {
 			}
 		}
 		indexes = append(indexes, nidx)
-		seen[nidx.Name()] = struct{}{}
 	}
 
 	if !clone {
-- 
2.43.0


From 1145a961a190532d1cf7f4986e9195b730fa1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 08/29] fix: keep the LIKE table when normalizing a table

---
 model/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/table.go b/model/table.go
index 20e1470..536df15 100644
--- a/model/table.go
+++ b/model/table.go
@@ -236,6 +236,9 @@ func (t *table) Normalize() (Table, bool) {
 	tbl := NewTable(t.Name())
 	tbl.SetIfNotExists(t.IsIfNotExists())
 	tbl.SetTemporary(t.IsTemporary())
+	if t.HasLikeTable() {
+		tbl.SetLikeTable(t.LikeTable())
+	}
 
 	for _, index := range additionalIndexes {
 		tbl.AddIndex(index)
-- 
2.43.0


From 863ba1c650fbe33aa32edb35013459e3aaac14cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 09/29] fix: make index identity depend on sort direction and
 options

A diff did not notice when only these changed.
---
 model/index.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/model/index.go b/model/index.go
index 3d6a117..7b838fc 100644
--- a/model/index.go
+++ b/model/index.go
@@ -44,7 +44,10 @@ func (stmt *index) ID() string {
 	}
 	if stmt.reference != nil {
 		fmt.Fprintf(h, ".")
-		fmt.Fprintf(h, stmt.reference.ID())
+		fmt.Fprint(h, stmt.reference.ID())
+	}
+	for opt := range stmt.Options() {
+		fmt.Fprintf(h, ".%s=%s", opt.ID(), opt.Value())
 	}
 	return fmt.Sprintf("%s#%x", name, h.Sum(nil))
 }
@@ -171,10 +174,17 @@ func NewIndexColumn(name string) IndexColumn {
 }
 
 func (col *indexColumn) ID() string {
+	id := "index_column#" + col.Name()
 	if col.HasLength() {
-		return "index_column#" + col.Name() + "-" + col.Length()
+		id = id + "-" + col.Length()
+	}
+	switch {
+	case col.IsAscending():
+		id = id + "-asc"
+	case col.IsDescending():
+		id = id + "-desc"
 	}
-	return "index_column#" + col.Name()
+	return id
 }
 
 func (col *indexColumn) Name() string {
-- 
2.43.0


From 00d63aff834f6fba0df087acf72801c51b8f74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 10/29] fix: do not modify the receiver when normalizing BOOL
 columns

---
 model/table_column.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index eb97f3c..69832de 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -300,6 +300,7 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	var synonym ColumnType
 	var removeQuotes bool
 	var setDefaultNull bool
+	var boolDefault string
 
 	if !t.HasLength() {
 		if l := t.NativeLength(); l != nil {
@@ -336,9 +337,11 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 		case ColumnTypeBool, ColumnTypeBoolean:
 			switch t.Default() {
 			case "TRUE":
-				t.SetDefault("1", false)
+				clone = true
+				boolDefault = "1"
 			case "FALSE":
-				t.SetDefault("0", false)
+				clone = true
+				boolDefault = "0"
 			}
 		}
 	} else {
@@ -375,6 +378,10 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 		col.SetDefault(t.Default(), false)
 	}
 
+	if boolDefault != "" {
+		col.SetDefault(boolDefault, false)
+	}
+
 	if setDefaultNull {
 		col.SetDefault("NULL", false)
 	}
-- 
2.43.0


From d5b78add0fb54f01d5c33e9dcd872970aada47ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 11/29] fix: escape quotes in formatted names, strings and
 diffs

Names with a backquote and strings with a single quote produced SQL that
means something else.
---
 diff/diff.go          | 80 +++++++++++++++++++++----------------------
 format/format.go      | 21 ++++--------
 internal/util/util.go | 12 +++++--
 3 files changed, 56 insertions(+), 57 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index b98f304..eb5605d 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -12,6 +12,7 @@ import (
 	"github.com/schemalex/schemalex"
 	"github.com/schemalex/schemalex/format"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 	"github.com/schemalex/schemalex/model"
 )
 
@@ -159,9 +160,9 @@ func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		if !ok {
 			return 0, errors.Errorf(`lookup failed: %s is not a model.Table`, id)
 		}
-		buf.WriteString("DROP TABLE `")
-		buf.WriteString(table.Name())
-		buf.WriteString("`;")
+		buf.WriteString("DROP TABLE ")
+		buf.WriteString(util.Backquote(table.Name()))
+		buf.WriteByte(';')
 	}
 
 	return buf.WriteTo(dst)
@@ -283,16 +284,16 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP COLUMN `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP COLUMN ")
 		col, ok := ctx.from.LookupColumn(columnName.(string))
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
 
-		buf.WriteString(col.Name())
-		buf.WriteString("`;")
+		buf.WriteString(util.Backquote(col.Name()))
+		buf.WriteByte(';')
 	}
 
 	return buf.WriteTo(dst)
@@ -382,16 +383,15 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD COLUMN ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD COLUMN ")
 		if err := format.SQL(buf, stmt); err != nil {
 			return err
 		}
 		if hasBeforeCol {
-			buf.WriteString(" AFTER `")
-			buf.WriteString(beforeCol.Name())
-			buf.WriteString("`")
+			buf.WriteString(" AFTER ")
+			buf.WriteString(util.Backquote(beforeCol.Name()))
 		} else {
 			buf.WriteString(" FIRST")
 		}
@@ -422,11 +422,11 @@ func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` CHANGE COLUMN `")
-		buf.WriteString(afterColumnStmt.Name())
-		buf.WriteString("` ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" CHANGE COLUMN ")
+		buf.WriteString(util.Backquote(afterColumnStmt.Name()))
+		buf.WriteByte(' ')
 		if err := format.SQL(&buf, afterColumnStmt); err != nil {
 			return 0, err
 		}
@@ -452,9 +452,9 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			if buf.Len() > 0 {
 				buf.WriteByte('\n')
 			}
-			buf.WriteString("ALTER TABLE `")
-			buf.WriteString(ctx.from.Name())
-			buf.WriteString("` DROP PRIMARY KEY;")
+			buf.WriteString("ALTER TABLE ")
+			buf.WriteString(util.Backquote(ctx.from.Name()))
+			buf.WriteString(" DROP PRIMARY KEY;")
 			continue
 		}
 
@@ -469,31 +469,31 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP FOREIGN KEY `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP FOREIGN KEY ")
 		if indexStmt.HasSymbol() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.Backquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.Backquote(indexStmt.Name()))
 		}
-		buf.WriteString("`;")
+		buf.WriteByte(';')
 	}
 	// drop index after drop CONSTRAINT
 	for _, indexStmt := range lazy {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP INDEX `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP INDEX ")
 		if !indexStmt.HasName() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.Backquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.Backquote(indexStmt.Name()))
 		}
 
-		buf.WriteString("`;")
+		buf.WriteByte(';')
 	}
 
 	return buf.WriteTo(dst)
@@ -517,9 +517,9 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
 		}
@@ -530,9 +530,9 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
 		}
diff --git a/format/format.go b/format/format.go
index 02a8159..9975b57 100644
--- a/format/format.go
+++ b/format/format.go
@@ -92,9 +92,7 @@ func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	buf.WriteString(option.Key())
 	buf.WriteString(" = ")
 	if option.NeedQuotes() {
-		buf.WriteByte('\'')
-		buf.WriteString(option.Value())
-		buf.WriteByte('\'')
+		buf.WriteString(util.Quote(option.Value()))
 	} else {
 		buf.WriteString(option.Value())
 	}
@@ -216,9 +214,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeEnum:
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(enumValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(enumValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -226,9 +222,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeSet:
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(setValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(setValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -286,9 +280,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	if col.HasDefault() {
 		buf.WriteString(" DEFAULT ")
 		if col.IsQuotedDefault() {
-			buf.WriteByte('\'')
-			buf.WriteString(col.Default())
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(col.Default()))
 		} else {
 			buf.WriteString(col.Default())
 		}
@@ -309,9 +301,8 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	}
 
 	if col.HasComment() {
-		buf.WriteString(" COMMENT '")
-		buf.WriteString(col.Comment())
-		buf.WriteByte('\'')
+		buf.WriteString(" COMMENT ")
+		buf.WriteString(util.Quote(col.Comment()))
 	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
diff --git a/internal/util/util.go b/internal/util/util.go
index b2a4a5a..eed8a1f 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,15 @@
 package util
 
 // Backquote surrounds the given string in backquotes
+import "strings"
+
+// Backquote returns s as a quoted identifier
 func Backquote(s string) string {
-	// XXX Does this require escaping
-	return "`" + s + "`"
+	return "`" + strings.Replace(s, "`", "``", -1) + "`"
+}
+
+// Quote returns s as a quoted string. Backslash sequences are part of
+// the string as they are, so only the quotes need to be escaped
+func Quote(s string) string {
+	return "'" + strings.Replace(s, "'", "''", -1) + "'"
 }
-- 
2.43.0


From 33dd405ae05f8998b18ad2b5df74cd73c1a5527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 12/29] fix: report errors when formatting added columns in a
 diff

---
 diff/diff.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index eb5605d..c48062b 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -332,7 +332,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	// First column is always safe to add
 	if firstColumn != nil {
-		writeAddColumn(ctx, &buf, firstColumn.ID())
+		if err := writeAddColumn(ctx, &buf, firstColumn.ID()); err != nil {
+			return 0, err
+		}
 	}
 
 	var columnNames []string
@@ -349,7 +351,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	if len(columnNames) > 0 {
 		sort.Strings(columnNames)
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 
 	// Finally, we process the remaining columns.
@@ -367,7 +371,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			jcol, _ := ctx.to.LookupColumnOrder(columnNames[j])
 			return icol < jcol
 		})
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 	return buf.WriteTo(dst)
 }
-- 
2.43.0


From 02e1608dd7a739a57b5d71ece2adfad5678ed0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 13/29] fix: emit the statements of a diff in a fixed order

The order of a set was used, which changes from run to run.
---
 diff/diff.go | 49 +++++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index c48062b..4014498 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -45,6 +45,17 @@ func newDiffCtx(from, to model.Stmts) *diffCtx {
 	}
 }
 
+// sortedIDs returns the IDs in the set in a fixed order, so that the
+// output does not change from run to run
+func sortedIDs(set mapset.Set) []string {
+	ids := make([]string, 0, set.Cardinality())
+	for _, id := range set.ToSlice() {
+		ids = append(ids, id.(string))
+	}
+	sort.Strings(ids)
+	return ids
+}
+
 // Statements compares two model.Stmts and generates a series
 // of statements to migrate from the old one to the new one,
 // writing the result to `dst`
@@ -146,12 +157,12 @@ func Sources(dst io.Writer, from, to schemalex.SchemaSource, options ...Option)
 func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	ids := ctx.fromSet.Difference(ctx.toSet)
-	for i, id := range ids.ToSlice() {
+	for i, id := range sortedIDs(ids) {
 		if i > 0 {
 			buf.WriteByte('\n')
 		}
 
-		stmt, ok := ctx.from.Lookup(id.(string))
+		stmt, ok := ctx.from.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup table %s`, id)
 		}
@@ -172,9 +183,9 @@ func createTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 
 	ids := ctx.toSet.Difference(ctx.fromSet)
-	for _, id := range ids.ToSlice() {
+	for _, id := range sortedIDs(ids) {
 		// Lookup the corresponding statement, and add its SQL
-		stmt, ok := ctx.to.Lookup(id.(string))
+		stmt, ok := ctx.to.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup table %s`, id)
 		}
@@ -242,17 +253,17 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 	ids := ctx.toSet.Intersect(ctx.fromSet)
 	var buf bytes.Buffer
-	for _, id := range ids.ToSlice() {
+	for _, id := range sortedIDs(ids) {
 		var stmt model.Stmt
 		var ok bool
 
-		stmt, ok = ctx.from.Lookup(id.(string))
+		stmt, ok = ctx.from.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`table '%s' not found in old schema (alter table)`, id)
 		}
 		beforeStmt := stmt.(model.Table)
 
-		stmt, ok = ctx.to.Lookup(id.(string))
+		stmt, ok = ctx.to.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`table '%s' not found in new schema (alter table)`, id)
 		}
@@ -280,14 +291,14 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	columnNames := ctx.fromColumns.Difference(ctx.toColumns)
 
 	var buf bytes.Buffer
-	for _, columnName := range columnNames.ToSlice() {
+	for _, columnName := range sortedIDs(columnNames) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE ")
 		buf.WriteString(util.Backquote(ctx.from.Name()))
 		buf.WriteString(" DROP COLUMN ")
-		col, ok := ctx.from.LookupColumn(columnName.(string))
+		col, ok := ctx.from.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
@@ -309,8 +320,7 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// we always start adding with a column that has a either no before
 	// columns, or one that already exists in the database
 	var firstColumn model.TableColumn
-	for _, v := range ctx.toColumns.Difference(ctx.fromColumns).ToSlice() {
-		columnName := v.(string)
+	for _, columnName := range sortedIDs(ctx.toColumns.Difference(ctx.fromColumns)) {
 		// find the before-column for each.
 		col, ok := ctx.to.LookupColumn(columnName)
 		if !ok {
@@ -340,8 +350,7 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var columnNames []string
 	// Find columns that have before columns which existed in both
 	// from and to tables
-	for _, v := range ctx.toColumns.Intersect(ctx.fromColumns).ToSlice() {
-		columnName := v.(string)
+	for _, columnName := range sortedIDs(ctx.toColumns.Intersect(ctx.fromColumns)) {
 		if nextColumnName, ok := beforeToNext[columnName]; ok {
 			delete(beforeToNext, columnName)
 			delete(nextToBefore, nextColumnName)
@@ -410,13 +419,13 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	columnNames := ctx.toColumns.Intersect(ctx.fromColumns)
-	for _, columnName := range columnNames.ToSlice() {
-		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName.(string))
+	for _, columnName := range sortedIDs(columnNames) {
+		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in old schema`, columnName)
 		}
 
-		afterColumnStmt, ok := ctx.to.LookupColumn(columnName.(string))
+		afterColumnStmt, ok := ctx.to.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in new schema`, columnName)
 		}
@@ -448,8 +457,8 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// drop index after drop constraint.
 	// because cannot drop index if needed in a foreign key constraint
 	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
-		indexStmt, ok := ctx.from.LookupIndex(index.(string))
+	for _, index := range sortedIDs(indexes) {
+		indexStmt, ok := ctx.from.LookupIndex(index)
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (drop index)`, index)
 		}
@@ -511,8 +520,8 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// add index before add foreign key.
 	// because cannot add index if create implicitly index by foreign key.
 	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
-		indexStmt, ok := ctx.to.LookupIndex(index.(string))
+	for _, index := range sortedIDs(indexes) {
+		indexStmt, ok := ctx.to.LookupIndex(index)
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (add index)`, index)
 		}
-- 
2.43.0


From 214ecd2e26242944e65b995de1244622f9357051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 14/29] fix: lexer stops early at NUL and splits multi-byte
 characters

NUL was taken for the end of input, silently dropping the rest of the
text, and one byte per read-ahead rune was assumed when cutting tokens.
---
 lexer.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lexer.go b/lexer.go
index 88ca5e5..5e09423 100644
--- a/lexer.go
+++ b/lexer.go
@@ -9,7 +9,8 @@ import (
 	"github.com/schemalex/schemalex/internal/errors"
 )
 
-const eof = rune(0)
+// eof is not a valid rune, so that it cannot be found in the input
+const eof = rune(-1)
 
 type lrune struct {
 	r rune
@@ -82,16 +83,20 @@ func (l *lexer) emit(ctx context.Context, typ TokenType) {
 	// when we emit, we must copy the value of cur to start
 	// but we also must adjust the position by the read-ahead offset
 	l.start = l.cur
-	l.start.pos = l.start.pos - (l.peekCount + 1)
+	l.start.pos = l.offset()
 }
 
-func (l *lexer) str() string {
-	endpos := l.cur.pos - (l.peekCount + 1)
-	w := len(l.input[l.start.pos:])
-	if endpos-l.start.pos > w {
-		endpos = l.start.pos + w
+// offset returns the byte offset of the first rune that has not been
+// consumed, i.e. it does not include the read-ahead rune
+func (l *lexer) offset() int {
+	if l.peekCount >= 0 {
+		return l.cur.pos - l.peekRunes[l.peekCount].w
 	}
-	return string(l.input[l.start.pos:endpos])
+	return l.cur.pos
+}
+
+func (l *lexer) str() string {
+	return string(l.input[l.start.pos:l.offset()])
 }
 
 func (l *lexer) Run(ctx context.Context) {
@@ -248,6 +253,8 @@ func (l *lexer) advance() {
 		l.cur.line++
 		l.cur.col = 0
 	case eof:
+		// nothing to consume
+		return
 	default:
 		l.cur.col++
 	}
-- 
2.43.0


From 9f00a41c90ea25d6e956a4bc679185f7bec5513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 15/29] fix: /*/ does not close the comment it opens

---
 lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer.go b/lexer.go
index 5e09423..84121af 100644
--- a/lexer.go
+++ b/lexer.go
@@ -163,6 +163,7 @@ OUTER:
 		case '/':
 			switch c := l.peek(); c {
 			case '*':
+				l.advance()
 				l.runCComment()
 				l.emit(ctx, COMMENT_IDENT)
 			default:
-- 
2.43.0


From fb6b5389f51f8c808d590b483baf510239b61256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 16/29] fix: backslashes and invalid UTF-8 in quoted strings
 and identifiers

An escaped backslash before the closing quote escaped that quote too, a
backslash was an escape even in `identifiers`, and bytes that are not
UTF-8 were replaced.
---
 lexer.go | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/lexer.go b/lexer.go
index 84121af..3d59323 100644
--- a/lexer.go
+++ b/lexer.go
@@ -286,28 +286,28 @@ OUTER:
 	return IDENT
 }
 
+// unescapeQuotes removes the quotes around s, and undoes the escaping of
+// quotes between them. Other backslash sequences are left as they are.
 func unescapeQuotes(s string, quot rune) string {
 	var buf bytes.Buffer
-	max := utf8.RuneCountInString(s)
-	rdr := strings.NewReader(s)
-	for i := 0; i < max; i++ {
-		r, _, _ := rdr.ReadRune()
-
-		// assume first rune and last rune are quot
-		if i == 0 || i == max-1 {
-			continue
-		}
-
-		switch r {
-		case '\\', quot: // possible escape sequence
-			if r2, _, _ := rdr.ReadRune(); r2 == quot {
+	// assume first byte and last byte are quot
+	s = s[1 : len(s)-1]
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if i+1 < len(s) {
+			switch {
+			case rune(c) == quot:
+				// doubled
 				i++
-				r = quot
-			} else {
-				rdr.UnreadRune()
+			case c == '\\' && quot != '`':
+				i++
+				if rune(s[i]) != quot {
+					buf.WriteByte(c)
+				}
+				c = s[i]
 			}
 		}
-		buf.WriteRune(r)
+		buf.WriteByte(c)
 	}
 	return buf.String()
 }
@@ -317,14 +317,13 @@ func (l *lexer) runQuote(pair rune) error {
 		r := l.next()
 		if r == eof {
 			return errors.New(`unexpected eof`)
-		} else if r == '\\' {
-			if l.peek() == pair {
-				r = l.next()
-			}
+		} else if r == '\\' && pair != '`' {
+			// whatever follows is escaped
+			l.advance()
 		} else if r == pair {
 			if l.peek() == pair {
 				// it is escape
-				r = l.next()
+				l.advance()
 			} else {
 				return nil
 			}
-- 
2.43.0


From 4f315944067fa528ee5c094f6c2209158bd62512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 17/29] fix: do not drop the rest of the input after an illegal
 token

An unterminated quote in a DROP, SET or USE statement made the parser
ignore everything that follows, and report success.
---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index c541540..7df6fdf 100644
--- a/parser.go
+++ b/parser.go
@@ -181,6 +181,9 @@ LOOP:
 					fallthrough
 				case EOF:
 					break S1
+				case ILLEGAL:
+					// the lexer may not have been able to go on from here
+					return nil, newParseError(ctx, t, "unexpected token in statement")
 				default:
 					ctx.advance()
 				}
-- 
2.43.0


From 039133529b8d98901201b3e1c958e81fa743d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 18/29] fix: reject text after CREATE DATABASE instead of
 dropping it

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 7df6fdf..340ad1d 100644
--- a/parser.go
+++ b/parser.go
@@ -252,7 +252,10 @@ func (p *Parser) parseCreateDatabase(ctx *parseCtx) (model.Database, error) {
 	}
 
 	database.SetIfNotExists(notexists)
-	p.eol(ctx)
+	ctx.skipWhiteSpaces()
+	if t := ctx.peek(); !p.eol(ctx) {
+		return nil, newParseError(ctx, t, "expected EOL")
+	}
 	return database, nil
 }
 
-- 
2.43.0


From 2abf36360d43288b8e2260909a61f9c1c76a519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 19/29] fix: refuse to format ENUM and SET columns without
 values

The output had an unmatched closing parenthesis.
---
 format/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/format.go b/format/format.go
index 9975b57..096f6d4 100644
--- a/format/format.go
+++ b/format/format.go
@@ -212,6 +212,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 
 	switch col.Type() {
 	case model.ColumnTypeEnum:
+		if !col.HasEnumValues() {
+			return errors.New(`no values in ENUM column`)
+		}
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
 			buf.WriteString(util.Quote(enumValue))
@@ -220,6 +223,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 		buf.Truncate(buf.Len() - 1)
 		buf.WriteByte(')')
 	case model.ColumnTypeSet:
+		if !col.HasSetValues() {
+			return errors.New(`no values in SET column`)
+		}
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
 			buf.WriteString(util.Quote(setValue))
-- 
2.43.0


From 70c4f5020e12c44663811ad938f88976db8fe510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 20/29] fix: accept CREATE TEMPORARY TABLE

Only CREATE TABLE TEMPORARY was accepted, which neither MySQL nor the
formatter use.
---
 parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser.go b/parser.go
index 340ad1d..d958220 100644
--- a/parser.go
+++ b/parser.go
@@ -218,6 +218,17 @@ func (p *Parser) parseCreate(ctx *parseCtx) (model.Stmt, error) {
 		return nil, errors.Ignorable(nil)
 	case TABLE:
 		return p.parseCreateTable(ctx)
+	case TEMPORARY:
+		ctx.advance()
+		ctx.skipWhiteSpaces()
+		if t := ctx.peek(); t.Type != TABLE {
+			return nil, newParseError(ctx, t, "expected TABLE")
+		}
+		table, err := p.parseCreateTable(ctx)
+		if err != nil {
+			return nil, err
+		}
+		return table.SetTemporary(true), nil
 	default:
 		return nil, newParseError(ctx, t, "expected DATABASE or TABLE")
 	}
-- 
2.43.0


From 30feee6e3ef95e5507766fc3f0fc3f273bc2bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 21/29] fix: report errors that end the list of tables of a
 database early

---
 source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source.go b/source.go
index 993d0f3..32e7648 100644
--- a/source.go
+++ b/source.go
@@ -229,6 +229,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 		buf.WriteString(tableSchema)
 		buf.WriteByte(';')
 	}
+	if err = tableRows.Err(); err != nil {
+		return errors.Wrap(err, `failed to read tables`)
+	}
 
 	return NewReaderSource(&buf).WriteSchema(dst)
 }
-- 
2.43.0


From be405c6a530c17ffbad44cd126bd504d8496c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 22/29] fix: report write errors in lint

---
 lint/lint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index 2e25658..c57b6f5 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -35,13 +35,17 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 
 	for i, stmt := range stmts {
 		if i != 0 {
-			dst.Write([]byte{'\n', '\n'})
+			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
+				return errors.Wrap(err, `failed to write to destination`)
+			}
 		}
 
 		if err := format.SQL(dst, stmt, options...); err != nil {
 			return errors.Wrap(err, `failed to format source`)
 		}
-		dst.Write([]byte{';'})
+		if _, err := dst.Write([]byte{';'}); err != nil {
+			return errors.Wrap(err, `failed to write to destination`)
+		}
 	}
 
 	return nil
-- 
2.43.0


From b9632718ab756f446c98ec08048700835ea9e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 23/29] fix: reject CHARACTER SET, COLLATE and ON UPDATE
 without a value

Any token was taken for the value, even the closing parenthesis or the
end of the input.
---
 parser.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index d958220..7a9f2a7 100644
--- a/parser.go
+++ b/parser.go
@@ -919,12 +919,20 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				return newParseError(ctx, t, "expected SET")
 			}
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetCharacterSet(v.Value)
+			switch t := ctx.next(); t.Type {
+			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+				col.SetCharacterSet(t.Value)
+			default:
+				return newParseError(ctx, t, "expected character set name")
+			}
 		case COLLATE:
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetCollation(v.Value)
+			switch t := ctx.next(); t.Type {
+			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+				col.SetCollation(t.Value)
+			default:
+				return newParseError(ctx, t, "expected collation name")
+			}
 		case UNSIGNED:
 			if !check(coloptUnsigned) {
 				return newParseError(ctx, t, "cannot apply UNSIGNED")
@@ -963,8 +971,12 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				return newParseError(ctx, t, "expected ON UPDATE")
 			}
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetAutoUpdate(v.Value)
+			switch t := ctx.next(); t.Type {
+			case IDENT, CURRENT_TIMESTAMP, NOW:
+				col.SetAutoUpdate(t.Value)
+			default:
+				return newParseError(ctx, t, "expected CURRENT_TIMESTAMP")
+			}
 		case DEFAULT:
 			if !check(coloptDefault) {
 				return newParseError(ctx, t, "cannot apply DEFAULT")
-- 
2.43.0


From f18b38e9e3d755f13808cd53639a756ddff9be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 24/29] fix: make the identities of different indexes differ

A constraint named none had the identity of one without a name, and parts
with the separators in them could be confused with others.
---
 model/index.go     | 13 +++++++------
 model/reference.go |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/model/index.go b/model/index.go
index 7b838fc..86b052d 100644
--- a/model/index.go
+++ b/model/index.go
@@ -3,6 +3,7 @@ package model
 import (
 	"crypto/sha256"
 	"fmt"
+	"strconv"
 )
 
 // NewIndex creates a new index with the given index kind.
@@ -28,11 +29,11 @@ func (stmt *index) ID() string {
 
 	sym := "none"
 	if stmt.HasSymbol() {
-		sym = stmt.Symbol()
+		sym = "symbol#" + stmt.Symbol()
 	}
 
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%q.%s.%s",
 		stmt.table,
 		sym,
 		stmt.kind,
@@ -40,14 +41,14 @@ func (stmt *index) ID() string {
 	)
 	for col := range stmt.Columns() {
 		fmt.Fprintf(h, ".")
-		fmt.Fprintf(h, "%s", col.ID())
+		fmt.Fprintf(h, "%q", col.ID())
 	}
 	if stmt.reference != nil {
 		fmt.Fprintf(h, ".")
 		fmt.Fprint(h, stmt.reference.ID())
 	}
 	for opt := range stmt.Options() {
-		fmt.Fprintf(h, ".%s=%s", opt.ID(), opt.Value())
+		fmt.Fprintf(h, ".%q=%q", opt.ID(), opt.Value())
 	}
 	return fmt.Sprintf("%s#%x", name, h.Sum(nil))
 }
@@ -174,9 +175,9 @@ func NewIndexColumn(name string) IndexColumn {
 }
 
 func (col *indexColumn) ID() string {
-	id := "index_column#" + col.Name()
+	id := "index_column#" + strconv.Quote(col.Name())
 	if col.HasLength() {
-		id = id + "-" + col.Length()
+		id = id + "-" + strconv.Quote(col.Length())
 	}
 	switch {
 	case col.IsAscending():
diff --git a/model/reference.go b/model/reference.go
index d1fb6ce..79fde84 100644
--- a/model/reference.go
+++ b/model/reference.go
@@ -17,14 +17,14 @@ func NewReference() Reference {
 func (r *reference) ID() string {
 	h := sha256.New()
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%s.%s.%s",
 		r.tableName,
 		r.match,
 		r.onDelete,
 		r.onUpdate,
 	)
 	for col := range r.Columns() {
-		fmt.Fprintf(h, "%s", col.ID())
+		fmt.Fprintf(h, "%q", col.ID())
 		fmt.Fprintf(h, ".")
 	}
 	return fmt.Sprintf("reference#%x", h.Sum(nil))
-- 
2.43.0


From 6f481f848157c1ad883e2fa6ed71316073f150ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 25/29] fix: accept any character in statements that are
 skipped

SET statements with user or system variables (SET @a = @@b;) were
rejected because of the illegal token @.
---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 7a9f2a7..96c8159 100644
--- a/parser.go
+++ b/parser.go
@@ -182,8 +182,12 @@ LOOP:
 				case EOF:
 					break S1
 				case ILLEGAL:
-					// the lexer may not have been able to go on from here
-					return nil, newParseError(ctx, t, "unexpected token in statement")
+					// the lexer cannot go on after a quote that is not closed
+					switch t.Value[0] {
+					case '\'', '"', '`':
+						return nil, newParseError(ctx, t, "unexpected token in statement")
+					}
+					ctx.advance()
 				default:
 					ctx.advance()
 				}
-- 
2.43.0


From dd9d9e15f35aee01c37ed06a1363b12511b9a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 26/29] fix: emit ASTERISK tokens

The token type existed, but the lexer took asterisks for illegal text.
---
 lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer.go b/lexer.go
index 3d59323..205c0bf 100644
--- a/lexer.go
+++ b/lexer.go
@@ -215,6 +215,8 @@ OUTER:
 			}
 		case '=':
 			l.emit(ctx, EQUAL)
+		case '*':
+			l.emit(ctx, ASTERISK)
 		default:
 			l.emit(ctx, ILLEGAL)
 		}
-- 
2.43.0


From 4e02da839259339d4d684d62e97fc46a3e871a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 27/29] fix: accept definitions after a FULLTEXT index

A FULLTEXT index without WITH PARSER could only be the last definition
of a table.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 96c8159..34fab51 100644
--- a/parser.go
+++ b/parser.go
@@ -1423,7 +1423,7 @@ OUTER:
 func (p *Parser) parseColumnIndexOptions(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
 	t := ctx.peek()
-	if t.Type == RPAREN {
+	if t.Type == RPAREN || t.Type == COMMA {
 		return nil
 	}
 	// TODO: support for other index options.
-- 
2.43.0


From b463bf81b2e52d0c5e9f6d75694f25bfc30f0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 28/29] fix: unquote numeric defaults of BOOL columns when
 normalizing

---
 model/table_column.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/table_column.go b/model/table_column.go
index 69832de..41339b8 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -342,6 +342,12 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			case "FALSE":
 				clone = true
 				boolDefault = "0"
+			default:
+				// BOOL is a synonym of a numeric type
+				if t.IsQuotedDefault() {
+					clone = true
+					removeQuotes = true
+				}
 			}
 		}
 	} else {
-- 
2.43.0


From 5310f8f9971e722a39d0bb019cfa5ef8099c7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 29/29] fix: report unknown ON DELETE / ON UPDATE actions
 instead of writing half a clause

---
 format/format.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 096f6d4..3db67e0 100644
--- a/format/format.go
+++ b/format/format.go
@@ -451,9 +451,12 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 		buf.WriteString(" MATCH SIMPLE")
 	}
 
-	// we should really check for errors...
-	writeReferenceOption(&buf, "ON DELETE", r.OnDelete())
-	writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate())
+	if err := writeReferenceOption(&buf, "ON DELETE", r.OnDelete()); err != nil {
+		return err
+	}
+	if err := writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate()); err != nil {
+		return err
+	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
 		return err
-- 
2.43.0

