package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/schemalex/schemalex/model"
)

type G struct{ *rand.Rand }

func (g G) one(l ...string) string { return l[g.Intn(len(l))] }
func (g G) p(n int) bool           { return g.Intn(100) < n }

var pieces = []string{"a", "b", "foo", "Bar", "id", "t1", "x_y", "`", "``", "'", "''", "\"", "\\", "\\'", "\\\\", " ", ",", "(", ")", ";", "é", "日本", "\x00", "\xff", "%", "%s", "%d", "--", "#", "/*", "*/", "\n", "\t", "0", "NULL", "TABLE", ".", "-"}

func (g G) str() string {
	if g.p(50) {
		return g.one("a", "b", "c", "foo", "bar", "id", "name", "utf8", "1", "0", "", "10")
	}
	var b strings.Builder
	for n := g.Intn(4); n >= 0; n-- {
		b.WriteString(pieces[g.Intn(len(pieces))])
	}
	return b.String()
}

// name without line breaks and semicolons, for texts that are split again
func (g G) name() string {
	if g.p(60) {
		return g.one("a", "b", "c", "d", "e", "f", "id", "foo", "foo_id", "Foo", "z1")
	}
	s := g.str()
	for _, c := range []string{"\n", ";", "\x00", "\xff"} {
		s = strings.Replace(s, c, "_", -1)
	}
	if s == "" {
		s = "n"
	}
	return s
}

func (g G) optS(n int, f func() string) *string {
	if g.p(n) {
		s := f()
		return &s
	}
	return nil
}

// ---- model values

func (g G) num() string { return g.one("0", "1", "2", "3", "10", "11", "20", "255", "7") }

func (g G) lenP() *PLen {
	l := &PLen{L: g.num()}
	if g.p(30) {
		l.D = sp(g.num())
	}
	return l
}

func (g G) colType() model.ColumnType {
	return model.ColumnType(1 + g.Intn(int(model.ColumnTypeMax)-1))
}

func (g G) strs(f func() string) []string {
	var l []string
	for n := g.Intn(4); n >= 0; n-- {
		l = append(l, f())
	}
	return l
}

func (g G) col(name func() string, s func() string) PCol {
	c := PCol{Name: name(), Type: g.colType(), Null: model.NullState(g.Intn(3))}
	if g.p(40) {
		c.Len = g.lenP()
	}
	c.Charset = g.optS(20, s)
	c.Coll = g.optS(20, s)
	c.Comment = g.optS(25, s)
	c.AutoUpd = g.optS(15, func() string { return g.one("CURRENT_TIMESTAMP", "NOW") })
	if g.p(45) {
		switch g.Intn(4) {
		case 0:
			c.Def = sp(g.one("TRUE", "FALSE", "NULL", "1", "0", "CURRENT_TIMESTAMP"))
		default:
			c.Def = sp(s())
			c.DefQ = true
		}
		if g.p(15) {
			c.DefQ = !c.DefQ
		}
	}
	if c.Type == model.ColumnTypeEnum || g.p(3) {
		c.Enum = g.strs(s)
	}
	if c.Type == model.ColumnTypeSet || g.p(3) {
		c.Set = g.strs(s)
	}
	c.AI, c.Bin, c.Key, c.Prim, c.Uniq, c.Uns, c.ZF = g.p(15), g.p(15), g.p(15), g.p(15), g.p(15), g.p(25), g.p(15)
	return c
}

func (g G) icols(name func() string) []PICol {
	var l []PICol
	for n := g.Intn(3); n >= 0; n-- {
		c := PICol{Name: name(), Dir: g.Intn(3)}
		c.Len = g.optS(30, g.num)
		l = append(l, c)
	}
	return l
}

func (g G) ref(name func() string) *PRef {
	return &PRef{Table: name(), Cols: g.icols(name), Match: model.ReferenceMatch(g.Intn(4)), Del: model.ReferenceOption(g.Intn(5)), Upd: model.ReferenceOption(g.Intn(5))}
}

func (g G) idx(name func() string) PIdx {
	x := PIdx{Kind: model.IndexKind(1 + g.Intn(6)), Typ: model.IndexType(g.Intn(3)), Cols: g.icols(name)}
	x.Name = g.optS(60, name)
	x.Sym = g.optS(40, name)
	if x.Kind == model.IndexKindForeignKey && g.p(80) || g.p(5) {
		x.Ref = g.ref(name)
	}
	for n := g.Intn(3); n > 0 && (x.Kind == model.IndexKindFullText || g.p(10)); n-- {
		x.Opts = append(x.Opts, POpt{g.one("WITH PARSER", "WITH PARSER", "COMMENT"), name(), g.p(60)})
	}
	return x
}

func (g G) tab(name, s func() string) PTab {
	t := PTab{Name: name(), Temp: g.p(20), INE: g.p(20)}
	if g.p(10) {
		t.Like = sp(name())
	}
	seen := map[string]bool{}
	for n := g.Intn(6); n > 0; n-- {
		c := g.col(name, s)
		if !seen[c.Name] {
			seen[c.Name] = true
			t.Cols = append(t.Cols, c)
		}
	}
	for n := g.Intn(4); n > 0; n-- {
		t.Idx = append(t.Idx, g.idx(name))
	}
	for n := g.Intn(4); n > 0; n-- {
		t.Opts = append(t.Opts, POpt{g.one("ENGINE", "COMMENT", "AUTO_INCREMENT", "DEFAULT CHARACTER SET"), s(), g.p(50)})
	}
	return t
}

// ---- texts: lists of words; a word starting with \x01 is glued to the
// previous one

func (g G) kw(s string) []string {
	l := strings.Fields(s)
	for i := range l {
		switch g.Intn(6) {
		case 0:
			l[i] = strings.ToLower(l[i])
		case 1:
			l[i] = strings.Title(strings.ToLower(l[i]))
		}
	}
	return l
}

func bq(s string) string { return "`" + strings.Replace(s, "`", "``", -1) + "`" }
func sq(s string) string { return "'" + strings.Replace(s, "'", "''", -1) + "'" }

func (g G) tIdent() string {
	switch g.Intn(5) {
	case 0:
		return bq(g.str())
	case 1:
		return g.one("`a`", "`id`", "`b`", "`table`")
	}
	return g.one("a", "b", "c", "id", "foo", "foo_id", "Foo", "utf8", "utf8mb4_bin", "bigtable", "intx", "e1", "x1_y")
}

func (g G) tStr() string {
	s := g.str()
	if strings.HasSuffix(s, "\\") {
		s += "x"
	}
	switch g.Intn(4) {
	case 0:
		return `"` + strings.Replace(strings.Replace(s, `\"`, "", -1), `"`, `""`, -1) + `"`
	case 1:
		return `'` + strings.Replace(s, `'`, `\'`, -1) + `'`
	}
	return "'" + strings.Replace(strings.Replace(s, `\'`, "", -1), "'", "''", -1) + "'"
}

func (g G) tNum() string {
	return g.one("1", "0", "10", "11", "255", "3", "007", "+5", "-1", "1.5", ".5", "1e3", "2.5E-3", "1.")
}

type W []string

func (w *W) k(g G, s string) { *w = append(*w, g.kw(s)...) }
func (w *W) a(s ...string)   { *w = append(*w, s...) }

var typeNames = strings.Fields("BIT TINYINT SMALLINT MEDIUMINT INT INTEGER BIGINT REAL DOUBLE FLOAT DECIMAL NUMERIC DATE TIME TIMESTAMP DATETIME YEAR CHAR VARCHAR BINARY VARBINARY TINYBLOB BLOB MEDIUMBLOB LONGBLOB TINYTEXT TEXT MEDIUMTEXT LONGTEXT ENUM SET BOOLEAN BOOL JSON GEOMETRY")

func (g G) tCol() W {
	var w W
	w.a(g.tIdent())
	t := typeNames[g.Intn(len(typeNames))]
	w.k(g, t)
	switch {
	case t == "ENUM" || t == "SET":
		if g.p(95) {
			w.a("(")
			for n := g.Intn(3); n >= 0; n-- {
				w.a(g.tStr())
				if n > 0 {
					w.a(",")
				}
			}
			w.a(")")
		}
	case strings.Contains("REAL DOUBLE FLOAT", t):
		if g.p(50) {
			w.a("(", g.tNum(), ",", g.tNum(), ")")
		}
	case strings.Contains("DECIMAL NUMERIC", t):
		switch g.Intn(3) {
		case 0:
			w.a("(", g.tNum(), ",", g.tNum(), ")")
		case 1:
			w.a("(", g.tNum(), ")")
		}
	case strings.Contains("DATE YEAR TINYBLOB BLOB MEDIUMBLOB LONGBLOB BOOL BOOLEAN JSON GEOMETRY", t):
	default:
		if g.p(50) {
			w.a("(", g.tNum(), ")")
		}
	}
	if strings.Contains("TINYINT SMALLINT MEDIUMINT INTEGER BIGINT REAL DOUBLE FLOAT DECIMAL NUMERIC", t) {
		if g.p(30) {
			w.k(g, "UNSIGNED")
		}
		if g.p(20) {
			w.k(g, "ZEROFILL")
		}
	}
	if strings.Contains("CHAR VARCHAR TINYTEXT TEXT MEDIUMTEXT LONGTEXT", t) && g.p(20) {
		w.k(g, "BINARY")
	}
	for n := g.Intn(5); n > 0; n-- {
		switch g.Intn(12) {
		case 0:
			w.k(g, "CHARACTER SET")
			w.a(g.one(g.tIdent(), "utf8", "'latin1'", "binary"))
		case 1:
			w.k(g, "COLLATE")
			w.a(g.one(g.tIdent(), "utf8_bin", "'x'", "BINARY"))
		case 2:
			w.k(g, "NOT NULL")
		case 3:
			w.k(g, "NULL")
		case 4:
			w.k(g, "ON UPDATE")
			w.a(g.one("CURRENT_TIMESTAMP", "now", "current_timestamp", "foo"))
		case 5, 6:
			w.k(g, "DEFAULT")
			switch g.Intn(5) {
			case 0:
				w.a(g.tStr())
			case 1:
				w.a(g.tNum())
			case 2:
				w.k(g, g.one("NULL", "CURRENT_TIMESTAMP", "TRUE", "FALSE"))
			case 3:
				w.a(g.one("NOW", "now", "Now"), "\x01(", "\x01)")
			case 4:
				w.a(g.one("foo", "Bar", "b_1"))
			}
		case 7:
			w.k(g, "AUTO_INCREMENT")
		case 8:
			w.k(g, g.one("UNIQUE", "UNIQUE KEY"))
		case 9:
			w.k(g, g.one("PRIMARY KEY", "PRIMARY KEY", "KEY"))
		case 10, 11:
			w.k(g, "COMMENT")
			w.a(sq(strings.Replace(g.str(), `\`, "", -1)))
		}
	}
	return w
}

func (g G) tICols() W {
	w := W{"("}
	for n := g.Intn(3); n >= 0; n-- {
		w.a(g.tIdent())
		if g.p(30) {
			w.a("(", "\x01"+g.tNum(), ")")
		}
		if g.p(30) {
			w.k(g, g.one("ASC", "DESC"))
		}
		if n > 0 {
			w.a(",")
		}
	}
	w.a(")")
	return w
}

func (g G) tIdx() W {
	var w W
	sym := false
	if g.p(40) {
		w.k(g, "CONSTRAINT")
		if g.p(80) {
			w.a(g.tIdent())
		}
		sym = true
	}
	name := func(n int) {
		if g.p(n) {
			w.a(g.tIdent())
		}
	}
	using := func() {
		if g.p(30) {
			w.k(g, "USING "+g.one("BTREE", "HASH"))
		}
	}
	k := g.Intn(6)
	if sym {
		k = g.Intn(3)
	}
	switch k {
	case 0:
		w.k(g, "PRIMARY KEY")
		name(20)
	case 1:
		w.k(g, g.one("UNIQUE", "UNIQUE KEY", "UNIQUE INDEX"))
		name(60)
	case 2:
		w.k(g, "FOREIGN KEY")
		name(50)
		w.a(g.tICols()...)
		if g.p(85) {
			w.k(g, "REFERENCES")
			w.a(g.tIdent())
			w.a(g.tICols()...)
			if g.p(40) {
				w.k(g, "MATCH "+g.one("FULL", "PARTIAL", "SIMPLE"))
			}
			act := func() string { return g.one("RESTRICT", "CASCADE", "SET NULL", "NO ACTION") }
			if g.p(40) {
				w.k(g, "ON DELETE "+act())
			}
			if g.p(40) {
				w.k(g, "ON UPDATE "+act())
			}
		}
		return w
	case 3:
		w.k(g, g.one("INDEX", "KEY"))
		name(70)
	case 4:
		w.k(g, g.one("FULLTEXT", "FULLTEXT INDEX", "FULLTEXT KEY"))
		name(70)
		w.a(g.tICols()...)
		if g.p(50) {
			w.k(g, "WITH PARSER")
			w.a(g.tIdent())
		}
		return w
	case 5:
		w.k(g, g.one("SPATIAL", "SPATIAL INDEX"))
		name(70)
		w.a(g.tICols()...)
		return w
	}
	before := g.p(50)
	if before {
		using()
	}
	w.a(g.tICols()...)
	if !before {
		using()
	}
	return w
}

func (g G) tOpt() W {
	var w W
	o := optspecs[g.Intn(len(optspecs))]
	w.k(g, strings.Join(o.words, " "))
	if g.p(60) {
		w.a("=")
	}
	switch v := g.one(o.vals...); v {
	case "IDENT":
		w.a(g.one("InnoDB", "utf8", "a", "b1"))
	case "BACKTICK_IDENT":
		w.a(bq(g.str()))
	case "NUMBER":
		w.a(g.tNum())
	case "SINGLE_QUOTE_IDENT":
		w.a(sq(strings.Replace(g.str(), `\`, "", -1)))
	case "DOUBLE_QUOTE_IDENT":
		w.a(`"` + strings.Replace(strings.Replace(g.str(), `\`, "", -1), `"`, `""`, -1) + `"`)
	default:
		w.k(g, v)
	}
	return w
}

// focus: "table", "column", "index", "" (everything)
func (g G) tTable(focus string) W {
	var w W
	w.k(g, "CREATE")
	ine := false
	if focus == "table" || focus == "" {
		switch g.Intn(8) {
		case 0:
			w.k(g, "TEMPORARY TABLE")
		case 1:
			w.k(g, "TABLE TEMPORARY")
		default:
			w.k(g, "TABLE")
		}
		ine = g.p(25)
	} else {
		w.k(g, "TABLE")
	}
	after := g.p(50)
	if ine && !after {
		w.k(g, "IF NOT EXISTS")
	}
	w.a(g.tIdent())
	if (focus == "table" || focus == "") && g.p(10) {
		w.k(g, "LIKE")
		w.a(g.tIdent())
		return w
	}
	if ine && after {
		w.k(g, "IF NOT EXISTS")
	}
	w.a("(")
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			w.a(",")
		}
		switch {
		case focus == "column" || focus == "table" && g.p(80):
			w.a(g.tCol()...)
		case focus == "index" || g.p(40):
			w.a(g.tIdx()...)
		default:
			w.a(g.tCol()...)
		}
	}
	w.a(")")
	if focus == "table" || focus == "" || g.p(10) {
		for n := g.Intn(4); n > 0; n-- {
			w.a(g.tOpt()...)
			if n > 1 && g.p(50) {
				w.a(",")
			}
		}
	}
	return w
}

func (g G) tStmt(focus string) W {
	if focus == "" || focus == "table" {
		var w W
		switch g.Intn(12) {
		case 0:
			w.k(g, g.one("DROP TABLE", "SET", "USE"))
			w.a(g.one("a", "`x;y`", "'a;b'", "@a", "(", "x = 1 , y", "CREATE TABLE z (id INT)"))
			return w
		case 1:
			w.k(g, "CREATE DATABASE")
			if g.p(40) {
				w.k(g, "IF NOT EXISTS")
			}
			w.a(g.tIdent())
			return w
		case 2:
			return nil
		}
	}
	return g.tTable(focus)
}

func (g G) tSchema(focus string) W {
	var w W
	n := 1
	if focus == "" || g.p(20) {
		n = g.Intn(5)
	}
	for i := 0; i < n; i++ {
		w.a(g.tStmt(focus)...)
		if i < n-1 || g.p(70) {
			w.a(";")
		}
	}
	return w
}

var junk = strings.Fields("( ) , ; . = - + / * @ ? ' \" ` 1 2.5 foo `a` 'x' \"y\" NULL NOT KEY PRIMARY UNIQUE INDEX FOREIGN REFERENCES CONSTRAINT FULLTEXT SPATIAL CHECK DEFAULT COMMENT ON UPDATE DELETE SET CHARACTER COLLATE CREATE TABLE DATABASE TEMPORARY IF EXISTS LIKE DROP USE UNSIGNED ZEROFILL BINARY INT VARCHAR ENUM DECIMAL DOUBLE DATE USING BTREE HASH MATCH FULL CASCADE RESTRICT NO ACTION WITH PARSER ASC DESC ENGINE TABLESPACE UNION AUTO_INCREMENT NOW TRUE ROW_FORMAT PACK_KEYS DATA DIRECTORY \x00 é --x")

func (g G) mutate(w W) W {
	w = append(W(nil), w...)
	for n := 1 + g.Intn(2); n > 0; n-- {
		if len(w) == 0 {
			return W{junk[g.Intn(len(junk))]}
		}
		i := g.Intn(len(w))
		switch g.Intn(6) {
		case 0, 1:
			w = append(w[:i:i], w[i+1:]...)
		case 2:
			w = append(w[:i:i], append(W{junk[g.Intn(len(junk))]}, w[i:]...)...)
		case 3:
			w[i] = junk[g.Intn(len(junk))]
		case 4:
			j := g.Intn(len(w))
			w[i], w[j] = w[j], w[i]
		case 5:
			w = append(w[:i:i], append(W{w[i]}, w[i:]...)...)
		}
		if g.p(8) && len(w) > 0 {
			w = w[:g.Intn(len(w))]
		}
	}
	return w
}

func (g G) trivia() string {
	switch g.Intn(12) {
	case 0:
		return "\n"
	case 1:
		return " /* x, ( ' */ "
	case 2:
		return "\t"
	case 3:
		return " -- c (;\n"
	case 4:
		return "# d '\n"
	case 5:
		return "\r\n "
	}
	return " "
}

func (g G) text(w W, plain bool) string {
	var b strings.Builder
	for i, s := range w {
		if strings.HasPrefix(s, "\x01") {
			b.WriteString(s[1:])
			continue
		}
		if i > 0 {
			switch {
			case plain:
				b.WriteByte(' ')
			case strings.Contains("(),;=", s) && g.p(50):
			case strings.Contains("(),;=", w[i-1]) && g.p(50):
			default:
				b.WriteString(g.trivia())
			}
		}
		b.WriteString(s)
	}
	if !plain && g.p(30) {
		b.WriteString(g.trivia())
	}
	return b.String()
}

// rawBytes is text for the lexer
func (g G) rawBytes() string {
	var b strings.Builder
	all := append(append([]string{}, pieces...), "1", "12.5", "1e5", "1E-2", "e", "E", ".", "..5", "+", "-", "-1", "+.5", "-- c\n", "--", "--\n", "/", "/*", "*/", "/* */", "/*/", "**/", "#c\n", "=", "select", "Create", "CURRENT_TIMESTAMP", "now", "_", "@", "?", "\r", "\v", "\f", "'a'", "`b`", "\"c\"", "\xe6\x97", "\xf0\x9f\x98\x80", "\u0130", "ſ", "K", "İ", "\x7f", "\x80", "￿", "�")
	for n := g.Intn(12); n >= 0; n-- {
		b.WriteString(all[g.Intn(len(all))])
		if g.p(4) {
			b.WriteByte(byte(g.Intn(256)))
		}
	}
	return b.String()
}

var _ = fmt.Sprint
