package main

import (
	"strings"

	"github.com/schemalex/schemalex/model"
)

// The grammar, written independently of the code, over the significant
// tokens of a text.

type stok struct {
	RTok
	glued bool // nothing between the previous token and this one
}

type reject struct {
	class string // table, column, index, option, statement
	why   string
}

type rparser struct {
	toks  []stok
	i     int
	class string
}

func (p *rparser) cur() stok {
	if p.i >= len(p.toks) {
		return stok{RTok: RTok{Kind: "EOF"}}
	}
	return p.toks[p.i]
}

func (p *rparser) fail(why string) { panic(reject{p.class, why}) }

func (p *rparser) is(kinds ...string) bool {
	k := p.cur().Kind
	for _, x := range kinds {
		if x == k {
			return true
		}
	}
	return false
}

func (p *rparser) opt(kinds ...string) bool {
	if p.is(kinds...) {
		p.i++
		return true
	}
	return false
}

func (p *rparser) want(kinds ...string) string {
	if !p.is(kinds...) {
		p.fail("expected " + strings.Join(kinds, "/") + ", found " + p.cur().Kind)
	}
	v := p.cur().Value
	p.i++
	return v
}

func (p *rparser) wantGlued(kind string) string {
	if !p.cur().glued {
		p.fail("expected " + kind + " directly after the previous token")
	}
	return p.want(kind)
}

// refparse returns the tables written in src, before normalization, or the
// reason for which src must be rejected.
func refparse(src string) (tabs []PTab, rej *reject) {
	defer func() {
		if x := recover(); x != nil {
			if r, ok := x.(reject); ok {
				tabs, rej = nil, &r
				return
			}
			panic(x)
		}
	}()
	p := &rparser{class: "statement"}
	glued := false
	for _, t := range reflex(src) {
		if t.Kind == "SPACE" || t.Kind == "COMMENT_IDENT" {
			glued = false
			continue
		}
		p.toks = append(p.toks, stok{t, glued})
		glued = true
	}
	for {
		p.class = "statement"
		switch {
		case p.is("EOF"):
			return tabs, nil
		case p.opt("SEMICOLON"):
		case p.opt("DROP", "SET", "USE"):
			for !p.is("SEMICOLON", "EOF") {
				if p.is("ILLEGAL") && strings.ContainsAny(p.cur().Text[:1], "'\"`") {
					p.fail("quote not closed")
				}
				p.i++
			}
			p.opt("SEMICOLON")
		case p.opt("CREATE"):
			switch {
			case p.opt("DATABASE"):
				if p.opt("IF") {
					p.want("NOT")
					p.want("EXISTS")
				}
				p.want("IDENT", "BACKTICK_IDENT")
				p.end()
			case p.opt("TEMPORARY"):
				p.want("TABLE")
				t := p.table()
				t.Temp = true
				tabs = append(tabs, t)
			case p.opt("TABLE"):
				tabs = append(tabs, p.table())
			default:
				p.fail("CREATE what")
			}
		default:
			p.fail("not a statement: " + p.cur().Kind)
		}
	}
}

func (p *rparser) end() {
	if !p.is("EOF") {
		p.want("SEMICOLON")
	}
}

func (p *rparser) ident() string { return p.want("IDENT", "BACKTICK_IDENT") }

func (p *rparser) table() (t PTab) {
	p.class = "table"
	t.Temp = p.opt("TEMPORARY")
	if p.opt("IF") {
		p.want("NOT")
		p.want("EXISTS")
		t.INE = true
	}
	t.Name = p.ident()
	if p.opt("LIKE") {
		t.Like = sp(p.ident())
		p.opt("SEMICOLON")
		return t
	}
	if p.opt("IF") {
		p.want("NOT")
		p.want("EXISTS")
		t.INE = true
	}
	p.want("LPAREN")
	for {
		p.class = "index"
		switch {
		case p.opt("CONSTRAINT"):
			sym := ""
			if p.is("IDENT", "BACKTICK_IDENT") {
				sym = p.ident()
			}
			if !p.is("PRIMARY", "UNIQUE", "FOREIGN") {
				p.fail("CONSTRAINT of what")
			}
			x := p.index()
			if sym != "" {
				x.Sym = &sym
			}
			t.Idx = append(t.Idx, x)
		case p.is("PRIMARY", "UNIQUE", "INDEX", "KEY", "FULLTEXT", "SPATIAL", "FOREIGN"):
			t.Idx = append(t.Idx, p.index())
		case p.is("IDENT", "BACKTICK_IDENT"):
			p.class = "column"
			t.Cols = append(t.Cols, p.column())
		default:
			p.class = "table"
			p.fail("not a definition: " + p.cur().Kind)
		}
		p.class = "table"
		if p.opt("COMMA") {
			continue
		}
		p.want("RPAREN")
		break
	}
	p.class = "option"
	for p.options(&t) {
	}
	p.class = "statement"
	p.end()
	p.opt("SEMICOLON")
	return t
}

type optspec struct {
	words []string
	key   string
	vals  []string
}

var optspecs = []optspec{}

func init() {
	id := []string{"IDENT", "BACKTICK_IDENT"}
	num := []string{"NUMBER"}
	str := []string{"SINGLE_QUOTE_IDENT", "DOUBLE_QUOTE_IDENT"}
	add := func(words, key string, vals []string) {
		if key == "" {
			key = words
		}
		optspecs = append(optspecs, optspec{strings.Fields(words), key, vals})
	}
	add("ENGINE", "", id)
	add("AUTO_INCREMENT", "", num)
	add("AVG_ROW_LENGTH", "", num)
	add("DEFAULT CHARSET", "DEFAULT CHARACTER SET", id)
	add("DEFAULT CHARACTER SET", "", id)
	add("DEFAULT COLLATE", "", id)
	add("CHARACTER SET", "DEFAULT CHARACTER SET", id)
	add("COLLATE", "DEFAULT COLLATE", id)
	add("CHECKSUM", "", num)
	add("COMMENT", "", str)
	add("CONNECTION", "", str)
	add("DATA DIRECTORY", "", str)
	add("DELAY_KEY_WRITE", "", num)
	add("INDEX DIRECTORY", "", str)
	add("INSERT_METHOD", "", []string{"IDENT"})
	add("KEY_BLOCK_SIZE", "", num)
	add("MAX_ROWS", "", num)
	add("MIN_ROWS", "", num)
	add("PACK_KEYS", "", []string{"NUMBER", "IDENT"})
	add("PASSWORD", "", str)
	add("ROW_FORMAT", "", []string{"DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT"})
	add("STATS_AUTO_RECALC", "", []string{"NUMBER", "DEFAULT"})
	add("STATS_PERSISTENT", "", []string{"NUMBER", "DEFAULT"})
	add("STATS_SAMPLE_PAGES", "", num)
}

// options reads one option (after commas); false at the end
func (p *rparser) options(t *PTab) bool {
	if p.is("EOF", "SEMICOLON") {
		return false
	}
	n := 0
	for p.opt("COMMA") {
		n++
	}
	for _, o := range optspecs {
		ok := true
		for k, w := range o.words {
			if p.i+k >= len(p.toks) || p.toks[p.i+k].Kind != w {
				ok = false
			}
		}
		if !ok {
			continue
		}
		p.i += len(o.words)
		p.opt("EQUAL")
		quo := p.is("SINGLE_QUOTE_IDENT", "DOUBLE_QUOTE_IDENT")
		t.Opts = append(t.Opts, POpt{o.key, p.want(o.vals...), quo})
		return true
	}
	p.fail("not an option: " + p.cur().Kind)
	return false
}

func (p *rparser) column() (c PCol) {
	const (
		none = iota
		size
		dec
		decopt
		enum
		set
	)
	type tspec struct {
		t          model.ColumnType
		paren      int
		uz, binary bool
	}
	types := map[string]tspec{
		"BIT": {model.ColumnTypeBit, size, false, false}, "TINYINT": {model.ColumnTypeTinyInt, size, true, false},
		"SMALLINT": {model.ColumnTypeSmallInt, size, true, false}, "MEDIUMINT": {model.ColumnTypeMediumInt, size, true, false},
		"INT": {model.ColumnTypeInt, size, true, false}, "INTEGER": {model.ColumnTypeInteger, size, true, false}, "BIGINT": {model.ColumnTypeBigInt, size, true, false},
		"REAL": {model.ColumnTypeReal, dec, true, false}, "DOUBLE": {model.ColumnTypeDouble, dec, true, false}, "FLOAT": {model.ColumnTypeFloat, dec, true, false},
		"DECIMAL": {model.ColumnTypeDecimal, decopt, true, false}, "NUMERIC": {model.ColumnTypeNumeric, decopt, true, false},
		"DATE": {model.ColumnTypeDate, none, false, false}, "YEAR": {model.ColumnTypeYear, none, false, false},
		"TIME": {model.ColumnTypeTime, size, false, false}, "TIMESTAMP": {model.ColumnTypeTimestamp, size, false, false}, "DATETIME": {model.ColumnTypeDateTime, size, false, false},
		"CHAR": {model.ColumnTypeChar, size, false, true}, "VARCHAR": {model.ColumnTypeVarChar, size, false, true},
		"BINARY": {model.ColumnTypeBinary, size, false, false}, "VARBINARY": {model.ColumnTypeVarBinary, size, false, false},
		"TINYBLOB": {model.ColumnTypeTinyBlob, none, false, false}, "BLOB": {model.ColumnTypeBlob, none, false, false}, "MEDIUMBLOB": {model.ColumnTypeMediumBlob, none, false, false}, "LONGBLOB": {model.ColumnTypeLongBlob, none, false, false},
		"TINYTEXT": {model.ColumnTypeTinyText, size, false, true}, "TEXT": {model.ColumnTypeText, size, false, true}, "MEDIUMTEXT": {model.ColumnTypeMediumText, size, false, true}, "LONGTEXT": {model.ColumnTypeLongText, size, false, true},
		"ENUM": {model.ColumnTypeEnum, enum, false, false}, "SET": {model.ColumnTypeSet, set, false, false},
		"BOOL": {model.ColumnTypeBool, none, false, false}, "BOOLEAN": {model.ColumnTypeBoolean, none, false, false},
		"JSON": {model.ColumnTypeJSON, none, false, false}, "GEOMETRY": {model.ColumnTypeGEOMETRY, none, false, false},
	}
	c.Name = p.ident()
	ts, ok := types[p.cur().Kind]
	if !ok {
		p.fail("not a type: " + p.cur().Kind)
	}
	p.i++
	c.Type = ts.t
	// attributes of the type come first, in this order
	const (
		atParen = iota
		atUnsigned
		atZerofill
		atBinary
		atRest
	)
	stage := atParen
	at := func(n int) {
		if stage > n {
			p.fail("attribute too late")
		}
		stage = n
	}
	for {
		switch {
		case p.is("COMMA", "RPAREN"):
			return c
		case p.is("LPAREN"):
			if ts.paren == none {
				p.fail("the type has no length")
			}
			at(atParen)
			p.i++
			switch ts.paren {
			case size:
				c.Len = &PLen{L: p.want("NUMBER")}
			case dec:
				c.Len = &PLen{L: p.want("NUMBER")}
				p.want("COMMA")
				c.Len.D = sp(p.want("NUMBER"))
			case decopt:
				c.Len = &PLen{L: p.want("NUMBER")}
				if p.opt("COMMA") {
					c.Len.D = sp(p.want("NUMBER"))
				}
			default:
				var l []string
				for {
					l = append(l, p.want("SINGLE_QUOTE_IDENT", "DOUBLE_QUOTE_IDENT"))
					if !p.opt("COMMA") {
						break
					}
				}
				if ts.paren == enum {
					c.Enum = l
				} else {
					c.Set = l
				}
			}
			p.want("RPAREN")
		case p.is("UNSIGNED", "ZEROFILL"):
			if !ts.uz {
				p.fail("the type is not numeric")
			}
			if p.opt("UNSIGNED") {
				at(atUnsigned)
				c.Uns = true
			} else {
				p.i++
				at(atZerofill)
				c.ZF = true
			}
		case p.opt("BINARY"):
			if !ts.binary {
				p.fail("the type cannot be BINARY")
			}
			at(atBinary)
			c.Bin = true
		case p.opt("CHARACTER"):
			p.want("SET")
			c.Charset = sp(p.want("IDENT", "BACKTICK_IDENT", "SINGLE_QUOTE_IDENT", "DOUBLE_QUOTE_IDENT", "BINARY"))
		case p.opt("COLLATE"):
			c.Coll = sp(p.want("IDENT", "BACKTICK_IDENT", "SINGLE_QUOTE_IDENT", "DOUBLE_QUOTE_IDENT", "BINARY"))
		case p.opt("ON"):
			p.want("UPDATE")
			c.AutoUpd = sp(p.want("IDENT", "CURRENT_TIMESTAMP", "NOW"))
		case p.opt("NOT"):
			at(atRest)
			p.want("NULL")
			c.Null = model.NullStateNotNull
		case p.opt("NULL"):
			at(atRest)
			c.Null = model.NullStateNull
		case p.opt("DEFAULT"):
			at(atRest)
			switch {
			case p.is("IDENT", "SINGLE_QUOTE_IDENT", "DOUBLE_QUOTE_IDENT"):
				c.Def, c.DefQ = sp(p.cur().Value), true
				p.i++
			case p.is("NOW"):
				v := strings.ToUpper(p.want("NOW"))
				p.wantGlued("LPAREN")
				p.wantGlued("RPAREN")
				c.Def, c.DefQ = sp(v+"()"), false
			default:
				c.Def, c.DefQ = sp(strings.ToUpper(p.want("NUMBER", "CURRENT_TIMESTAMP", "NULL", "TRUE", "FALSE"))), false
			}
		case p.opt("AUTO_INCREMENT"):
			at(atRest)
			c.AI = true
		case p.opt("UNIQUE"):
			at(atRest)
			p.opt("KEY")
			c.Uniq = true
		case p.opt("KEY"):
			at(atRest)
			c.Key = true
		case p.opt("PRIMARY"):
			at(atRest)
			p.want("KEY")
			c.Prim = true
		case p.opt("COMMENT"):
			at(atRest)
			c.Comment = sp(p.want("SINGLE_QUOTE_IDENT"))
		default:
			p.fail("not a column attribute: " + p.cur().Kind)
		}
	}
}

func (p *rparser) index() (x PIdx) {
	var using, fulltext, ref bool
	switch {
	case p.opt("PRIMARY"):
		p.want("KEY")
		x.Kind, using = model.IndexKindPrimaryKey, true
	case p.opt("UNIQUE"):
		p.opt("KEY", "INDEX")
		x.Kind, using = model.IndexKindUnique, true
	case p.opt("KEY", "INDEX"):
		x.Kind, using = model.IndexKindNormal, true
	case p.opt("FULLTEXT"):
		p.opt("INDEX", "KEY")
		x.Kind, fulltext = model.IndexKindFullText, true
	case p.opt("SPATIAL"):
		p.opt("INDEX")
		x.Kind = model.IndexKindSpatial
	default:
		p.want("FOREIGN")
		p.want("KEY")
		x.Kind, ref = model.IndexKindForeignKey, true
	}
	if p.is("IDENT", "BACKTICK_IDENT") {
		x.Name = sp(p.ident())
	}
	useType := func() {
		if using && p.opt("USING") {
			if x.Typ != model.IndexTypeNone {
				p.fail("USING twice")
			}
			if p.want("BTREE", "HASH"); p.toks[p.i-1].Kind == "BTREE" {
				x.Typ = model.IndexTypeBtree
			} else {
				x.Typ = model.IndexTypeHash
			}
		}
	}
	useType()
	x.Cols = p.icols()
	useType()
	if fulltext && p.opt("WITH") {
		p.want("PARSER")
		x.Opts = append(x.Opts, POpt{"WITH PARSER", p.ident(), true})
	}
	if ref && p.opt("REFERENCES") {
		r := &PRef{Table: p.ident()}
		r.Cols = p.icols()
		if p.opt("MATCH") {
			switch p.want("FULL", "PARTIAL", "SIMPLE"); p.toks[p.i-1].Kind {
			case "FULL":
				r.Match = model.ReferenceMatchFull
			case "PARTIAL":
				r.Match = model.ReferenceMatchPartial
			default:
				r.Match = model.ReferenceMatchSimple
			}
		}
		// at most two clauses, nothing after ON UPDATE
		for i := 0; i < 2 && p.opt("ON"); i++ {
			if p.opt("DELETE") {
				r.Del = p.action()
				continue
			}
			p.want("UPDATE")
			r.Upd = p.action()
			break
		}
		x.Ref = r
	}
	return x
}

func (p *rparser) action() model.ReferenceOption {
	switch {
	case p.opt("RESTRICT"):
		return model.ReferenceOptionRestrict
	case p.opt("CASCADE"):
		return model.ReferenceOptionCascade
	case p.opt("SET"):
		p.want("NULL")
		return model.ReferenceOptionSetNull
	}
	p.want("NO")
	p.want("ACTION")
	return model.ReferenceOptionNoAction
}

func (p *rparser) icols() (l []PICol) {
	p.want("LPAREN")
	for {
		c := PICol{Name: p.ident()}
		if p.opt("LPAREN") {
			c.Len = sp(p.wantGlued("NUMBER"))
			p.want("RPAREN")
		}
		if p.opt("ASC") {
			c.Dir = 1
		} else if p.opt("DESC") {
			c.Dir = 2
		}
		l = append(l, c)
		if !p.opt("COMMA") {
			break
		}
	}
	p.want("RPAREN")
	return l
}
