package main

import (
	"strings"
	"unicode/utf8"
)

// The lexical rules, written independently of the code: each token is
// described by where it ends.

const keywordList = "ACTION AUTO_INCREMENT AVG_ROW_LENGTH BIGINT BINARY BIT BLOB BOOL BOOLEAN BTREE CASCADE CHAR CHARACTER CHARSET CHECK CHECKSUM COLLATE COMMENT COMPACT COMPRESSED CONNECTION CONSTRAINT CREATE CURRENT_TIMESTAMP DATA DATABASE DATE DATETIME DECIMAL DEFAULT DELAY_KEY_WRITE DELETE DIRECTORY DISK DOUBLE DROP DYNAMIC ENGINE ENUM EXISTS FALSE FIRST FIXED FLOAT FOREIGN FULL FULLTEXT GEOMETRY HASH IF INDEX INSERT_METHOD INT INTEGER JSON KEY KEY_BLOCK_SIZE LAST LIKE LONGBLOB LONGTEXT MATCH MAX_ROWS MEDIUMBLOB MEDIUMINT MEDIUMTEXT MEMORY MIN_ROWS NO NOT NULL NUMERIC ON PACK_KEYS PARTIAL PARSER PASSWORD PRIMARY REAL REDUNDANT REFERENCES RESTRICT ROW_FORMAT SET SIMPLE SMALLINT SPATIAL STATS_AUTO_RECALC STATS_PERSISTENT STATS_SAMPLE_PAGES STORAGE TABLE TABLESPACE TEMPORARY TEXT TIME TIMESTAMP TINYBLOB TINYINT TINYTEXT TRUE UNION UNIQUE UNSIGNED UPDATE USE USING VARBINARY VARCHAR YEAR WITH ZEROFILL ASC DESC NOW "

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields(keywordList) {
		keywords[k] = true
	}
}

type RTok struct {
	Kind  string
	Text  string // as written
	Value string // decoded
	Pos   int
	Line  int
	Col   int
}

func spn(s, set string) int {
	n := 0
	for n < len(s) && strings.IndexByte(set, s[n]) >= 0 {
		n++
	}
	return n
}

const (
	digits  = "0123456789"
	letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	blanks  = " \t\r\n"
)

// number length: digits [. digits] [eE [-] digits]
func numLen(s string) int {
	n := spn(s, digits)
	if n < len(s) && s[n] == '.' {
		n++
		n += spn(s[n:], digits)
	}
	if n < len(s) && (s[n] == 'e' || s[n] == 'E') {
		n++
		if n < len(s) && s[n] == '-' {
			n++
		}
		n += spn(s[n:], digits)
	}
	return n
}

// quoted returns the length of the quoted token at the start of s and its
// decoded value; ok is false if it is not closed.
func quoted(s string) (n int, val string, ok bool) {
	quo := s[0]
	var b strings.Builder
	for i := 1; i < len(s); {
		c := s[i]
		switch {
		case c == '\\' && quo != '`':
			if i+1 >= len(s) {
				return 0, "", false
			}
			_, w := utf8.DecodeRuneInString(s[i+1:])
			if s[i+1] == quo {
				b.WriteByte(quo)
			} else {
				b.WriteString(s[i : i+1+w])
			}
			i += 1 + w
		case c == quo:
			if i+1 < len(s) && s[i+1] == quo {
				b.WriteByte(quo)
				i += 2
			} else {
				return i + 1, b.String(), true
			}
		default:
			b.WriteByte(c)
			i++
		}
	}
	return 0, "", false
}

func isDigitAt(s string, i int) bool { return i < len(s) && s[i] >= '0' && s[i] <= '9' }

// oneTok returns kind, length and value of the first token of s.
func oneTok(s string) (kind string, n int, val string, last bool) {
	if s == "" {
		return "EOF", 0, "", true
	}
	c := s[0]
	switch {
	case strings.IndexByte(blanks, c) >= 0:
		n = spn(s, blanks)
		return "SPACE", n, s[:n], false
	case strings.IndexByte(letters, c) >= 0:
		n = spn(s, letters+digits+"_")
		w := s[:n]
		if u := strings.ToUpper(w); keywords[u] {
			return u, n, w, false
		}
		return "IDENT", n, w, false
	case isDigitAt(s, 0):
		n = numLen(s)
		return "NUMBER", n, s[:n], false
	case c == '.':
		if isDigitAt(s, 1) {
			// the fraction of a number without integer part
			n = 1 + numLen(s[1:])
			return "NUMBER", n, s[:n], false
		}
		return "DOT", 1, ".", false
	case c == '+' || c == '-' && isDigitAt(s, 1):
		if isDigitAt(s, 1) {
			n = 1 + numLen(s[1:])
			return "NUMBER", n, s[:n], false
		}
		return "PLUS", 1, "+", false
	case c == '-':
		if len(s) > 1 && s[1] == '-' {
			if len(s) > 2 && strings.IndexByte(blanks, s[2]) >= 0 {
				n = eol(s, 2)
				return "COMMENT_IDENT", n, s[:n], false
			}
			return "DASH", 2, s[:2], false
		}
		return "DASH", 1, "-", false
	case c == '#':
		n = eol(s, 1)
		return "COMMENT_IDENT", n, s[:n], false
	case c == '/':
		if len(s) > 1 && s[1] == '*' {
			if i := strings.Index(s[2:], "*/"); i >= 0 {
				n = i + 4
			} else {
				n = len(s)
			}
			return "COMMENT_IDENT", n, s[:n], false
		}
		return "SLASH", 1, "/", false
	case c == '\'' || c == '"' || c == '`':
		n, v, ok := quoted(s)
		if !ok {
			return "ILLEGAL", len(s), s, true
		}
		return map[byte]string{'\'': "SINGLE_QUOTE_IDENT", '"': "DOUBLE_QUOTE_IDENT", '`': "BACKTICK_IDENT"}[c], n, v, false
	}
	if k, ok := map[byte]string{'(': "LPAREN", ')': "RPAREN", ';': "SEMICOLON", ',': "COMMA", '=': "EQUAL", '*': "ASTERISK"}[c]; ok {
		return k, 1, s[:1], false
	}
	_, n = utf8.DecodeRuneInString(s)
	return "ILLEGAL", n, s[:n], false
}

func eol(s string, from int) int {
	if i := strings.IndexByte(s[from:], '\n'); i >= 0 {
		return from + i + 1
	}
	return len(s)
}

// reflex splits a text into tokens.
func reflex(s string) []RTok {
	var l []RTok
	pos, line, col := 0, 1, 1
	for {
		k, n, v, last := oneTok(s[pos:])
		l = append(l, RTok{k, s[pos : pos+n], v, pos, line, col})
		if last {
			return l
		}
		for i := pos; i < pos+n; {
			r, w := utf8.DecodeRuneInString(s[i:])
			if r == '\n' {
				line++
				col = 0
			} else {
				col++
			}
			i += w
		}
		pos += n
	}
}
