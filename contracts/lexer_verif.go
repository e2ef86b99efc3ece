package schemalex

import (
	"unicode/utf8"

	g "github.com/schemalex/schemalex/internal/gocon"
)

// ---- the text that is read

// offsetOf is the offset of the first byte that is not consumed.
func offsetOf(l *lexer) int {
	if l.peekCount == 0 {
		return l.cur.pos - l.peekRunes[0].w
	}
	return l.cur.pos
}

// runeAt is the character at an offset, or eof.
func runeAt(in []byte, o int) rune {
	if o >= len(in) {
		return eof
	}
	r, _ := utf8.DecodeRune(in[o:])
	return r
}

func widthAt(in []byte, o int) int {
	if o >= len(in) {
		return 0
	}
	_, w := utf8.DecodeRune(in[o:])
	return w
}

// reading: at most one character is read ahead, the one at the offset.
func reading(l *lexer) bool {
	if l == nil || l.cur.pos < 0 || l.cur.pos > len(l.input) || l.start.pos < 0 {
		return false
	}
	if l.peekCount == -1 {
		return true
	}
	if l.peekCount != 0 {
		return false
	}
	o := offsetOf(l)
	return l.peekRunes[0].w >= 1 && o >= 0 && l.peekRunes[0].r == runeAt(l.input, o) && l.peekRunes[0].w == widthAt(l.input, o)
}

// readAhead: the number of characters that are read ahead after a look at
// the one at offset o, minus one
func readAhead(in []byte, o int) int {
	if o >= len(in) {
		return -1
	}
	return 0
}

//gocon:contract (*lexer).peek
//gocon:props C01 C03
func lexer_peek(l *lexer) {
	g.Requires(reading(l))
	in, o, line, start := l.input, offsetOf(l), l.cur.line, l.start
	ahead := l.peekRunes[0]
	if o < len(in) {
		ahead.r, ahead.w = runeAt(in, o), widthAt(in, o)
	}
	r := l.peek()
	g.Ensures("character", r == runeAt(in, o))
	g.Ensures("read ahead", l.cur.pos == o+widthAt(in, o) && l.peekCount == readAhead(in, o) && l.peekRunes[0].r == ahead.r && l.peekRunes[0].w == ahead.w)
	g.Ensures("position", offsetOf(l) == o && l.cur.line == line && g.Same(l.start, start))
	g.Ensures("input", g.Same(l.input, in) && reading(l))
}

// moved: the characters up to offset end have been consumed
func moved(l *lexer, in []byte, start position, end int) bool {
	return offsetOf(l) == end && g.Same(l.start, start) && g.Same(l.input, in) && reading(l)
}

//gocon:contract (*lexer).advance
//gocon:props C01 C03
func lexer_advance(l *lexer) {
	g.Requires(reading(l))
	in, o, line, start := l.input, offsetOf(l), l.cur.line, l.start
	r := runeAt(in, o)
	l.advance()
	g.Ensures("consumed", l.peekCount == -1 && l.cur.pos == o+widthAt(in, o))
	g.Ensures("position", moved(l, in, start, o+widthAt(in, o)))
	g.Ensures("line", g.Implies(r == '\n', l.cur.line == line+1) && g.Implies(r != '\n', l.cur.line == line))
}

//gocon:contract (*lexer).next
//gocon:props C01 C02 C03
func lexer_next(l *lexer) {
	g.Requires(reading(l))
	in, o, line, start := l.input, offsetOf(l), l.cur.line, l.start
	want := runeAt(in, o)
	r := l.next()
	g.Ensures("character", r == want)
	g.Ensures("consumed", l.peekCount == -1 && l.cur.pos == o+widthAt(in, o))
	g.Ensures("position", moved(l, in, start, o+widthAt(in, o)))
	g.Ensures("line", g.Implies(r == '\n', l.cur.line == line+1) && g.Implies(r != '\n', l.cur.line == line))
}

//gocon:contract (*lexer).offset
//gocon:props C01
func lexer_offset(l *lexer) {
	g.Requires(reading(l))
	o := offsetOf(l)
	g.Ensures("offset", l.offset() == o)
	g.ModifiesOnly("frame")
}

//gocon:contract (*lexer).str
//gocon:props C01 C03
func lexer_str(l *lexer) {
	g.Requires(reading(l) && l.start.pos <= offsetOf(l))
	want := string(l.input[l.start.pos:offsetOf(l)])
	g.Ensures("text", l.str() == want)
	g.ModifiesOnly("frame")
}

// ---- how far a token goes

func space(r rune) bool  { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }
func digit(r rune) bool  { return '0' <= r && r <= '9' }
func letter(r rune) bool { return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' }

// spaceEnd is the end of the blanks that start at o.
func spaceEnd(in []byte, o int) int {
	if space(runeAt(in, o)) {
		return spaceEnd(in, o+1)
	}
	return o
}

// wordEnd is the end of the letters, digits and underscores that start at o.
func wordEnd(in []byte, o int) int {
	if r := runeAt(in, o); letter(r) || digit(r) || r == '_' {
		return wordEnd(in, o+1)
	}
	return o
}

func digitsEnd(in []byte, o int) int {
	if digit(runeAt(in, o)) {
		return digitsEnd(in, o+1)
	}
	return o
}

// exponentEnd: an exponent, if there is one at o
func exponentEnd(in []byte, o int) int {
	if r := runeAt(in, o); r != 'e' && r != 'E' {
		return o
	}
	if runeAt(in, o+1) == '-' {
		return digitsEnd(in, o+2)
	}
	return digitsEnd(in, o+1)
}

func numberEnd(in []byte, o int) int {
	o = digitsEnd(in, o)
	if runeAt(in, o) == '.' {
		o = digitsEnd(in, o+1)
	}
	return exponentEnd(in, o)
}

// lineEnd is what follows the first line break from o on, or the end.
func lineEnd(in []byte, o int) int {
	r := runeAt(in, o)
	if r == eof {
		return o
	}
	if r == '\n' {
		return o + 1
	}
	return lineEnd(in, o+widthAt(in, o))
}

// commentEnd is what follows the first closing mark from o on, or the end.
func commentEnd(in []byte, o int) int {
	r := runeAt(in, o)
	if r == eof {
		return o
	}
	if r == '*' && runeAt(in, o+1) == '/' {
		return o + 2
	}
	return commentEnd(in, o+widthAt(in, o))
}

// quoteEnd is what follows the first closing quote from o on, or -1: a
// doubled quote and, but for names, what follows a backslash does not close.
func quoteEnd(in []byte, o int, quote rune) int {
	r := runeAt(in, o)
	if r == eof {
		return -1
	}
	if r == '\\' && quote != '`' {
		o++
		return quoteEnd(in, o+widthAt(in, o), quote)
	}
	if r == quote {
		if runeAt(in, o+1) == quote {
			return quoteEnd(in, o+2, quote)
		}
		return o + 1
	}
	return quoteEnd(in, o+widthAt(in, o), quote)
}

//gocon:contract (*lexer).runSpace
//gocon:props C01 C03
func lexer_runSpace(l *lexer) {
	g.Requires(reading(l))
	in, start := l.input, l.start
	end := spaceEnd(in, offsetOf(l))
	g.Inv(func() bool { return moved(l, in, start, offsetOf(l)) && spaceEnd(in, offsetOf(l)) == end })
	l.runSpace()
	g.Ensures("end", moved(l, in, start, end))
}

//gocon:contract (*lexer).runIdent
//gocon:props C01 C03
func lexer_runIdent(l *lexer) {
	g.Requires(reading(l))
	in, start := l.input, l.start
	end := wordEnd(in, offsetOf(l))
	g.Inv(func() bool { return moved(l, in, start, offsetOf(l)) && wordEnd(in, offsetOf(l)) == end })
	typ := l.runIdent()
	g.Ensures("end", moved(l, in, start, end) && typ == IDENT)
}

//gocon:contract (*lexer).runDigit
//gocon:props C01 C03
func lexer_runDigit(l *lexer) {
	g.Requires(reading(l))
	in, start := l.input, l.start
	end := digitsEnd(in, offsetOf(l))
	g.Inv(func() bool { return moved(l, in, start, offsetOf(l)) && digitsEnd(in, offsetOf(l)) == end })
	l.runDigit()
	g.Ensures("end", moved(l, in, start, end))
}

//gocon:contract (*lexer).runToEOL
//gocon:props C01 C03
func lexer_runToEOL(l *lexer) {
	g.Requires(reading(l))
	in, start := l.input, l.start
	end := lineEnd(in, offsetOf(l))
	g.Inv(func() bool { return moved(l, in, start, offsetOf(l)) && lineEnd(in, offsetOf(l)) == end })
	typ := l.runToEOL()
	g.Ensures("end", moved(l, in, start, end) && typ == COMMENT_IDENT)
}

//gocon:contract (*lexer).runCComment
//gocon:props C01 C03
func lexer_runCComment(l *lexer) {
	g.Requires(reading(l))
	in, start := l.input, l.start
	end := commentEnd(in, offsetOf(l))
	g.Inv(func() bool { return moved(l, in, start, offsetOf(l)) })
	g.Inv(func() bool { return commentEnd(in, offsetOf(l)) == end })
	l.runCComment()
	g.Ensures("end", moved(l, in, start, end))
}

//gocon:contract (*lexer).runNumber
//gocon:props C01 C03
func lexer_runNumber(l *lexer) {
	g.Requires(reading(l))
	in, start := l.input, l.start
	end := numberEnd(in, offsetOf(l))
	l.runNumber()
	g.Ensures("end", moved(l, in, start, end))
}

//gocon:contract (*lexer).runQuote
//gocon:props C01 C02 C03
func lexer_runQuote(l *lexer, quote rune) {
	g.Requires(reading(l) && (quote == '`' || quote == '"' || quote == '\''))
	in, start := l.input, l.start
	end := quoteEnd(in, offsetOf(l), quote)
	g.Inv(func() bool { return moved(l, in, start, offsetOf(l)) && quoteEnd(in, offsetOf(l), quote) == end })
	err := l.runQuote(quote)
	g.Ensures("closed", g.Implies(err == nil, moved(l, in, start, end)))
	g.Ensures("reported", (err != nil) == (end == -1))
	g.Ensures("rest", g.Implies(err != nil, moved(l, in, start, offsetOf(l))))
}
