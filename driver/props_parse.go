package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/util"
	"github.com/schemalex/schemalex/model"
)

func init() {
	props["C01"] = lexCase("C01")
	props["C02"] = lexCase("C02")
	props["C03"] = lexCase("C03")
	props["C04"] = parseCase("C04", "", "table", "column", "index")
	props["C05"] = parseCase("C05", "", "table")
	props["C06"] = parseCase("C06", "column")
	props["C07"] = parseCase("C07", "index")
	props["C08"] = parseCase("C08", "table")
}

func tokName(t schemalex.TokenType) string { return t.String() }

func lexCase(prop string) func(g G) *Fail {
	return func(g G) *Fail {
		var src string
		if g.p(60) {
			src = g.rawBytes()
		} else {
			src = g.text(g.tSchema(""), false)
		}
		if !haveLex {
			return parseOne(prop, src, "")
		}
		if prop == "C02" {
			name := g.str()
			if l := lexAll(util.Backquote(name)); len(l) != 2 || tokName(l[0].Type) != "BACKTICK_IDENT" || l[0].Value != name || tokName(l[1].Type) != "EOF" {
				return failf(fmt.Sprintf("%q", name), "Backquote gives %q, which is read as %+v", util.Backquote(name), l)
			}
			if g.p(70) {
				quo := g.one("'", `"`, "`")
				src = quo
				for n := g.Intn(6); n > 0; n-- {
					src += g.one(quo+quo, "\\", "\\"+quo, "\\\\", "a", "é", "\xff", "'", "\"", "`", "\n", "x", "\\n")
				}
				src += quo + g.one("", " ", "x", ",'y'")
			}
		}
		got, want := lexAll(src), reflex(src)
		in := fmt.Sprintf("%q", src)
		show := func() string {
			s := "tokens of the lexer:"
			for _, t := range got {
				s += fmt.Sprintf("\n  %s %q pos=%d line=%d eof=%v", tokName(t.Type), t.Value, t.Pos, t.Line, t.EOF)
			}
			s += "\nexpected:"
			for _, t := range want {
				s += fmt.Sprintf("\n  %s %q pos=%d line=%d", t.Kind, t.Value, t.Pos, t.Line)
			}
			return s
		}
		switch prop {
		case "C01":
			for i, t := range got {
				end := len(src)
				if i+1 < len(got) {
					end = got[i+1].Pos
				}
				start := 0
				if i == 0 && t.Pos != 0 {
					return failf(in, "the first token starts at %d\n%s", t.Pos, show())
				}
				start = t.Pos
				if start < 0 || end < start || end > len(src) {
					return failf(in, "token %d covers %d..%d\n%s", i, start, end, show())
				}
				k := tokName(t.Type)
				if k != "EOF" && end == start {
					return failf(in, "token %d is empty\n%s", i, show())
				}
				if t.Line != 1+strings.Count(src[:start], "\n") {
					return failf(in, "token %d: wrong line %d\n%s", i, t.Line, show())
				}
				if !strings.HasSuffix(k, "_QUOTE_IDENT") && k != "BACKTICK_IDENT" && k != "EOF" && t.Value != src[start:end] {
					return failf(in, "token %d: value %q, text %q\n%s", i, t.Value, src[start:end], show())
				}
				if t.EOF != (k == "EOF") || k == "EOF" && (i != len(got)-1 || t.Pos != len(src)) {
					return failf(in, "end of input at token %d\n%s", i, show())
				}
			}
			if len(got) == 0 {
				return failf(in, "no tokens")
			}
			if k := tokName(got[len(got)-1].Type); k != "EOF" && k != "ILLEGAL" {
				return failf(in, "the last token is %s\n%s", k, show())
			}
			if len(got) != len(want) {
				return failf(in, "%d tokens instead of %d\n%s", len(got), len(want), show())
			}
		default:
			if len(got) != len(want) {
				return failf(in, "%d tokens instead of %d\n%s", len(got), len(want), show())
			}
			for i, t := range got {
				if k := tokName(t.Type); k != want[i].Kind {
					return failf(in, "token %d is %s\n%s", i, k, show())
				}
				if t.Pos != want[i].Pos || t.Value != want[i].Value {
					return failf(in, "token %d has pos %d, value %q\n%s", i, t.Pos, t.Value, show())
				}
			}
		}
		return nil
	}
}

func parseCase(prop string, focus ...string) func(g G) *Fail {
	return func(g G) *Fail {
		f := focus[g.Intn(len(focus))]
		w := g.tSchema(f)
		if g.p(50) {
			w = g.mutate(w)
		}
		src := g.text(w, g.p(60))
		if prop == "C04" {
			if g.p(20) {
				src = g.rawBytes()
			}
			if g.p(10) && len(src) > 0 {
				i := g.Intn(len(src))
				src = src[:i] + string([]byte{byte(g.Intn(256))}) + src[i+g.Intn(2):]
			}
			if g.p(10) && len(src) > 0 {
				src = src[:g.Intn(len(src))]
			}
		}
		return parseOne(prop, src, f)
	}
}

func tables(s model.Stmts) ([]PTab, bool) {
	var l []PTab
	for _, x := range s {
		t, ok := x.(model.Table)
		if !ok || t == nil || reflect.ValueOf(t).IsNil() {
			return nil, false
		}
		l = append(l, obsTab(t))
	}
	return l, true
}

func parseOne(prop, src, focus string) *Fail {
	stmts, err := func() (s model.Stmts, err error) {
		defer func() {
			if x := recover(); x != nil {
				panic(fmt.Sprintf("%v, while parsing %q", x, src))
			}
		}()
		return schemalex.New().Parse([]byte(src))
	}()
	in := src + "\n" + fmt.Sprintf("(%q)", src)
	if prop == "C04" {
		if err == nil {
			return nil
		}
		if len(stmts) != 0 {
			return failf(in, "an error (%v) and statements", err)
		}
		pe, ok := err.(schemalex.ParseError)
		if !ok {
			return failf(in, "the error is a %T: %v", err, err)
		}
		if pe.Message() == "" || pe.Error() == "" {
			return failf(in, "the error has no message")
		}
		for _, t := range reflex(src) {
			if t.Line == pe.Line() && t.Col == pe.Col() && (t.Kind == "EOF") == pe.EOF() {
				return nil
			}
		}
		return failf(in, "no token at line %d column %d (eof=%v): %v", pe.Line(), pe.Col(), pe.EOF(), err)
	}
	want, rej := refparse(src)
	if rej != nil {
		if err != nil {
			return nil
		}
		got, _ := tables(stmts)
		if relevant(prop, rej.class, focus) {
			return failf(in, "accepted, but must be rejected (%s: %s)\nresult: %s", rej.class, rej.why, tabs(got))
		}
		return nil
	}
	for i := range want {
		if want[i].Like == nil {
			want[i] = normTab(want[i])
		}
	}
	if err != nil {
		if prop == "C05" {
			return nil // only what is accepted
		}
		return failf(in, "rejected: %v\nexpected %s", err, tabs(want))
	}
	got, ok := tables(stmts)
	if !ok {
		return failf(in, "the result holds something that is not a table: %v", stmts)
	}
	bad := func(what string, g, w interface{}) *Fail {
		return failf(in, "%s\nfound    %v\nexpected %v", what, g, w)
	}
	all := func(what string) *Fail { return bad(what, "\n"+tabs(got), "\n"+tabs(want)) }
	if len(got) != len(want) {
		return all("wrong number of tables")
	}
	for i := range got {
		a, b := got[i], want[i]
		switch prop {
		case "C06":
			if len(a.Cols) != len(b.Cols) {
				return all("columns")
			}
			for k := range a.Cols {
				if !reflect.DeepEqual(a.Cols[k], b.Cols[k]) {
					return bad("column", a.Cols[k], b.Cols[k])
				}
			}
			if len(a.Idx) != len(b.Idx) {
				return all("keys")
			}
		case "C07":
			if len(a.Idx) != len(b.Idx) {
				return all("indexes")
			}
			for k := range a.Idx {
				if !reflect.DeepEqual(a.Idx[k], b.Idx[k]) {
					return bad("index", a.Idx[k], b.Idx[k])
				}
			}
		case "C08":
			if a.head() != b.head() {
				return bad("header", a.head(), b.head())
			}
			if !reflect.DeepEqual(a.Opts, b.Opts) {
				return bad("options", a.Opts, b.Opts)
			}
		default:
			if !reflect.DeepEqual(a, b) {
				return all("table")
			}
		}
	}
	return nil
}

func relevant(prop, class, focus string) bool {
	switch prop {
	case "C06":
		return class == "column"
	case "C07":
		return class == "index"
	case "C08":
		return class == "table" || class == "option"
	}
	return true
}
