package lint

import (
	"context"
	"io"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	g "github.com/schemalex/schemalex/internal/gocon"
	"github.com/schemalex/schemalex/model"
)

func sep(k int, s string) string {
	if k == 0 {
		return ""
	}
	return s
}

// lintText is the text of the first n statements
func lintText(l model.Stmts, indent string, n int) string {
	return g.Concat(n, func(k int) string { return sep(k, "\n\n") + format.SpecText(indent, l[k]) + ";" })
}

//gocon:contract (*Linter).Run
//gocon:props C20 C22
func Linter_Run(l *Linter, ctx context.Context, src schemalex.SchemaSource, dst io.Writer, options ...Option) {
	g.Requires(src != nil && dst != nil && format.SpecOptionsOK(options))
	old, failed := g.Written(dst), g.ExtFail()
	n := g.LogLen("source")
	m, mt, mf := g.LogLen("parsed"), g.LogLen("parsed-text"), g.LogLen("parse-failed")
	indent := format.SpecIndent(options)
	err := l.Run(ctx, src, dst, options...)
	text, _ := g.LogAt("source", n).(string)
	parsed, _ := g.LogAt("parsed-text", mt).(string)
	parseFailed, _ := g.LogAt("parse-failed", mf).(bool)
	stmts, _ := g.LogAt("parsed", m).(model.Stmts)
	g.Ensures("C20 the source is read once", g.LogLen("source") == n+1)
	g.Ensures("C20 the whole source is parsed", g.Implies(err == nil, g.LogLen("parsed") == m+1 && parsed == text))
	g.Ensures("C20 every statement once, formatted", g.Implies(err == nil, g.Written(dst) == old+lintText(stmts, indent, len(stmts))))
	g.Ensures("C20 fails if parsing fails", g.Implies(g.LogLen("parsed") > m && parseFailed, err != nil))
	g.Ensures("C20 fails if a statement cannot be formatted", g.Implies(err == nil, g.Forall(0, len(stmts), func(k int) bool { return format.SpecOK(stmts[k]) })))
	g.Ensures("C22 failures are reported", g.Implies(err == nil, g.ExtFail() == failed))
}
