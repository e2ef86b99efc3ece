package schemalex

import (
	g "github.com/schemalex/schemalex/internal/gocon"
)

// What Parse returns is the subject of other contracts; here only that it
// touches nothing outside the module is assumed.
//
//gocon:contract (*Parser).Parse
//gocon:props C20 C22
//gocon:trusted
func Parser_Parse(p *Parser, src []byte) {
	f := g.ExtFail()
	stmts, err := p.Parse(src)
	g.Log("parsed", stmts)
	g.Log("parsed-text", string(src))
	g.Log("parse-failed", err != nil)
	g.Ensures("C22 does no input or output", g.ExtFail() == f)
}
