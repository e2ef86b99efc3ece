package model

import (
	"strconv"

	g "github.com/schemalex/schemalex/internal/gocon"
)

// ---- identity strings

//gocon:contract (*indexColumn).ID
//gocon:props C21 C11
//gocon:pure
func indexColumn_ID(c *indexColumn) {
	r := c.ID()
	g.Ensures("text", r == indexColumnID(c))
	g.ModifiesOnly("frame")
}

func indexColumnID(c *indexColumn) string {
	s := "index_column#" + strconv.Quote(c.name)
	if c.length.Valid {
		s += "-" + strconv.Quote(c.length.Value)
	}
	if c.sortDirection == SortDirectionAscending {
		s += "-asc"
	} else if c.sortDirection == SortDirectionDescending {
		s += "-desc"
	}
	return s
}

//gocon:contract (*reference).ID
//gocon:props C21 C11
//gocon:pure
func reference_ID(x *reference) {
	r := x.ID()
	g.Ensures("text", r == "reference#"+g.Sha256(g.Quote(x.tableName)+"."+x.match.String()+"."+x.onDelete.String()+"."+x.onUpdate.String()+
		g.Concat(len(x.columns), func(k int) string { return g.Quote(x.columns[k].ID()) + "." })))
	g.ModifiesOnly("frame")
}

//gocon:contract (*index).ID
//gocon:props C21 C11
//gocon:pure
func index_ID(x *index) {
	r := x.ID()
	name := "index"
	if x.name.Valid {
		name += "#" + x.name.Value
	}
	sym := "none"
	if x.symbol.Valid {
		sym = "symbol#" + x.symbol.Value
	}
	ref := ""
	if x.reference != nil {
		ref = "." + x.reference.ID()
	}
	g.Ensures("text", r == name+"#"+g.Sha256(g.Quote(x.table)+"."+g.Quote(sym)+"."+x.kind.String()+"."+x.typ.String()+
		g.Concat(len(x.columns), func(k int) string { return "." + g.Quote(x.columns[k].ID()) })+ref+
		g.Concat(len(x.options), func(k int) string {
			return "." + g.Quote(x.options[k].ID()) + "=" + g.Quote(x.options[k].Value())
		})))
	g.ModifiesOnly("frame")
}
