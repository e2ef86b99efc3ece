// Package main searches for a concrete input on which the code in /repo
// breaks a property. It is built into the module through an overlay and only
// uses the exported API (and, for the lexer, one exported alias added by the
// overlay), so that it keeps building when internals are rearranged. It is
// run after an obligation failed, to replay the failure on the real code.
package main

import (
	"fmt"
	"strconv"

	"github.com/schemalex/schemalex/model"
)

type PLen struct {
	L string
	D *string
}

type PCol struct {
	Name             string
	Type             model.ColumnType
	Len              *PLen
	Null             model.NullState
	Charset, Coll    *string
	Comment, AutoUpd *string
	Def              *string
	DefQ             bool
	Enum, Set        []string
	AI, Bin, Key     bool
	Prim, Uniq       bool
	Uns, ZF          bool
}

type PICol struct {
	Name string
	Len  *string
	Dir  int
}

type POpt struct {
	K, V string
	Q    bool
}

type PRef struct {
	Table    string
	Cols     []PICol
	Match    model.ReferenceMatch
	Del, Upd model.ReferenceOption
}

type PIdx struct {
	Sym, Name *string
	Kind      model.IndexKind
	Typ       model.IndexType
	Cols      []PICol
	Ref       *PRef
	Opts      []POpt
}

type PTab struct {
	Name      string
	Temp, INE bool
	Like      *string
	Cols      []PCol
	Idx       []PIdx
	Opts      []POpt
}

func sp(s string) *string { return &s }

func cpS(p *string) *string {
	if p == nil {
		return nil
	}
	return sp(*p)
}

// ---- model to plain values, through the getters

func obsLen(l model.Length) *PLen {
	if l == nil {
		return nil
	}
	r := &PLen{L: l.Length()}
	if l.HasDecimal() {
		r.D = sp(l.Decimal())
	}
	return r
}

func obsCol(c model.TableColumn) PCol {
	r := PCol{Name: c.Name(), Type: c.Type(), Null: c.NullState(), AI: c.IsAutoIncrement(), Bin: c.IsBinary(), Key: c.IsKey(), Prim: c.IsPrimary(), Uniq: c.IsUnique(), Uns: c.IsUnsigned(), ZF: c.IsZeroFill()}
	if c.HasLength() {
		r.Len = obsLen(c.Length())
	}
	if c.HasCharacterSet() {
		r.Charset = sp(c.CharacterSet())
	}
	if c.HasCollation() {
		r.Coll = sp(c.Collation())
	}
	if c.HasComment() {
		r.Comment = sp(c.Comment())
	}
	if c.HasAutoUpdate() {
		r.AutoUpd = sp(c.AutoUpdate())
	}
	if c.HasDefault() {
		r.Def = sp(c.Default())
		r.DefQ = c.IsQuotedDefault()
	}
	if c.HasEnumValues() {
		for v := range c.EnumValues() {
			r.Enum = append(r.Enum, v)
		}
	}
	if c.HasSetValues() {
		for v := range c.SetValues() {
			r.Set = append(r.Set, v)
		}
	}
	return r
}

func obsICols(ch chan model.IndexColumn) []PICol {
	var l []PICol
	for c := range ch {
		p := PICol{Name: c.Name()}
		if c.HasLength() {
			p.Len = sp(c.Length())
		}
		if c.HasSortDirection() {
			p.Dir = 3
			if c.IsAscending() && !c.IsDescending() {
				p.Dir = 1
			} else if c.IsDescending() && !c.IsAscending() {
				p.Dir = 2
			}
		}
		l = append(l, p)
	}
	return l
}

func obsRef(r model.Reference) *PRef {
	p := &PRef{Table: r.TableName(), Cols: obsICols(r.Columns()), Del: r.OnDelete(), Upd: r.OnUpdate()}
	switch {
	case r.MatchFull():
		p.Match = model.ReferenceMatchFull
	case r.MatchPartial():
		p.Match = model.ReferenceMatchPartial
	case r.MatchSimple():
		p.Match = model.ReferenceMatchSimple
	}
	return p
}

func obsIdx(x model.Index) PIdx {
	var p PIdx
	if x.HasSymbol() {
		p.Sym = sp(x.Symbol())
	}
	if x.HasName() {
		p.Name = sp(x.Name())
	}
	k := 0
	set := func(b bool, v model.IndexKind) {
		if b {
			p.Kind = v
			k++
		}
	}
	set(x.IsPrimaryKey(), model.IndexKindPrimaryKey)
	set(x.IsNormal(), model.IndexKindNormal)
	set(x.IsUnique(), model.IndexKindUnique)
	set(x.IsFullText(), model.IndexKindFullText)
	set(x.IsSpatial(), model.IndexKindSpatial)
	set(x.IsForeignKey(), model.IndexKindForeignKey)
	if k > 1 {
		p.Kind = -1
	}
	if x.IsBtree() {
		p.Typ = model.IndexTypeBtree
	}
	if x.IsHash() {
		p.Typ = model.IndexTypeHash
	}
	p.Cols = obsICols(x.Columns())
	if r := x.Reference(); r != nil {
		p.Ref = obsRef(r)
	}
	for o := range x.Options() {
		p.Opts = append(p.Opts, POpt{o.Key(), o.Value(), o.NeedQuotes()})
	}
	return p
}

func obsTab(t model.Table) PTab {
	p := PTab{Name: t.Name(), Temp: t.IsTemporary(), INE: t.IsIfNotExists()}
	if t.HasLikeTable() {
		p.Like = sp(t.LikeTable())
	}
	for c := range t.Columns() {
		p.Cols = append(p.Cols, obsCol(c))
	}
	for x := range t.Indexes() {
		p.Idx = append(p.Idx, obsIdx(x))
	}
	for o := range t.Options() {
		p.Opts = append(p.Opts, POpt{o.Key(), o.Value(), o.NeedQuotes()})
	}
	return p
}

// ---- plain values to model

func buildCol(p PCol) model.TableColumn {
	c := model.NewTableColumn(p.Name)
	c.SetType(p.Type)
	if p.Len != nil {
		l := model.NewLength(p.Len.L)
		if p.Len.D != nil {
			l.SetDecimal(*p.Len.D)
		}
		c.SetLength(l)
	}
	c.SetNullState(p.Null)
	if p.Charset != nil {
		c.SetCharacterSet(*p.Charset)
	}
	if p.Coll != nil {
		c.SetCollation(*p.Coll)
	}
	if p.Comment != nil {
		c.SetComment(*p.Comment)
	}
	if p.AutoUpd != nil {
		c.SetAutoUpdate(*p.AutoUpd)
	}
	if p.Def != nil {
		c.SetDefault(*p.Def, p.DefQ)
	}
	if p.Enum != nil {
		c.SetEnumValues(append([]string(nil), p.Enum...))
	}
	if p.Set != nil {
		c.SetSetValues(append([]string(nil), p.Set...))
	}
	c.SetAutoIncrement(p.AI)
	c.SetBinary(p.Bin)
	c.SetKey(p.Key)
	c.SetPrimary(p.Prim)
	c.SetUnique(p.Uniq)
	c.SetUnsigned(p.Uns)
	c.SetZeroFill(p.ZF)
	return c
}

func buildICols(l []PICol) []model.IndexColumn {
	var r []model.IndexColumn
	for _, p := range l {
		c := model.NewIndexColumn(p.Name)
		if p.Len != nil {
			c.SetLength(*p.Len)
		}
		switch p.Dir {
		case 1:
			c.SetSortDirection(model.SortDirectionAscending)
		case 2:
			c.SetSortDirection(model.SortDirectionDescending)
		}
		r = append(r, c)
	}
	return r
}

func buildRef(p *PRef) model.Reference {
	r := model.NewReference()
	r.SetTableName(p.Table)
	r.AddColumns(buildICols(p.Cols)...)
	r.SetMatch(p.Match)
	r.SetOnDelete(p.Del)
	r.SetOnUpdate(p.Upd)
	return r
}

func buildIdx(p PIdx, table string) model.Index {
	x := model.NewIndex(p.Kind, table)
	if p.Sym != nil {
		x.SetSymbol(*p.Sym)
	}
	if p.Name != nil {
		x.SetName(*p.Name)
	}
	x.SetType(p.Typ)
	x.AddColumns(buildICols(p.Cols)...)
	if p.Ref != nil {
		x.SetReference(buildRef(p.Ref))
	}
	for _, o := range p.Opts {
		x.AddOption(model.NewIndexOption(o.K, o.V, o.Q))
	}
	return x
}

func buildTab(p PTab) model.Table {
	t := model.NewTable(p.Name)
	t.SetTemporary(p.Temp)
	t.SetIfNotExists(p.INE)
	if p.Like != nil {
		t.SetLikeTable(*p.Like)
	}
	for _, c := range p.Cols {
		t.AddColumn(buildCol(c))
	}
	for _, x := range p.Idx {
		t.AddIndex(buildIdx(x, "table#"+p.Name))
	}
	for _, o := range p.Opts {
		t.AddOption(model.NewTableOption(o.K, o.V, o.Q))
	}
	return t
}

func buildStmts(l []PTab) model.Stmts {
	var s model.Stmts
	for _, t := range l {
		s = append(s, buildTab(t))
	}
	return s
}

// ---- printing and comparing

func q(p *string) string {
	if p == nil {
		return "-"
	}
	return strconv.Quote(*p)
}

func (p PCol) String() string {
	l := "-"
	if p.Len != nil {
		l = fmt.Sprintf("(%q,%s)", p.Len.L, q(p.Len.D))
	}
	return fmt.Sprintf("column{%q type=%s len=%s null=%d charset=%s collate=%s comment=%s onupdate=%s default=%s/%v enum=%q set=%q ai=%v bin=%v key=%v primary=%v unique=%v unsigned=%v zerofill=%v}",
		p.Name, p.Type, l, p.Null, q(p.Charset), q(p.Coll), q(p.Comment), q(p.AutoUpd), q(p.Def), p.DefQ, p.Enum, p.Set, p.AI, p.Bin, p.Key, p.Prim, p.Uniq, p.Uns, p.ZF)
}

func icols(l []PICol) string {
	s := ""
	for _, c := range l {
		s += fmt.Sprintf("%q len=%s dir=%d;", c.Name, q(c.Len), c.Dir)
	}
	return "[" + s + "]"
}

func (r PRef) String() string {
	return fmt.Sprintf("reference{%q %s match=%d delete=%d update=%d}", r.Table, icols(r.Cols), r.Match, r.Del, r.Upd)
}

func (p PIdx) String() string {
	r := "-"
	if p.Ref != nil {
		r = p.Ref.String()
	}
	return fmt.Sprintf("index{kind=%d symbol=%s name=%s type=%d %s options=%q ref=%s}", p.Kind, q(p.Sym), q(p.Name), p.Typ, icols(p.Cols), p.Opts, r)
}

func (t PTab) head() string {
	return fmt.Sprintf("table{%q temporary=%v ifnotexists=%v like=%s}", t.Name, t.Temp, t.INE, q(t.Like))
}

func (t PTab) String() string {
	s := t.head()
	for _, c := range t.Cols {
		s += "\n  " + c.String()
	}
	for _, x := range t.Idx {
		s += "\n  " + x.String()
	}
	return s + fmt.Sprintf("\n  options=%q", t.Opts)
}

func tabs(l []PTab) string {
	s := ""
	for _, t := range l {
		s += t.String() + "\n"
	}
	return s
}

// ---- normalization, as stated by C09 and C10

var nativeLen = map[model.ColumnType][2]string{
	model.ColumnTypeBool: {"1", "1"}, model.ColumnTypeBoolean: {"1", "1"},
	model.ColumnTypeTinyInt: {"4", "3"}, model.ColumnTypeSmallInt: {"6", "5"}, model.ColumnTypeMediumInt: {"9", "8"},
	model.ColumnTypeInt: {"11", "10"}, model.ColumnTypeInteger: {"11", "10"}, model.ColumnTypeBigInt: {"20", "20"},
}

var synonyms = map[model.ColumnType]model.ColumnType{
	model.ColumnTypeBool: model.ColumnTypeTinyInt, model.ColumnTypeBoolean: model.ColumnTypeTinyInt,
	model.ColumnTypeInteger: model.ColumnTypeInt, model.ColumnTypeNumeric: model.ColumnTypeDecimal, model.ColumnTypeReal: model.ColumnTypeDouble,
}

var numericTypes = map[model.ColumnType]bool{}
var noDefaultTypes = map[model.ColumnType]bool{}

func init() {
	for _, t := range []model.ColumnType{model.ColumnTypeTinyInt, model.ColumnTypeSmallInt, model.ColumnTypeMediumInt, model.ColumnTypeInt, model.ColumnTypeInteger, model.ColumnTypeBigInt, model.ColumnTypeFloat, model.ColumnTypeDouble, model.ColumnTypeDecimal, model.ColumnTypeNumeric, model.ColumnTypeReal} {
		numericTypes[t] = true
	}
	for _, t := range []model.ColumnType{model.ColumnTypeTinyText, model.ColumnTypeText, model.ColumnTypeMediumText, model.ColumnTypeLongText, model.ColumnTypeTinyBlob, model.ColumnTypeBlob, model.ColumnTypeMediumBlob, model.ColumnTypeLongBlob} {
		noDefaultTypes[t] = true
	}
}

func normCol(c PCol) (PCol, bool) {
	n, mod := c, false
	if c.Len == nil {
		if l, ok := nativeLen[c.Type]; ok {
			n.Len = &PLen{L: l[0]}
			if c.Uns {
				n.Len.L = l[1]
			}
			mod = true
		} else if c.Type == model.ColumnTypeDecimal || c.Type == model.ColumnTypeNumeric {
			n.Len = &PLen{L: "10", D: sp("0")}
			mod = true
		}
	}
	if s, ok := synonyms[c.Type]; ok {
		n.Type = s
		mod = true
	}
	if c.Null == model.NullStateNull {
		n.Null = model.NullStateNone
		mod = true
	}
	if c.Def != nil {
		if numericTypes[c.Type] && c.DefQ {
			n.DefQ = false
			mod = true
		}
		if c.Type == model.ColumnTypeBool || c.Type == model.ColumnTypeBoolean {
			switch *c.Def {
			case "TRUE":
				n.Def, n.DefQ, mod = sp("1"), false, true
			case "FALSE":
				n.Def, n.DefQ, mod = sp("0"), false, true
			default:
				if c.DefQ {
					n.DefQ, mod = false, true
				}
			}
		}
	} else if !noDefaultTypes[c.Type] && c.Null != model.NullStateNotNull {
		n.Def, n.DefQ, mod = sp("NULL"), false, true
	}
	return n, mod
}

func normTab(t PTab) PTab {
	n := t
	n.Cols, n.Idx = nil, nil
	for _, c := range t.Cols {
		c, _ = normCol(c)
		if c.Prim {
			n.Idx = append(n.Idx, PIdx{Kind: model.IndexKindPrimaryKey, Cols: []PICol{{Name: c.Name}}})
			c.Prim = false
		}
		if c.Uniq {
			n.Idx = append(n.Idx, PIdx{Kind: model.IndexKindUnique, Name: sp(c.Name), Cols: []PICol{{Name: c.Name}}})
			c.Uniq = false
		}
		n.Cols = append(n.Cols, c)
	}
	names := map[string]bool{}
	for _, x := range t.Idx {
		s := ""
		if x.Name != nil {
			s = *x.Name
		}
		names[s] = true
	}
	for _, x := range t.Idx {
		if x.Kind == model.IndexKindForeignKey && x.Sym != nil && !names[*x.Sym] {
			n.Idx = append(n.Idx, PIdx{Kind: model.IndexKindNormal, Name: x.Sym, Typ: x.Typ, Cols: x.Cols})
		}
		n.Idx = append(n.Idx, x)
	}
	return n
}
