package checks

import (
	"fmt"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
)

// shownItem is an item of a list with what it should look like.
type shownItem struct {
	name string
	v    interface{}
	t    []kit.Tok
}

const nExprForms = 24

// exprForm is the i-th item of a list of select expressions.
func exprForm(k, i int) shownItem {
	n := fmt.Sprintf("c%d", i)
	a := fmt.Sprintf("a%d", i)
	as := func(t []kit.Tok, alias string) []kit.Tok { return kit.Cat(t, kit.R("AS"), kit.R(alias)) }
	sub := lk.Select("s").From("u").Where(lk.Condition("p").Equal(i))
	subT := kit.Paren(kit.R("SELECT"), kit.I("s"), kit.R("FROM"), kit.I("u"), kit.R("WHERE"), kit.Binary(kit.I("p"), "=", kit.S(i)))
	count := lk.Count(n)
	switch k {
	case 0:
		return shownItem{"name", n, kit.I(n)}
	case 1:
		return shownItem{"column", lk.Column(n), kit.I(n)}
	case 2:
		return shownItem{"column with alias", lk.Column("t." + n).As(a), kit.Cat(kit.I("t."+n), kit.R("AS"), kit.I(a))}
	case 3:
		return shownItem{"column with its last alias", lk.Column(n).As("other").As(a), kit.Cat(kit.I(n), kit.R("AS"), kit.I(a))}
	case 4:
		return shownItem{"NewColumnAlias", stmt.NewColumnAlias(n, a), kit.Cat(kit.I(n), kit.R("AS"), kit.I(a))}
	case 5:
		return shownItem{"raw", lk.Raw(n + " + 1"), kit.R(n + " + 1")}
	case 6:
		return shownItem{"count", count, kit.R("COUNT(" + n + ")")}
	case 7:
		return shownItem{"count distinct", count.Distinct(true), kit.R("COUNT(DISTINCT " + n + ")")}
	case 8:
		return shownItem{"count not distinct", count.Distinct(true).Distinct(false), kit.R("COUNT(" + n + ")")}
	case 9:
		return shownItem{"count with alias", count.As(a), as(kit.R("COUNT("+n+")"), a)}
	case 10:
		return shownItem{"count distinct with alias", count.Distinct(true).As(a), as(kit.R("COUNT(DISTINCT "+n+")"), a)}
	case 11:
		return shownItem{"count with alias, distinct", count.As("other").As(a).Distinct(true), as(kit.R("COUNT(DISTINCT "+n+")"), a)}
	case 12:
		return shownItem{"count all", lk.Count("*"), kit.R("COUNT(*)")}
	case 13:
		return shownItem{"max", lk.Max(n), kit.R("MAX(" + n + ")")}
	case 14:
		return shownItem{"max with alias", lk.Max(n).As(a), as(kit.R("MAX("+n+")"), a)}
	case 15:
		return shownItem{"min", lk.Min(n), kit.R("MIN(" + n + ")")}
	case 16:
		return shownItem{"min with alias", lk.Min(n).As(a), as(kit.R("MIN("+n+")"), a)}
	case 17:
		return shownItem{"sum", lk.Sum(n), kit.R("SUM(" + n + ")")}
	case 18:
		return shownItem{"sum with alias", lk.Sum(n).As(a), as(kit.R("SUM("+n+")"), a)}
	case 19:
		return shownItem{"exists", lk.Exists(sub), kit.Cat(kit.R("EXISTS"), subT)}
	case 20:
		return shownItem{"not exists", lk.NotExists(sub), kit.Cat(kit.R("NOT EXISTS"), subT)}
	case 21:
		return shownItem{"names", n + ", " + n + "x", kit.List(kit.I(n), kit.I(n+"x"))}
	case 22:
		// Modifiers return a new item.
		_ = count.As("no")
		_ = count.Distinct(true)
		return shownItem{"untouched count", count, kit.R("COUNT(" + n + ")")}
	default:
		c := lk.Column(n)
		_ = c.As("no")
		m := lk.Sum(n).As(a)
		_ = m.As("no")
		return shownItem{"untouched sum", m, as(kit.R("SUM("+n+")"), a)}
	}
}

// exprPlaces take lists of select expressions.
var exprPlaces = []struct {
	name  string
	build func(args []interface{}, t []kit.Tok) kit.H
}{
	{"Select", func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{S: lk.Select(a...).From("t"), M: kit.Model{Kind: kit.Select, Exprs: t, From: kit.I("t")}}
	}},
	{"Columns", func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{S: lk.Select("z", "y").From("t").Columns(a...), M: kit.Model{Kind: kit.Select, Exprs: t, From: kit.I("t")}}
	}},
	{"distinct Select", func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{S: lk.Select(a...).Distinct(), M: kit.Model{Kind: kit.Select, Exprs: t, Distinct: true}}
	}},
	{"DistinctOn Select", func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{S: lk.Select(a...).DistinctOn("d", "e"), M: kit.Model{Kind: kit.Select, Exprs: t, DistinctOn: kit.List(kit.I("d"), kit.I("e"))}}
	}},
	{"Insert.Returning", func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{N: lk.Insert("t").Values(1).Returning(a...), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.Paren(kit.S(1)), Returning: t}}
	}},
	{"Update.Returning", func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{U: lk.Update("t").Set(lk.Pair("k", 1)).Returning(a...), M: kit.Model{Kind: kit.Update, Table: kit.I("t"), Assoc: assocK, Returning: t}}
	}},
	{"Delete.Returning", func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{D: lk.Delete("t").Where(lk.Condition("w").Equal(1)).Returning(a...), M: kit.Model{Kind: kit.Delete, From: kit.I("t"), Where: kit.Binary(kit.I("w"), "=", kit.S(1)), Returning: t}}
	}},
}

// c26Items: lists of select expressions.
func c26Items(x *engine.X) {
	p := exprPlaces[x.Pick(len(exprPlaces), "place")]
	n := 1 + x.Pick(tier(x, 5, 8), "items")
	var args []interface{}
	var toks [][]kit.Tok
	what := p.name + " of"
	same := x.Choose(2, "all the same") == 1
	k := 0
	for i := 0; i < n; i++ {
		if !same || i == 0 {
			k = x.Choose(nExprForms, "item")
		}
		it := exprForm(k, i)
		args, toks = append(args, it.v), append(toks, it.t)
		what += " " + it.name
	}
	x.Op("%s", what)
	var h kit.H
	must(x, "items", what, func() { h = p.build(args, kit.List(toks...)) })
	verify(x, h, kit.FAll, "items", what)
	x.State(what)
}

// A modifier of an item changes one attribute of its last value.
type itemState struct {
	v        interface{}
	alias    string
	distinct bool
	only     bool
}

var itemModifiers = []struct {
	name string
	f    func(s itemState) (itemState, bool)
}{
	{"As(a)", func(s itemState) (itemState, bool) { return s.as("a") }},
	{"As(b)", func(s itemState) (itemState, bool) { return s.as("b") }},
	{`As("")`, func(s itemState) (itemState, bool) { return s.as("") }},
	{"Distinct(true)", func(s itemState) (itemState, bool) { return s.setDistinct(true) }},
	{"Distinct(false)", func(s itemState) (itemState, bool) { return s.setDistinct(false) }},
	{"Only", func(s itemState) (itemState, bool) {
		t, ok := s.v.(stmt.Table)
		if ok {
			s.v, s.only = t.Only(), true
		}
		return s, ok
	}},
}

func (s itemState) as(alias string) (itemState, bool) {
	s.alias = alias
	switch v := s.v.(type) {
	case stmt.Count:
		s.v = v.As(alias)
	case stmt.Max:
		s.v = v.As(alias)
	case stmt.Min:
		s.v = v.As(alias)
	case stmt.Sum:
		s.v = v.As(alias)
	case stmt.Column:
		s.v = v.As(alias)
	case stmt.Table:
		s.v = v.As(alias)
	default:
		return s, false
	}
	return s, true
}

func (s itemState) setDistinct(on bool) (itemState, bool) {
	c, ok := s.v.(stmt.Count)
	if ok {
		s.v, s.distinct = c.Distinct(on), on
	}
	return s, ok
}

// toks of an item made on the name n.
func (s itemState) toks() []kit.Tok {
	var t []kit.Tok
	quoted := false
	switch s.v.(type) {
	case stmt.Count:
		t = kit.R("COUNT(n)")
		if s.distinct {
			t = kit.R("COUNT(DISTINCT n)")
		}
	case stmt.Max:
		t = kit.R("MAX(n)")
	case stmt.Min:
		t = kit.R("MIN(n)")
	case stmt.Sum:
		t = kit.R("SUM(n)")
	default:
		t, quoted = kit.I("n"), true
		if s.only {
			t = kit.Cat(kit.R("ONLY"), t)
		}
	}
	switch {
	case s.alias == "":
		return t
	case quoted:
		return kit.Cat(t, kit.R("AS"), kit.I(s.alias))
	}
	return kit.Cat(t, kit.R("AS"), kit.R(s.alias))
}

// c26Modifiers: any sequence of modifiers of an item; each one makes a new
// item and changes a single attribute.
func c26Modifiers(x *engine.X) {
	starts := []interface{}{lk.Count("n"), lk.Max("n"), lk.Min("n"), lk.Sum("n"), lk.Column("n"), lk.Table("n")}
	s := itemState{v: starts[x.Pick(len(starts), "item")]}
	n := x.Pick(tier(x, 5, 7), "modifiers")
	all := []itemState{s}
	what := fmt.Sprintf("%T", s.v)
	for i := 0; i < n; i++ {
		m := itemModifiers[x.Pick(len(itemModifiers), "modifier")]
		var ok bool
		if s, ok = m.f(s); !ok {
			return
		}
		all = append(all, s)
		what += "." + m.name
	}
	x.Op("%s", what)
	var args []interface{}
	var toks [][]kit.Tok
	for _, s := range all {
		args, toks = append(args, s.v), append(toks, s.toks())
	}
	h := kit.H{M: kit.Model{Kind: kit.Select}}
	must(x, "modifiers", what, func() {
		if _, ok := s.v.(stmt.Table); ok {
			h.S, h.M.Exprs, h.M.From = lk.Select("x").From(args...), kit.I("x"), kit.List(toks...)
		} else {
			h.S, h.M.Exprs, h.M.From = lk.Select(args...).From("t"), kit.List(toks...), kit.I("t")
		}
	})
	verify(x, h, kit.FAll, "modifiers", what)
	x.State(what)
}

const nTableForms = 9

func tableForm(k, i int) shownItem {
	n, a := fmt.Sprintf("t%d", i), fmt.Sprintf("a%d", i)
	as := kit.Cat(kit.I(n), kit.R("AS"), kit.I(a))
	switch k {
	case 0:
		return shownItem{"name", n, kit.I(n)}
	case 1:
		return shownItem{"table", lk.Table(n), kit.I(n)}
	case 2:
		return shownItem{"alias", lk.Table(n).As(a), as}
	case 3:
		return shownItem{"only", lk.Table(n).Only(), kit.Cat(kit.R("ONLY"), kit.I(n))}
	case 4:
		return shownItem{"only with alias", lk.Table(n).Only().As(a), kit.Cat(kit.R("ONLY"), as)}
	case 5:
		return shownItem{"alias, only", lk.Table(n).As("other").Only().As(a).Only(), kit.Cat(kit.R("ONLY"), as)}
	case 6:
		return shownItem{"NewTableAlias", stmt.NewTableAlias("s."+n, a), kit.Cat(kit.I("s."+n), kit.R("AS"), kit.I(a))}
	case 7:
		t := lk.Table(n)
		_ = t.Only()
		_ = t.As("no")
		return shownItem{"untouched table", t, kit.I(n)}
	default:
		return shownItem{"raw", lk.Raw("f(" + n + ")"), kit.R("f(" + n + ")")}
	}
}

var tablePlaces = []struct {
	name      string
	only1     bool // one table
	raw, from bool // accepts raw SQL, a From
	build     func(args []interface{}, t []kit.Tok) kit.H
}{
	{"From", false, true, true, func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{S: lk.Select("x").From(a...), M: kit.Model{Kind: kit.Select, Exprs: kit.I("x"), From: t}}
	}},
	{"Delete.From", false, true, true, func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{D: builder.NewDelete().From(a...), M: kit.Model{Kind: kit.Delete, From: t}}
	}},
	{"Delete.Using", false, false, false, func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{D: lk.Delete("t").Using(a...), M: kit.Model{Kind: kit.Delete, From: kit.I("t"), Using: t}}
	}},
	{"Update.From", true, true, true, func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{U: lk.Update("t").Set(lk.Pair("k", 1)).From(a[0]), M: kit.Model{Kind: kit.Update, Table: kit.I("t"), Assoc: assocK, From: t}}
	}},
	{"Update", true, false, false, func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{U: lk.Update(a[0]).Set(lk.Pair("k", 1)), M: kit.Model{Kind: kit.Update, Table: t, Assoc: assocK}}
	}},
	{"Update(..).Only", true, false, false, func(a []interface{}, t []kit.Tok) kit.H {
		only := kit.R("ONLY")
		if fmt.Sprint(t[:len(only)]) != fmt.Sprint(only) {
			t = kit.Cat(only, t)
		}
		return kit.H{U: lk.Update(a[0]).Only().Set(lk.Pair("k", 1)).Only(), M: kit.Model{Kind: kit.Update, Table: t, Assoc: assocK}}
	}},
	{"Insert", true, false, false, func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{N: lk.Insert(a[0]).Values(1), M: kit.Model{Kind: kit.Insert, Into: t, Values: kit.Paren(kit.S(1))}}
	}},
	{"Insert(Into)", true, false, false, func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{N: lk.Insert(stmt.NewInto(builder.ToTable(a[0]))).Values(1), M: kit.Model{Kind: kit.Insert, Into: t, Values: kit.Paren(kit.S(1))}}
	}},
	{"Delete", true, true, true, func(a []interface{}, t []kit.Tok) kit.H {
		return kit.H{D: lk.Delete(a[0]), M: kit.Model{Kind: kit.Delete, From: t}}
	}},
}

// c26Tables: lists of tables, some of them in FROM clauses.
func c26Tables(x *engine.X) {
	p := tablePlaces[x.Pick(len(tablePlaces), "place")]
	n := 1
	if !p.only1 {
		n += x.Pick(tier(x, 5, 7), "tables")
	}
	var args []interface{}
	var toks [][]kit.Tok
	what := p.name + " of"
	forms := nTableForms
	if !p.raw {
		forms--
	}
	var group []stmt.Statement
	flush := func() {
		if group != nil {
			args = append(args, stmt.NewFrom(group))
			group = nil
		}
	}
	for i := 0; i < n; i++ {
		it := tableForm(x.Choose(forms, "table"), i)
		what += " " + it.name
		toks = append(toks, it.t)
		if p.from && x.Choose(2, "in a From") == 1 {
			if s, ok := it.v.(string); ok {
				it.v = lk.Table(s)
			}
			group = append(group, it.v.(stmt.Statement))
			what += "+"
			continue
		}
		flush()
		args = append(args, it.v)
	}
	flush()
	if p.only1 && len(args) != 1 {
		x.Skip()
	}
	x.Op("%s", what)
	var h kit.H
	must(x, "tables", what, func() { h = p.build(args, kit.List(toks...)) })
	verify(x, h, kit.FAll, "tables", what)
	x.State(what)
}

// c26Joins: successive joins of all kinds, by all routes.
func c26Joins(x *engine.X) {
	h := kit.H{S: lk.Select("x").From("t"), M: kit.Model{Kind: kit.Select, Exprs: kit.I("x"), From: kit.I("t")}}
	n := 1 + x.Pick(tier(x, 4, 6), "joins")
	kinds := []types.JoinType{lk.InnerJoin, lk.LeftJoin, lk.RightJoin, lk.LeftOuterJoin, lk.RightOuterJoin}
	what := ""
	for i := 0; i < n; i++ {
		kind := kinds[x.Choose(len(kinds), "kind")]
		it := tableForm(x.Choose(nTableForms-1, "table"), i)
		tbl := builder.ToTable(it.v)
		l, r := fmt.Sprintf("j%d.a", i), fmt.Sprintf("t.b%d", i)
		on := lk.On(l, r)
		onT := kit.Cat(kit.I(l), kit.R("="), kit.I(r))
		text := l + " = " + r
		var f func(b lkSelect) lkSelect
		route := x.Choose(7, "route")
		switch route {
		case 0:
			f = func(b lkSelect) lkSelect { return b.Join(it.v, on, kind) }
		case 1:
			f = func(b lkSelect) lkSelect { return b.Join(it.v, text, kind) }
		case 2:
			f = func(b lkSelect) lkSelect { return b.Join(stmt.NewJoin(kind, tbl, on)) }
		case 3: // a condition with arguments
			c := lk.And(on, lk.Condition(fmt.Sprintf("j%d.v", i)).In(i, "v"))
			onT = kit.Paren(onT, kit.R("AND"), kit.Paren(kit.I(fmt.Sprintf("j%d.v", i)), kit.R("IN"), kit.Paren(kit.List(kit.S(i), kit.S("v")))))
			f = func(b lkSelect) lkSelect { return b.Join(stmt.NewJoin(kind, tbl, c)) }
		case 4:
			c := lk.OrOn(on, lk.On("y.a", "y.b"))
			onT = kit.Paren(onT, kit.R("OR"), kit.I("y.a"), kit.R("="), kit.I("y.b"))
			f = func(b lkSelect) lkSelect { return b.Join(it.v, c, kind) }
		case 5: // the dedicated constructors
			f = func(b lkSelect) lkSelect {
				switch kind {
				case lk.InnerJoin:
					return b.Join(stmt.NewInnerJoin(tbl, on))
				case lk.LeftJoin:
					return b.Join(stmt.NewLeftJoin(tbl, on))
				case lk.RightJoin:
					return b.Join(stmt.NewRightJoin(tbl, on))
				}
				return b.Join(stmt.NewJoin(kind, tbl, on))
			}
		case 6: // the default kind
			if kind != lk.InnerJoin {
				x.Skip()
			}
			f = func(b lkSelect) lkSelect { return b.Join(it.v, on) }
		}
		step := fmt.Sprintf("%s %s by route %d; ", kind, it.name, route)
		what += step
		x.Op("%s", step)
		must(x, "joins", what, func() { h.S = f(h.S) })
		h.M.Joins = kit.AddList(h.M.Joins, kit.Cat(kit.R(kind.String()), it.t, kit.R("ON"), onT))
	}
	verify(x, h, kit.FAll, "joins", what)
	x.State(what)
}

// c26Orders: orders, cut into calls.
func c26Orders(x *engine.X) {
	h := kit.Start(kit.Select)
	n := 1 + x.Pick(tier(x, 4, 6), "orders")
	var call []stmt.Order
	what := ""
	for i := 0; i < n; i++ {
		c := fmt.Sprintf("o%d", i)
		var o stmt.Order
		t := c + " ASC"
		k := x.Choose(9, "order")
		switch k {
		case 0:
			o = lk.Order(c)
		case 1:
			o, t = lk.Order(c, lk.Desc), c+" DESC"
		case 2:
			o = lk.Order(c, lk.Asc)
		case 3:
			o = lk.Column(c).Asc()
		case 4:
			o, t = lk.Column(c).Desc(), c+" DESC"
		case 5:
			o = lk.Column("real").As(c).Asc()
		case 6:
			o, t = lk.Column("real").As(c).Desc(), c+" DESC"
		case 7:
			o, t = stmt.NewOrder("lower(t."+c+")", types.Desc), "lower(t."+c+") DESC"
		case 8:
			o, t = lk.Order("t."+c), "t."+c+" ASC"
		}
		what += fmt.Sprintf("%s; ", t)
		call = append(call, o)
		h.M.Orders = kit.AddList(h.M.Orders, kit.R(t))
		if i == n-1 || x.PickBool("next in another call") {
			x.Op("OrderBy of %d", len(call))
			c := call
			must(x, "orders", what, func() { h.S = h.S.OrderBy(c...) })
			call = nil
			what += "| "
		}
	}
	verify(x, h, kit.FAll, "orders", what)
	x.State(what)
}

// c26With: common table expressions, cut into calls.
func c26With(x *engine.X) {
	kind := x.Pick(2, "kind")
	h := kit.Start(kit.Select)
	if kind == 1 {
		h = kit.Start(kit.Update)
		h.U, h.M.Assoc = h.U.Set(lk.Pair("k", 1)), assocK
	}
	n := 1 + x.Pick(tier(x, 4, 6), "queries")
	var call []stmt.WithQuery
	what := ""
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("w%d", i)
		sub := lk.Select(lk.Column("i").As("j"), lk.Count("k").Distinct(true).As("n")).From(lk.Table("u").Only()).Where(lk.Condition("p").Equal(i))
		body := kit.Cat(kit.R("SELECT"), kit.I("i"), kit.R("AS"), kit.I("j"), kit.R(", COUNT(DISTINCT k) AS n FROM ONLY"), kit.I("u"), kit.R("WHERE"), kit.Binary(kit.I("p"), "=", kit.S(i)))
		var q stmt.WithQuery
		k := x.Choose(6, "query")
		switch k {
		case 0:
			q = lk.With(name, sub)
		case 1:
			q = lk.With(name, sub.Statement())
		case 2:
			q, body = lk.With(name, lk.Raw("SELECT 1")), kit.R("SELECT 1")
		case 3:
			name += "(x, y)"
			q = lk.With(name, sub)
		case 4:
			name = "RECURSIVE " + name
			q = stmt.NewWithQuery(name, &sub)
		case 5:
			q = lk.With(name, sub.With(lk.With("inner", lk.Select("z").Limit(i+1))))
			body = kit.Cat(kit.R("WITH inner AS"), kit.Paren(kit.R("SELECT"), kit.I("z"), kit.R(fmt.Sprintf("LIMIT %d", i+1))), body)
		}
		what += fmt.Sprintf("%s (%d); ", name, k)
		call = append(call, q)
		h.M.With = kit.AddList(h.M.With, kit.Cat(kit.R(name+" AS"), kit.Paren(body)))
		if i == n-1 || x.PickBool("next in another call") {
			x.Op("With of %d", len(call))
			c := call
			must(x, "with", what, func() {
				if kind == 1 {
					h.U = h.U.With(c...)
				} else {
					h.S = h.S.With(c...)
				}
			})
			call = nil
			what += "| "
		}
	}
	verify(x, h, kit.FAll, "with", what)
	x.State(what, fmt.Sprint(kind))
}

// c26Columns: GROUP BY, DISTINCT ON and insert columns.
func c26Columns(x *engine.X) {
	place := x.Pick(3, "place")
	n := 1 + x.Pick(tier(x, 5, 7), "columns")
	var args []interface{}
	var toks [][]kit.Tok
	what := []string{"GroupBy", "DistinctOn", "Insert.Columns"}[place]
	for i := 0; i < n; i++ {
		c := fmt.Sprintf("c%d", i)
		switch x.Choose(4, "column") {
		case 0:
			args, toks = append(args, c), append(toks, kit.I(c))
		case 1:
			args, toks = append(args, lk.Column(c)), append(toks, kit.I(c))
		case 2:
			args, toks = append(args, lk.Column("t."+c)), append(toks, kit.I("t."+c))
		case 3:
			args, toks = append(args, c+",x"+c), append(toks, kit.I(c), kit.I("x"+c))
		}
		what += fmt.Sprintf(" %v", args[i])
	}
	x.Op("%s", what)
	h := kit.Start(kit.Select)
	must(x, "columns", what, func() {
		switch place {
		case 0:
			h.S, h.M.GroupBy = h.S.GroupBy(args...), kit.List(toks...)
		case 1:
			h.S, h.M.DistinctOn = h.S.DistinctOn(args...), kit.List(toks...)
		default:
			h = kit.Start(kit.Insert)
			h.N, h.M.Columns = h.N.Columns(args...), kit.List(toks...)
		}
	})
	verify(x, h, kit.FAll, "columns", what)
	x.State(what)
}

// frames are texts for Prefix and Suffix.
var frames = []string{"EXPLAIN", "EXPLAIN (ANALYZE, FORMAT 'json')", "/* hint */", "FOR UPDATE", "FOR UPDATE OF a.b, c SKIP LOCKED", "UNION SELECT 1", " x ", "\"Quoted\" 'it''s'", "é", "x\ty\nz", ",", "--"}

// c26Frames: Prefix and Suffix are verbatim, on selects of all shapes.
func c26Frames(x *engine.X) {
	pre, suf := x.Pick(len(frames)+1, "prefix"), x.Pick(len(frames)+1, "suffix")
	where := x.Pick(3, "when")
	g := &kit.Gen{C: x, Depth: 1, NoComment: true}
	h := genStmtOf(g)
	if h.M.Prefix != nil || h.M.Suffix != nil {
		x.Skip()
	}
	var want [2]string
	must(x, "frames", "statement", func() { want[0], _ = h.S.Query(); want[1] = h.S.String() })
	what := ""
	b := h.S
	frame := func() {
		if pre > 0 {
			if where == 2 {
				b = b.Prefix(stmt.NewPrefix(frames[pre-1]))
			} else {
				b = b.Prefix(frames[pre-1])
			}
		}
	}
	if where == 0 {
		frame()
	}
	if suf > 0 {
		b = b.Suffix(frames[suf-1])
	}
	if where != 0 {
		frame()
	}
	for i := range want {
		if pre > 0 {
			want[i] = frames[pre-1] + " " + want[i]
			what = fmt.Sprintf("Prefix(%q) ", frames[pre-1])
		}
		if suf > 0 {
			want[i] += " " + frames[suf-1]
			what += fmt.Sprintf("Suffix(%q)", frames[suf-1])
		}
	}
	x.Op("%s", what)
	x.Checked()
	must(x, "frames", what, func() {
		q, _ := b.Query()
		n, _ := b.NamedQuery()
		s := b.String()
		if q != want[0] {
			x.Fail("frames", "%s: Query() is %q, expected %q", what, q, want[0])
		}
		if s != want[1] {
			x.Fail("frames", "%s: String() is %q, expected %q", what, s, want[1])
		}
		if pre > 0 && !strings.HasPrefix(n, frames[pre-1]+" ") || suf > 0 && !strings.HasSuffix(n, " "+frames[suf-1]) {
			x.Fail("frames", "%s: NamedQuery() is %q", what, n)
		}
	})
	x.State(what, want[0])
}

func genStmtOf(g *kit.Gen) kit.H { return g.SelectStmt() }

// c26Together: statements whose lists all have several items.
func c26Together(x *engine.X) {
	n := 2 + x.Choose(2, "length")
	h := kit.H{M: kit.Model{Kind: kit.Select}}
	var exprs, froms, group []interface{}
	var et, ft, gt [][]kit.Tok
	for i := 0; i < n; i++ {
		e := exprForm(x.Choose(nExprForms, "item"), i)
		f := tableForm(x.Choose(nTableForms, "table"), 10+i)
		exprs, et = append(exprs, e.v), append(et, e.t)
		froms, ft = append(froms, f.v), append(ft, f.t)
		c := fmt.Sprintf("g%d", i)
		group, gt = append(group, c), append(gt, kit.I(c))
	}
	distinct := x.Choose(3, "distinct")
	h.M.Exprs, h.M.From, h.M.GroupBy = kit.List(et...), kit.List(ft...), kit.List(gt...)
	must(x, "together", "statement", func() {
		h.S = lk.Select(exprs...).From(froms...).GroupBy(group...)
		switch distinct {
		case 1:
			h.S, h.M.Distinct = h.S.Distinct(), true
		case 2:
			h.S, h.M.DistinctOn = h.S.DistinctOn(group...), h.M.GroupBy
		}
		for i := 0; i < n; i++ {
			kind := []types.JoinType{lk.LeftJoin, lk.RightJoin, lk.InnerJoin}[i]
			t := tableForm(x.Choose(nTableForms-1, "joined table"), 20+i)
			h.S = h.S.Join(t.v, lk.On("a.b", "c.d"), kind)
			h.M.Joins = kit.AddList(h.M.Joins, kit.Cat(kit.R(kind.String()), t.t, kit.R("ON"), kit.I("a.b"), kit.R("="), kit.I("c.d")))
			dir := []types.OrderType{lk.Asc, lk.Desc}[x.Choose(2, "direction")]
			h.S = h.S.OrderBy(lk.Order(fmt.Sprint("o", i), dir))
			h.M.Orders = kit.AddList(h.M.Orders, kit.R(fmt.Sprintf("o%d %s", i, dir)))
			h.S = h.S.With(lk.With(fmt.Sprint("w", i), lk.Raw(fmt.Sprint("SELECT ", i))))
			h.M.With = kit.AddList(h.M.With, kit.R(fmt.Sprintf("w%d AS (SELECT %d)", i, i)))
		}
		if x.Choose(2, "where") == 1 {
			h.S = h.S.Where(lk.Condition("p").Equal(7)).Having(lk.Condition("q").Equal(8))
			h.M.Where, h.M.Having = kit.Binary(kit.I("p"), "=", kit.S(7)), kit.Binary(kit.I("q"), "=", kit.S(8))
		}
	})
	x.Op("statement")
	verify(x, h, kit.FAll, "together", "statement")
	x.State(h.M.Key())
}

// c26Aliases: names and aliases which look alike, at every place that takes
// them.
func c26Aliases(x *engine.X) {
	n := c09Confusing[x.Pick(len(c09Confusing), "name")]
	a := c09Confusing[x.Pick(len(c09Confusing), "alias")]
	form := x.Pick(3, "among others")
	what := fmt.Sprintf("%q AS %q", n, a)
	col, colT := lk.Column(n).As(a), kit.Cat(kit.I(n), kit.R("AS"), kit.I(a))
	tab, tabT := lk.Table(n).As(a), kit.Cat(kit.I(n), kit.R("AS"), kit.I(a))
	list := func(i interface{}, t []kit.Tok, name, alias interface{}, nt, at []kit.Tok) ([]interface{}, []kit.Tok) {
		switch form {
		case 1:
			return []interface{}{name, i, alias}, kit.List(nt, t, at)
		case 2:
			return []interface{}{alias, name, i}, kit.List(at, nt, t)
		}
		return []interface{}{i}, t
	}
	h := kit.H{M: kit.Model{Kind: kit.Select, Exprs: kit.I("z"), From: kit.I("t")}}
	place := x.Pick(len(exprPlaces)+8, "place")
	must(x, "aliases", what, func() {
		if place < len(exprPlaces) {
			args, t := list(col, colT, lk.Column(n), lk.Column(a), kit.I(n), kit.I(a))
			h = exprPlaces[place].build(args, t)
			return
		}
		switch place - len(exprPlaces) {
		case 0:
			args, t := list(tab, tabT, lk.Table(n), lk.Table(a), kit.I(n), kit.I(a))
			h.S, h.M.From = lk.Select("z").From(args...), t
		case 1:
			h.S, h.M.Joins = lk.Select("z").From("t").Join(tab, lk.On(n, a)), [][]kit.Tok{kit.Cat(kit.R("INNER JOIN"), tabT, kit.R("ON"), kit.I(n), kit.R("="), kit.I(a))}
		case 2:
			h = kit.H{N: lk.Insert(tab).Values(1), M: kit.Model{Kind: kit.Insert, Into: tabT, Values: kit.Paren(kit.S(1))}}
		case 3:
			h = kit.H{U: lk.Update(tab).Set(lk.Pair("k", 1)), M: kit.Model{Kind: kit.Update, Table: tabT, Assoc: assocK}}
		case 4:
			h = kit.H{U: lk.Update("u").Set(lk.Pair("k", 1)).From(tab), M: kit.Model{Kind: kit.Update, Table: kit.I("u"), Assoc: assocK, From: tabT}}
		case 5:
			h = kit.H{D: lk.Delete(tab), M: kit.Model{Kind: kit.Delete, From: tabT}}
		case 6:
			args, t := list(tab, tabT, lk.Table(n), lk.Table(a), kit.I(n), kit.I(a))
			h = kit.H{D: lk.Delete("t").Using(args...), M: kit.Model{Kind: kit.Delete, From: kit.I("t"), Using: t}}
		case 7:
			h = kit.H{D: lk.Delete(tab.Only()), M: kit.Model{Kind: kit.Delete, From: kit.Cat(kit.R("ONLY"), tabT)}}
		}
	})
	x.Op("%s", what)
	verify(x, h, kit.FQuery|kit.FString, "aliases", what)
	x.State(h.M.Key())
}

// nearTables and nearItems take few names: the clauses of a statement name the
// same things, or things named alike.
func nearTables(raw bool) []shownItem {
	var out []shownItem
	for _, n := range []string{"t", "u"} {
		t, o := kit.I(n), map[string]string{"t": "u", "u": "t"}[n]
		as := kit.Cat(t, kit.R("AS"), kit.I(o))
		out = append(out,
			shownItem{n, n, t},
			shownItem{n + " as itself", lk.Table(n).As(n), kit.Cat(t, kit.R("AS"), t)},
			shownItem{n + " as the other", lk.Table(n).As(o), as},
			shownItem{"only " + n, lk.Table(n).Only(), kit.Cat(kit.R("ONLY"), t)},
			shownItem{"only " + n + " as the other", lk.Table(n).As(o).Only(), kit.Cat(kit.R("ONLY"), as)})
	}
	if raw {
		out = append(out, shownItem{"raw t", lk.Raw("t"), kit.R("t")}, shownItem{"raw quoted", lk.Raw(`"t"`), kit.R(`"t"`)})
	}
	return out
}

func nearItems() []shownItem {
	out := []shownItem{{"raw", lk.Raw("t"), kit.R("t")}, {"count", lk.Count("t"), kit.R("COUNT(t)")}}
	for _, n := range []string{"t", "u", "t.u"} {
		out = append(out, shownItem{n, n, kit.I(n)}, shownItem{n + " as t", lk.Column(n).As("t"), kit.Cat(kit.I(n), kit.R("AS"), kit.I("t"))})
	}
	return out
}

// c26Near: all the clauses of a statement about the same few names.
func c26Near(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	h := kit.H{M: kit.Model{Kind: kind}}
	what := ""
	pick := func(place string, l []shownItem) *shownItem {
		it := &l[x.Pick(len(l), place)]
		what += place + " " + it.name + "; "
		return it
	}
	maybe := func(place string, l []shownItem) *shownItem {
		if i := x.Pick(len(l)+1, place); i > 0 {
			what += place + " " + l[i-1].name + "; "
			return &l[i-1]
		}
		return nil
	}
	names := []string{"t", "u", "t.u"}
	name := func(place string) string {
		n := names[x.Pick(len(names), place)]
		what += place + " " + n + "; "
		return n
	}
	one, raw, items := nearTables(false), nearTables(true), nearItems()
	must(x, "neighbours", what, func() {
		var ret *shownItem
		switch kind {
		case kit.Select:
			f := pick("From", raw)
			froms, fromT := []interface{}{f.v}, f.t
			if f = maybe("and", raw); f != nil {
				froms, fromT = append(froms, f.v), kit.List(fromT, f.t)
			}
			e := pick("select", items)
			h.S, h.M.Exprs, h.M.From = lk.Select(e.v).From(froms...), e.t, fromT
			if j := maybe("Join", one); j != nil {
				h.S = h.S.Join(j.v, lk.On("t.u", "u"))
				h.M.Joins = [][]kit.Tok{kit.Cat(kit.R("INNER JOIN"), j.t, kit.R("ON"), kit.I("t.u"), kit.R("="), kit.I("u"))}
			}
			switch x.Pick(3, "rest") {
			case 1:
				g, o := name("group"), name("order")
				h.S = h.S.GroupBy(g).OrderBy(lk.Column(o).Desc())
				h.M.GroupBy, h.M.Orders = kit.I(g), [][]kit.Tok{kit.R(o + " DESC")}
			case 2:
				w := name("with")
				h.S = h.S.With(lk.With(w, lk.Raw("SELECT 1")))
				h.M.With = [][]kit.Tok{kit.Cat(kit.R(w+" AS"), kit.Paren(kit.R("SELECT 1")))}
			}
		case kit.Insert:
			f := pick("Into", one)
			h.N, h.M.Into = lk.Insert(f.v), f.t
			c := name("column")
			cols, colT := []interface{}{c}, [][]kit.Tok{kit.I(c)}
			vals, valT := []interface{}{1}, [][]kit.Tok{kit.S(1)}
			if i := x.Pick(len(names)+1, "column"); i > 0 {
				cols, colT = append(cols, names[i-1]), append(colT, kit.I(names[i-1]))
				vals, valT = append(vals, names[i-1]), append(valT, kit.S(names[i-1]))
			}
			h.N = h.N.Columns(cols...).Values(vals...)
			h.M.Columns, h.M.Values = kit.List(colT...), kit.Paren(kit.List(valT...))
			switch x.Pick(3, "conflict") {
			case 1:
				g := name("target")
				h.N, h.M.Conflict = h.N.OnConflict(g, lk.DoNothing()), kit.Cat(kit.Paren(kit.I(g)), kit.R("DO NOTHING"))
			case 2:
				g, s := name("target"), name("assigned")
				h.N, h.M.Conflict = h.N.OnConflict(g, lk.DoUpdate(lk.Pair(s, lk.Raw("EXCLUDED.t")))), kit.Cat(kit.Paren(kit.I(g)), kit.R("DO UPDATE SET"), kit.I(s), kit.R("= EXCLUDED.t"))
			}
			if ret = maybe("returning", items); ret != nil {
				h.N = h.N.Returning(ret.v)
			}
		case kit.Update:
			f := pick("Update", one)
			s := name("assigned")
			h.U, h.M.Table = lk.Update(f.v).Set(lk.Pair(s, "t")), f.t
			h.M = h.M.SetPair(s, kit.S("t"))
			if x.PickBool("raw assignment") {
				s = name("assigned")
				h.U = h.U.Set(lk.Pair(s, lk.Raw(`"t"`)))
				h.M = h.M.SetPair(s, kit.R(`"t"`))
			}
			if f = maybe("From", raw); f != nil {
				h.U, h.M.From = h.U.From(f.v), f.t
			}
			if x.PickBool("where") {
				w := name("where")
				h.U, h.M.Where = h.U.Where(lk.Condition(w).Equal(lk.Raw("u"))), kit.Binary(kit.I(w), "=", kit.R("u"))
			}
			if ret = maybe("returning", items); ret != nil {
				h.U = h.U.Returning(ret.v)
			}
		case kit.Delete:
			f := pick("From", raw)
			h.D, h.M.From = lk.Delete(f.v), f.t
			if f = maybe("Using", one); f != nil {
				using, t := []interface{}{f.v}, f.t
				if f = maybe("and", one); f != nil {
					using, t = append(using, f.v), kit.List(t, f.t)
				}
				h.D, h.M.Using = h.D.Using(using...), t
			}
			if x.PickBool("where") {
				w := name("where")
				h.D, h.M.Where = h.D.Where(lk.Condition(w).Equal(lk.Raw("u"))), kit.Binary(kit.I(w), "=", kit.R("u"))
			}
			if ret = maybe("returning", items); ret != nil {
				h.D = h.D.Returning(ret.v)
			}
		}
		if ret != nil {
			h.M.Returning = ret.t
		}
	})
	x.Op("%s", what)
	verify(x, h, kit.FQuery|kit.FString, "neighbours", what)
	x.State(h.M.Key())
}

// wordLists are the lists of a statement with what an item on a letter is.
type wordList struct {
	name    string
	letters int
	build   func(w []int) kit.H
}

func wordListOf[T any](name string, letters []T, toks func(i int) []kit.Tok, use func(l []T, t [][]kit.Tok) kit.H) wordList {
	return wordList{name, len(letters), func(w []int) kit.H {
		var l []T
		var t [][]kit.Tok
		for _, k := range w {
			l, t = append(l, letters[k]), append(t, toks(k))
		}
		return use(l, t)
	}}
}

var wordLists = func() []wordList {
	var out []wordList
	alias := func(n, a string) []kit.Tok { return kit.Cat(kit.I(n), kit.R("AS"), kit.I(a)) }
	exprs := []interface{}{"a", lk.Column("a"), "A", lk.Column("a").As("x"), lk.Column("b").As("x"), "t.a", lk.Count("a"), lk.Count("a").As("x"), lk.Max("a").As("x"), lk.Raw("a"), lk.Raw("*")}
	exprToks := [][]kit.Tok{kit.I("a"), kit.I("a"), kit.I("A"), alias("a", "x"), alias("b", "x"), kit.I("t.a"), kit.R("COUNT(a)"), kit.R("COUNT(a) AS x"), kit.R("MAX(a) AS x"), kit.R("a"), kit.R("*")}
	for _, p := range exprPlaces {
		p := p
		out = append(out, wordListOf(p.name, exprs, func(i int) []kit.Tok { return exprToks[i] }, func(l []interface{}, t [][]kit.Tok) kit.H { return p.build(l, kit.List(t...)) }))
	}
	names := []interface{}{"a", lk.Column("a"), "A", "t.a", "u.a", "1", "a b"}
	nameToks := [][]kit.Tok{kit.I("a"), kit.I("a"), kit.I("A"), kit.I("t.a"), kit.I("u.a"), kit.I("1"), kit.I("a b")}
	for _, p := range mixedPlaces {
		p := p
		if p.name != "DistinctOn" && p.name != "GroupBy" && p.name != "Columns of an insert" && p.name != "OnConflict" {
			continue
		}
		out = append(out, wordListOf(p.name, names, func(i int) []kit.Tok { return nameToks[i] }, func(l []interface{}, t [][]kit.Tok) kit.H {
			h := p.call(kit.Start(p.kind), l)
			h.M = kit.Start(p.kind).M
			p.set(&h.M, kit.List(t...))
			return h
		}))
	}
	tables := []interface{}{"a", lk.Table("a"), "A", lk.Table("a").As("x"), lk.Table("b").As("x"), "s.a", lk.Table("a").Only(), lk.Raw("a")}
	tableToks := [][]kit.Tok{kit.I("a"), kit.I("a"), kit.I("A"), alias("a", "x"), alias("b", "x"), kit.I("s.a"), kit.Cat(kit.R("ONLY"), kit.I("a")), kit.R("a")}
	out = append(out,
		wordListOf("From", tables, func(i int) []kit.Tok { return tableToks[i] }, func(l []interface{}, t [][]kit.Tok) kit.H {
			return kit.H{S: lk.Select("z").From(l...), M: kit.Model{Kind: kit.Select, Exprs: kit.I("z"), From: kit.List(t...)}}
		}),
		wordListOf("Using", tables[:7], func(i int) []kit.Tok { return tableToks[i] }, func(l []interface{}, t [][]kit.Tok) kit.H {
			return kit.H{D: lk.Delete("d").Using(l...), M: kit.Model{Kind: kit.Delete, From: kit.I("d"), Using: kit.List(t...)}}
		}))
	orders := []stmt.Order{lk.Order("a"), lk.Order("a", lk.Asc), lk.Order("a", lk.Desc), lk.Order("A"), lk.Column("a").Asc(), lk.Column("b").As("a").Desc(), lk.Order("a DESC")}
	orderToks := []string{"a ASC", "a ASC", "a DESC", "A ASC", "a ASC", "a DESC", "a DESC ASC"}
	out = append(out,
		wordListOf("OrderBy", orders, func(i int) []kit.Tok { return kit.R(orderToks[i]) }, func(l []stmt.Order, t [][]kit.Tok) kit.H {
			return kit.H{S: lk.Select("z").From("t").OrderBy(l...), M: kit.Model{Kind: kit.Select, Exprs: kit.I("z"), From: kit.I("t"), Orders: t}}
		}),
		wordListOf("OrderBy, one by one", orders, func(i int) []kit.Tok { return kit.R(orderToks[i]) }, func(l []stmt.Order, t [][]kit.Tok) kit.H {
			b := lk.Select("z").From("t")
			for _, o := range l {
				b = b.OrderBy(o)
			}
			return kit.H{S: b, M: kit.Model{Kind: kit.Select, Exprs: kit.I("z"), From: kit.I("t"), Orders: t}}
		}))
	q := lk.Select("s").From("u").Where(lk.Condition("p").Equal(3))
	qt := kit.Paren(kit.R("SELECT"), kit.I("s"), kit.R("FROM"), kit.I("u"), kit.R("WHERE"), kit.Binary(kit.I("p"), "=", kit.S(3)))
	withs := []stmt.WithQuery{lk.With("w", q), lk.With("v", q), lk.With("W", q), lk.With("w", lk.Raw("SELECT 1")), lk.With("w", lk.Raw("SELECT 2"))}
	withToks := [][]kit.Tok{kit.Cat(kit.R("w AS"), qt), kit.Cat(kit.R("v AS"), qt), kit.Cat(kit.R("W AS"), qt), kit.R("w AS (SELECT 1)"), kit.R("w AS (SELECT 2)")}
	joins := []stmt.Join{
		stmt.NewInnerJoin(lk.Table("j"), lk.On("a", "b")), stmt.NewLeftJoin(lk.Table("j"), lk.On("a", "b")), stmt.NewInnerJoin(lk.Table("j"), lk.On("b", "a")), stmt.NewInnerJoin(lk.Table("k"), lk.On("a", "b")),
		stmt.NewInnerJoin(lk.Table("j").As("x"), lk.On("a", "b")), stmt.NewInnerJoin(lk.Table("j"), lk.On("a", "a")),
	}
	on := func(kind string, t []kit.Tok, l, r string) []kit.Tok {
		return kit.Cat(kit.R(kind), t, kit.R("ON"), kit.I(l), kit.R("="), kit.I(r))
	}
	joinToks := [][]kit.Tok{on("INNER JOIN", kit.I("j"), "a", "b"), on("LEFT JOIN", kit.I("j"), "a", "b"), on("INNER JOIN", kit.I("j"), "b", "a"), on("INNER JOIN", kit.I("k"), "a", "b"), on("INNER JOIN", alias("j", "x"), "a", "b"), on("INNER JOIN", kit.I("j"), "a", "a")}
	out = append(out,
		wordListOf("With of a select", withs, func(i int) []kit.Tok { return withToks[i] }, func(l []stmt.WithQuery, t [][]kit.Tok) kit.H {
			b := lk.Select("z").From("t").With(l[:1]...)
			return kit.H{S: b.With(l[1:]...), M: kit.Model{Kind: kit.Select, Exprs: kit.I("z"), From: kit.I("t"), With: t}}
		}),
		wordListOf("With of an update", withs, func(i int) []kit.Tok { return withToks[i] }, func(l []stmt.WithQuery, t [][]kit.Tok) kit.H {
			b := lk.Update("t").Set(lk.Pair("k", 1)).With(l...)
			return kit.H{U: b, M: kit.Model{Kind: kit.Update, Table: kit.I("t"), Assoc: assocK, With: t}}
		}),
		wordListOf("Join", joins, func(i int) []kit.Tok { return joinToks[i] }, func(l []stmt.Join, t [][]kit.Tok) kit.H {
			b := lk.Select("z").From("t")
			for _, j := range l {
				b = b.Join(j)
			}
			return kit.H{S: b, M: kit.Model{Kind: kit.Select, Exprs: kit.I("z"), From: kit.I("t"), Joins: t}}
		}))
	return out
}()

// c26Repeats: lists with equal items, or items which look alike.
func c26Repeats(x *engine.X) {
	p := wordLists[x.Pick(len(wordLists), "list")]
	n := 2 + x.Pick(tier(x, 2, 3), "items")
	w := make([]int, n)
	for i := range w {
		w[i] = x.Pick(p.letters, "item")
	}
	what := fmt.Sprintf("%s of %v", p.name, w)
	x.Op("%s", p.name)
	var h kit.H
	must(x, "repeats", what, func() { h = p.build(w) })
	verify(x, h, kit.FQuery, "repeats", what)
	x.State(what)
}

// c26Long: long lists of equal or alternating items.
func c26Long(x *engine.X) {
	p := wordLists[x.Pick(len(wordLists), "list")]
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 256, 257, 1000, 1025, 4097}
	n := sizes[x.Pick(len(sizes), "items")]
	step := x.Pick(4, "step")
	first := x.Pick(p.letters, "first")
	w := make([]int, n)
	for i := range w {
		w[i] = (first + i*step) % p.letters
		if step == 3 && i < n-1 {
			w[i] = first // the last one differs
		}
	}
	what := fmt.Sprintf("%s of %d items from %d by %d", p.name, n, first, step)
	x.Op("%s", p.name)
	var h kit.H
	must(x, "long", what, func() { h = p.build(w) })
	verify(x, h, kit.FQuery, "long", what)
	x.State(what)
}

// mixedPlaces take a list of names of which an item may be a list itself.
var mixedPlaces = []struct {
	name string
	kind int
	call func(h kit.H, l []interface{}) kit.H
	set  func(m *kit.Model, toks []kit.Tok)
}{
	{"Select", kit.Select, func(h kit.H, l []interface{}) kit.H { h.S = lk.Select(l...).From("t"); return h },
		func(m *kit.Model, toks []kit.Tok) { m.Exprs, m.From = toks, kit.I("t") }},
	{"Columns of a select", kit.Select, func(h kit.H, l []interface{}) kit.H { h.S = builder.NewSelect().Columns(l...).From("t"); return h },
		func(m *kit.Model, toks []kit.Tok) { m.Exprs, m.From = toks, kit.I("t") }},
	{"DistinctOn", kit.Select, func(h kit.H, l []interface{}) kit.H { h.S = h.S.DistinctOn(l...); return h },
		func(m *kit.Model, toks []kit.Tok) { m.DistinctOn = toks }},
	{"GroupBy", kit.Select, func(h kit.H, l []interface{}) kit.H { h.S = h.S.GroupBy(l...); return h },
		func(m *kit.Model, toks []kit.Tok) { m.GroupBy = toks }},
	{"Returning of an insert", kit.Insert, func(h kit.H, l []interface{}) kit.H { h.N = h.N.Returning(l...); return h },
		func(m *kit.Model, toks []kit.Tok) { m.Returning = toks }},
	{"Returning of an update", kit.Update, func(h kit.H, l []interface{}) kit.H { h.U = h.U.Returning(l...); return h },
		func(m *kit.Model, toks []kit.Tok) { m.Returning = toks }},
	{"Returning of a delete", kit.Delete, func(h kit.H, l []interface{}) kit.H { h.D = h.D.Returning(l...); return h },
		func(m *kit.Model, toks []kit.Tok) { m.Returning = toks }},
	{"Columns of an insert", kit.Insert, func(h kit.H, l []interface{}) kit.H { h.N = lk.Insert("t").Columns(l...).Values(1); return h },
		func(m *kit.Model, toks []kit.Tok) {
			m.Columns, m.Into, m.Values = toks, kit.I("t"), kit.Paren(kit.S(1))
		}},
	{"OnConflict", kit.Insert, func(h kit.H, l []interface{}) kit.H {
		h.N = h.N.OnConflict(append(l, lk.DoNothing())...)
		return h
	}, func(m *kit.Model, toks []kit.Tok) { m.Conflict = kit.Cat(kit.Paren(toks), kit.R("DO NOTHING")) }},
}

// c26Mixed: lists given among other items are refused or kept whole.
func c26Mixed(x *engine.X) {
	p := mixedPlaces[x.Pick(len(mixedPlaces), "place")]
	n := 2 + x.Pick(tier(x, 2, 3), "items")
	lists := 0
	var l []interface{}
	var toks [][]kit.Tok
	name := func() string {
		s := fmt.Sprintf("n%d", len(toks))
		toks = append(toks, kit.I(s))
		return s
	}
	for i := 0; i < n; i++ {
		switch x.Pick(8, "item") {
		case 0:
			l = append(l, name())
		case 1:
			l = append(l, lk.Column(name()))
		case 2:
			l, lists = append(l, []string{name()}), lists+1
		case 3:
			l, lists = append(l, []string{name(), name()}), lists+1
		case 4:
			l, lists = append(l, []stmt.Column{lk.Column(name()), lk.Column(name())}), lists+1
		case 5:
			l, lists = append(l, []stmt.SelectExpression{lk.Column(name())}), lists+1
		case 6:
			l, lists = append(l, []interface{}{name(), name()}), lists+1
		default:
			l, lists = append(l, []string{}), lists+1
		}
	}
	if lists == 0 {
		return
	}
	what := fmt.Sprintf("%s of %#v", p.name, l)
	x.Op("%s", p.name)
	var h kit.H
	refused, _ := x.Try(func() {
		h = p.call(kit.Start(p.kind), l)
		_ = h.B().String()
	})
	if !refused {
		h.M = kit.Start(p.kind).M
		p.set(&h.M, kit.List(toks...))
		verify(x, h, kit.FQuery, "mixed", what)
	}
	x.Checked()
	x.State(what)
}

func init() {
	register("C26", func() engine.Check {
		return engine.Check{ID: "C26", Scenarios: []engine.Scenario{
			{Name: "items", Fn: c26Items, Quick: 2, Thorough: 3,
				Bounds: "7 places x lists of 1-5 (thorough 8) select expressions, any 2 (thorough 3) of them in any of 24 forms (aliases, aggregates, distinct, raw, EXISTS...), or all in the same form"},
			{Name: "modifiers", Fn: c26Modifiers,
				Bounds: "aggregates, columns and tables x every sequence of 0-4 (thorough 6) modifiers among As (2 names, none), Distinct(true|false), Only, every intermediate item in the same statement"},
			{Name: "repeats", Fn: c26Repeats,
				Bounds: fmt.Sprintf("%d lists x every word of 2-3 (thorough 4) items over 5-11 ones that look alike or are equal", len(wordLists))},
			{Name: "long", Fn: c26Long, Bounds: fmt.Sprintf("%d lists x 33 lengths from 1 to 4097 of equal or alternating items", len(wordLists))},
			{Name: "tables", Fn: c26Tables, Quick: 3, Thorough: 4,
				Bounds: "8 places x lists of 1-5 (thorough 7) tables, any 3 (thorough 4) variations among 9 forms and grouping in FROM statements"},
			{Name: "aliases", Fn: c26Aliases, Bounds: fmt.Sprintf("%d names x %d aliases which look alike, at %d places, alone or among the name and the alias themselves", len(c09Confusing), len(c09Confusing), len(exprPlaces)+8)},
			{Name: "neighbours", Fn: c26Near, Bounds: "statements of the 4 kinds whose tables, joins, USING, columns, targets, assignments, returned items, orders and WITH take 2-3 names in 5-12 forms, every combination"},
			{Name: "joins", Fn: c26Joins, Quick: 3, Thorough: 4,
				Bounds: "1-4 (thorough 6) joins, any 3 (thorough 4) variations among 5 kinds, 8 forms of tables, 7 routes"},
			{Name: "orders", Fn: c26Orders, Quick: 3, Thorough: 4,
				Bounds: "1-4 (thorough 6) orders, any 3 (thorough 4) in any of 9 forms, cut into calls in every way"},
			{Name: "with", Fn: c26With, Quick: 3, Thorough: 4,
				Bounds: "select and update x 1-4 (thorough 6) queries, any 3 (thorough 4) in any of 6 forms, cut into calls in every way"},
			{Name: "columns", Fn: c26Columns, Quick: 3, Thorough: 4,
				Bounds: "GROUP BY, DISTINCT ON, insert columns x 1-5 (thorough 7) columns, any 3 (thorough 4) in any of 4 forms"},
			{Name: "frames", Fn: c26Frames, Quick: 2, Thorough: 3,
				Bounds: "13 prefixes x 13 suffixes x given first, last or as statements x selects with any 2 (thorough 3) variations"},
			{Name: "mixed lists", Fn: c26Mixed, Quick: 2, Thorough: 3,
				Bounds: "9 places x 2-3 (thorough 4) items, each a name, a column or one of 6 lists: refused or kept whole"},
			{Name: "together", Fn: c26Together, Quick: 3, Thorough: 4,
				Bounds: "selects with 2-3 items in every list, any 3 (thorough 4) variations"},
		}}
	})
}

// assocK is the assignment every UPDATE of this check carries.
var assocK = []kit.Assign{{Col: "k", Toks: kit.S(1)}}
