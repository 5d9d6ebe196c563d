package kit

import (
	"fmt"
	"strings"
	"time"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"
)

// Chooser gives the choices of an execution.
type Chooser interface {
	Choose(n int, label string) int
	Pick(n int, label string) int
}

// Gen builds statements and their models out of choices. Every variant other
// than the first costs one deviation, so that a budget of n covers all
// combinations of n variants anywhere in the statement.
type Gen struct {
	C Chooser
	// V supplies the values; nil for DefaultValue.
	V func(i int) interface{}
	// Depth of the nested conditions and subqueries.
	Depth int
	// NoComment leaves out comments.
	NoComment bool
	// Free makes the variants of the clauses of the statement itself cost
	// nothing: all their combinations are explored, in both orders of the calls.
	Free bool
	// Two, if positive, keeps Free to two variants of each clause: the first,
	// and one of the others that depends on Two.
	Two int
	// Alike gives the same name to everything that is not a column of one list
	// of targets, and descending values.
	Alike bool
	// NoAlike leaves the choice of Alike out.
	NoAlike bool
	// NameOf, if any, gives the i-th name of the conditions.
	NameOf func(i int) string

	n     int // values given
	names int
}

// DefaultValue gives distinct values of several types.
func DefaultValue(i int) interface{} {
	switch i % 7 {
	case 0:
		return i + 1000
	case 1:
		return fmt.Sprintf("v%d", i)
	case 2:
		return int64(i) + 1<<33
	case 3:
		return i%2 == 0
	case 4:
		return float64(i) + 0.5
	case 5:
		return []byte{byte(i), byte(i >> 8), 0xff}
	default:
		return time.Unix(int64(1600000000+i), 0).UTC()
	}
}

// Values is the number of values given so far.
func (g *Gen) Values() int { return g.n }

// Val gives the next value and its slot.
func (g *Gen) Val() (interface{}, []Tok) {
	var v interface{}
	switch {
	case g.V != nil:
		v = g.V(g.n)
	case g.Alike:
		v = DefaultValue(1000 - g.n)
	default:
		v = DefaultValue(g.n)
	}
	g.n++
	return v, S(v)
}

// Name gives a fresh name.
func (g *Gen) Name() string {
	g.names++
	if g.NameOf != nil {
		return g.NameOf(g.names)
	}
	if g.Alike {
		return "a"
	}
	return fmt.Sprintf("n%d", g.names)
}

// nm is the name for an element: always the same one if Alike.
func (g *Gen) nm(s string) string {
	if !g.Alike {
		return s
	}
	if strings.Contains(s, ".") {
		return "a.a"
	}
	return "a"
}

// raw is raw SQL, the name itself if Alike.
func (g *Gen) raw(s string) string {
	if g.Alike {
		return "a"
	}
	return s
}

// I is the identifier of an element.
func (g *Gen) I(s string) []Tok { return I(g.nm(s)) }

// NConds is the number of forms of a condition.
const NConds = 22

// Cond builds a condition.
func (g *Gen) Cond() (stmt.Expression, []Tok) {
	k := g.C.Choose(NConds, "condition")
	return g.CondForm(k)
}

// CondForm builds a condition of form k.
func (g *Gen) CondForm(k int) (stmt.Expression, []Tok) {
	if g.Depth <= 0 && k >= 15 {
		k -= 15
	}
	c := g.Name()
	id := lk.Condition(c)
	I := I(c)
	switch k {
	case 0:
		v, t := g.Val()
		return id.Equal(v), Binary(I, "=", t)
	case 1:
		a, ta := g.Val()
		b, tb := g.Val()
		d, td := g.Val()
		return id.In(a, b, d), Paren(I, R("IN"), Paren(List(ta, tb, td)))
	case 2:
		a, ta := g.Val()
		b, tb := g.Val()
		return id.Between(a, b), Paren(I, R("BETWEEN"), ta, R("AND"), tb)
	case 3:
		return id.Equal(nil), Binary(I, "=", R("NULL"))
	case 4:
		a, ta := g.Val()
		b, tb := g.Val()
		return id.NotBetween(a, b), Paren(I, R("NOT BETWEEN"), ta, R("AND"), tb)
	case 5:
		return id.IsNull(false), Binary(I, "IS NOT", R("NULL"))
	case 6:
		a, ta := g.Val()
		b, tb := g.Val()
		d, td := g.Val()
		return stmt.NewCall("F"+c, stmt.NewExpression(a), lk.Raw("k"), stmt.NewExpression(b)).Equal(d), Binary(Cat(R("F"+c), Paren(List(ta, R("k"), tb))), "=", td)
	case 7:
		a, ta := g.Val()
		b, tb := g.Val()
		return lk.Value(a).Overlap(b), Binary(ta, "&&", tb)
	case 8:
		return lk.Raw(g.raw("raw_" + c)), R(g.raw("raw_" + c))
	case 9:
		a, ta := g.Val()
		return id.NotIn([]interface{}{a, nil, a}), Paren(I, R("NOT IN"), Paren(List(ta, R("NULL"), ta)))
	case 10:
		a, ta := g.Val()
		if a == nil {
			ta = nil // a lone nil is the empty list
		}
		return id.In(a), Paren(I, R("IN"), Paren(ta))
	case 11:
		a, ta := g.Val()
		return id.IsDistinctFrom(a), Binary(I, "IS DISTINCT FROM", ta)
	case 12:
		a, ta := g.Val()
		return id.GreaterThan(stmt.NewCall("G"+c, stmt.NewExpression(a))), Binary(I, ">", Cat(R("G"+c), Paren(ta)))
	case 13:
		a, ta := g.Val()
		return id.ILike(a), Binary(I, "ILIKE", ta)
	case 14:
		a, ta := g.Val()
		b, tb := g.Val()
		return id.Contains(stmt.NewArrayExpression(a, b)), Binary(I, "@>", List(ta, tb))
	}
	g.Depth--
	defer func() { g.Depth++ }()
	switch k {
	case 15:
		l, tl := g.Cond()
		r, tr := g.Cond()
		return lk.And(l, r), Binary(tl, "AND", tr)
	case 16:
		l, tl := g.Cond()
		r, tr := g.Cond()
		return lk.Or(l, r), Binary(tl, "OR", tr)
	case 17:
		v, tv := g.Val()
		r, tr := g.Cond()
		return id.LessThan(v).And(r), Binary(Binary(I, "<", tv), "AND", tr)
	case 18:
		v, tv := g.Val()
		r, tr := g.Cond()
		if v == nil {
			tv = nil
		}
		return id.In(v).Or(r), Binary(Paren(I, R("IN"), Paren(tv)), "OR", tr)
	case 19:
		s, ts := g.Sub()
		return id.In(s), Paren(I, R("IN"), Paren(ts))
	case 20:
		s, ts := g.Sub()
		return id.Equal(s), Binary(I, "=", Paren(ts))
	default:
		s, ts := g.Sub()
		r, tr := g.Cond()
		return lk.And(lk.Condition(g.nm("x")).Equal(lk.Raw(g.nm("y"))), stmt.NewWrapper(lk.NotExists(s))).Or(r), Binary(Binary(Binary(g.I("x"), "=", R(g.nm("y"))), "AND", Paren(R("NOT EXISTS"), Paren(ts))), "OR", tr)
	}
}

// Sub builds a subquery, as a builder or as a statement.
func (g *Gen) Sub() (interface{}, []Tok) {
	defer g.bound()()
	g.Depth--
	defer func() { g.Depth++ }()
	nc := g.NoComment
	g.NoComment = true
	h := g.SelectStmt()
	g.NoComment = nc
	t, _ := h.M.Body()
	if g.C.Choose(2, "subquery as statement") == 1 {
		return h.S.Statement(), t
	}
	return h.S, t
}

func (g *Gen) opt(label string, n int) int {
	if g.Free && g.Two > 0 {
		return g.C.Pick(2, label) * (1 + g.Two%n)
	}
	if g.Free {
		return g.C.Pick(n+1, label)
	}
	return g.C.Choose(n+1, label)
}

// bound makes the variants cost again, in a subquery; it returns the undo.
func (g *Gen) bound() func() {
	f := g.Free
	g.Free = false
	return func() { g.Free = f }
}

// SelectStmt builds a select.
func (g *Gen) SelectStmt() H {
	var h H
	h.M.Kind = Select
	m := &h.M
	h.S = lk.Select()
	m.Exprs = R("*")
	switch g.opt("columns", 3) {
	case 1:
		h.S, m.Exprs = lk.Select(g.nm("a"), lk.Column(g.nm("b")).As(g.nm("c"))), List(g.I("a"), Cat(g.I("b"), R("AS"), g.I("c")))
	case 2:
		h.S, m.Exprs = lk.Select(lk.Count(g.nm("a")).Distinct(true).As(g.nm("n")), lk.Max(g.nm("b")), lk.Raw("1 + 1")), R("COUNT(DISTINCT a) AS "+g.nm("n")+", MAX("+g.nm("b")+"), 1 + 1")
	case 3:
		s, ts := g.subNow()
		h.S, m.Exprs = lk.Select(g.nm("a"), lk.Exists(s)), Cat(g.I("a"), P(","), R("EXISTS"), Paren(ts))
	}
	// The order of the values is the order of the text, whatever the order of
	// the calls: parts are built in textual order and given in another one.
	var calls []func()
	with := func(f func()) { calls = append(calls, f) }
	switch g.opt("prefix", 1) {
	case 1:
		with(func() { h.S = h.S.Prefix("EXPLAIN") })
		m.Prefix = R("EXPLAIN")
	}
	// A WITH comes before the columns in the text; its values are generated
	// after those of the columns, which is harmless as slots carry values.
	switch g.opt("with", 2) {
	case 1:
		s, ts := g.subNow()
		with(func() { h.S = h.S.With(lk.With(g.nm("w"), s)) })
		m.With = [][]Tok{Cat(R(g.nm("w")+" AS"), Paren(ts))}
	case 2:
		s, ts := g.subNow()
		u, tu := g.subNow()
		with(func() {
			h.S = h.S.With(lk.With(g.nm("w1"), s)).With(lk.With(g.nm("w2"), u), lk.With(g.nm("w3"), lk.Raw("SELECT 1")))
		})
		m.With = [][]Tok{Cat(R(g.nm("w1")+" AS"), Paren(ts)), Cat(R(g.nm("w2")+" AS"), Paren(tu)), R(g.nm("w3") + " AS (SELECT 1)")}
	}
	switch g.opt("distinct", 2) {
	case 1:
		with(func() { h.S = h.S.Distinct() })
		m.Distinct = true
	case 2:
		with(func() { h.S = h.S.DistinctOn(g.nm("d"), lk.Column(g.nm("e"))) })
		m.DistinctOn = List(g.I("d"), g.I("e"))
	}
	switch g.opt("from", 3) {
	case 0:
		with(func() { h.S = h.S.From(g.nm("t")) })
		m.From = g.I("t")
	case 1:
	case 2:
		with(func() {
			h.S = h.S.From(g.nm("s.t"), lk.Table(g.nm("u")).As(g.nm("v")), lk.Raw("generate_series(1, 2)"))
		})
		m.From = List(g.I("s.t"), Cat(g.I("u"), R("AS"), g.I("v")), R("generate_series(1, 2)"))
	case 3:
		with(func() { h.S = h.S.From(lk.Table(g.nm("t")).Only()) })
		m.From = Cat(R("ONLY"), g.I("t"))
	}
	switch g.opt("join", 3) {
	case 1:
		with(func() { h.S = h.S.Join(g.nm("j") + " ON " + g.nm("j.a") + " = " + g.nm("t.b")) })
		m.Joins = [][]Tok{Cat(R("INNER JOIN"), g.I("j"), R("ON"), g.I("j.a"), R("="), g.I("t.b"))}
	case 2:
		with(func() {
			h.S = h.S.Join(lk.Table(g.nm("j")).As(g.nm("k")), lk.On(g.nm("k.a"), g.nm("t.b")).And(lk.On(g.nm("k.c"), g.nm("t.d"))), lk.LeftJoin).Join(g.nm("l"), "ON "+g.nm("l.a")+" = "+g.nm("t.b"), lk.RightJoin)
		})
		m.Joins = [][]Tok{
			Cat(R("LEFT JOIN"), g.I("j"), R("AS"), g.I("k"), R("ON"), Paren(g.I("k.a"), R("="), g.I("t.b"), R("AND"), g.I("k.c"), R("="), g.I("t.d"))),
			Cat(R("RIGHT JOIN"), g.I("l"), R("ON"), g.I("l.a"), R("="), g.I("t.b"))}
	case 3:
		c, tc := g.Cond()
		with(func() { h.S = h.S.Join(stmt.NewInnerJoin(lk.Table(g.nm("j")), c)) })
		m.Joins = [][]Tok{Cat(R("INNER JOIN"), g.I("j"), R("ON"), tc)}
	}
	g.where(&h, with)
	switch g.opt("group by", 1) {
	case 1:
		with(func() { h.S = h.S.GroupBy(g.nm("g"), lk.Column(g.nm("h"))) })
		m.GroupBy = List(g.I("g"), g.I("h"))
	}
	switch g.opt("having", 1) {
	case 1:
		c, tc := g.Cond()
		with(func() { h.S = h.S.Having(c) })
		m.Having = tc
	}
	switch g.opt("order by", 1) {
	case 1:
		with(func() { h.S = h.S.OrderBy(lk.Order(g.nm("o")), lk.Order(g.nm("p"), lk.Desc)) })
		m.Orders = [][]Tok{R(g.nm("o") + " ASC"), R(g.nm("p") + " DESC")}
	}
	switch g.opt("limit", 2) {
	case 1:
		with(func() { h.S = h.S.Limit(10) })
		m.Limit = R("10")
	case 2:
		with(func() { h.S = h.S.Offset(20).Limit(uint8(3)) })
		m.Limit, m.Offset = R("3"), R("20")
	}
	switch g.opt("suffix", 1) {
	case 1:
		with(func() { h.S = h.S.Suffix("FOR UPDATE") })
		m.Suffix = R("FOR UPDATE")
	}
	g.comment(&h, with)
	g.run(calls)
	return h
}

// subNow builds a subquery even at depth 0 (a simple one there).
func (g *Gen) subNow() (interface{}, []Tok) {
	if g.Depth <= 0 {
		v, tv := g.Val()
		return lk.Select(g.nm("sid")).From(g.nm("sub")).Where(lk.Condition(g.nm("sv")).Equal(v)), Cat(R("SELECT"), g.I("sid"), R("FROM"), g.I("sub"), R("WHERE"), Binary(g.I("sv"), "=", tv))
	}
	return g.Sub()
}

func (g *Gen) run(calls []func()) {
	// Reversed calls are a deviation: the text must not depend on it.
	reversed := g.Alike
	if !g.Free || g.NoAlike {
		reversed = len(calls) > 1 && g.opt("calls reversed", 1) == 1
	}
	if reversed {
		for i := len(calls) - 1; i >= 0; i-- {
			calls[i]()
		}
		return
	}
	for _, f := range calls {
		f()
	}
}

func (g *Gen) where(h *H, with func(func())) {
	set := func(c stmt.Expression) {
		switch h.M.Kind {
		case Select:
			h.S = h.S.Where(c)
		case Update:
			h.U = h.U.Where(c)
		case Delete:
			h.D = h.D.Where(c)
		}
	}
	or := func(c stmt.Expression) {
		switch h.M.Kind {
		case Select:
			h.S = h.S.Or(c)
		case Update:
			h.U = h.U.Or(c)
		case Delete:
			h.D = h.D.Or(c)
		}
	}
	and := func(c stmt.Expression) {
		switch h.M.Kind {
		case Select:
			h.S = h.S.And(c)
		case Update:
			h.U = h.U.And(c)
		case Delete:
			h.D = h.D.And(c)
		}
	}
	switch g.opt("where", 3) {
	case 0:
		c, tc := g.Cond()
		with(func() { set(c) })
		h.M.Where = tc
	case 1:
	case 2:
		c, tc := g.Cond()
		d, td := g.Cond()
		e, te := g.Cond()
		with(func() { set(c); or(d); and(e) })
		h.M.Where = Binary(Binary(tc, "OR", td), "AND", te)
	case 3:
		c, tc := g.Cond()
		d, td := g.Cond()
		with(func() { set(c); set(d) })
		h.M.Where = Binary(tc, "AND", td)
	}
}

func (g *Gen) comment(h *H, with func(func())) {
	if g.NoComment {
		return
	}
	if g.opt("comment", 1) == 1 {
		with(func() {
			switch h.M.Kind {
			case Select:
				h.S = h.S.Comment("note: $1 :arg_1 'it''s'")
			case Insert:
				h.N = h.N.Comment("note: $1 :arg_1 'it''s'")
			case Update:
				h.U = h.U.Comment("note: $1 :arg_1 'it''s'")
			case Delete:
				h.D = h.D.Comment("note: $1 :arg_1 'it''s'")
			}
		})
		h.M.Comment = "note: $1 :arg_1 'it''s'"
	}
}

// returning items.
func (g *Gen) returning(h *H, with func(func())) {
	var items []interface{}
	switch g.opt("returning", 2) {
	case 0:
		return
	case 1:
		items = []interface{}{g.nm("r"), lk.Column(g.nm("q")).As(g.nm("z"))}
		h.M.Returning = List(g.I("r"), Cat(g.I("q"), R("AS"), g.I("z")))
	case 2:
		items = []interface{}{lk.Raw("now()"), lk.Sum(g.nm("x")).As(g.nm("y")), lk.Min(g.nm("k"))}
		h.M.Returning = R("now(), SUM(" + g.nm("x") + ") AS " + g.nm("y") + ", MIN(" + g.nm("k") + ")")
	}
	with(func() {
		switch h.M.Kind {
		case Insert:
			h.N = h.N.Returning(items...)
		case Update:
			h.U = h.U.Returning(items...)
		case Delete:
			h.D = h.D.Returning(items...)
		}
	})
}

// Cell builds a value to assign: a plain value, NULL, raw SQL or a subquery.
func (g *Gen) Cell() (interface{}, []Tok) {
	switch g.C.Choose(5, "assigned") {
	case 0:
		return g.Val()
	case 1:
		return nil, R("NULL")
	case 2:
		return lk.Raw(g.raw("now()")), R(g.raw("now()"))
	case 3:
		s, ts := g.subNow()
		return s, Paren(ts)
	default:
		v, tv := g.Val()
		return stmt.NewCall("H", stmt.NewExpression(v)), Cat(R("H"), Paren(tv))
	}
}

// InsertStmt builds an insert.
func (g *Gen) InsertStmt() H {
	var h H
	h.M.Kind = Insert
	m := &h.M
	var calls []func()
	with := func(f func()) { calls = append(calls, f) }
	switch g.opt("into", 1) {
	case 0:
		h.N, m.Into = lk.Insert(g.nm("t")), g.I("t")
	case 1:
		h.N, m.Into = lk.Insert(lk.Table(g.nm("s.t")).As(g.nm("u"))), Cat(g.I("s.t"), R("AS"), g.I("u"))
	}
	switch g.opt("values", 5) {
	case 0:
		a, ta := g.Cell()
		b, tb := g.Cell()
		with(func() { h.N = h.N.Columns("a", "b") })
		with(func() { h.N = h.N.Values(a, b) })
		m.Columns, m.Values = List(I("a"), I("b")), Paren(List(ta, tb))
	case 1:
		a, ta := g.Cell()
		b, tb := g.Cell()
		with(func() { h.N = h.N.Set(lk.Pair("b", b), lk.Map{"a": a}) })
		m.Columns, m.Values = List(I("a"), I("b")), Paren(List(ta, tb))
	case 2:
		var rows [][]interface{}
		var trows [][]Tok
		for i := 0; i < 2; i++ {
			a, ta := g.Cell()
			b, tb := g.Cell()
			rows, trows = append(rows, []interface{}{a, b}), append(trows, Paren(List(ta, tb)))
		}
		with(func() { h.N = h.N.Values(rows) })
		m.Values = List(trows...)
	case 3:
		with(func() { h.N = h.N.Columns(lk.Column(g.nm("a"))) })
		m.Columns = g.I("a")
	case 4:
		a, ta := g.Cell()
		with(func() { h.N = h.N.Values(a) })
		m.Values = Paren(ta)
	case 5:
		if g.V != nil {
			a, ta := g.Val()
			b, tb := g.Val()
			with(func() { h.N = h.N.Values([][]interface{}{{a}, {b}}) })
			m.Values = List(Paren(ta), Paren(tb))
			break
		}
		with(func() { h.N = h.N.Values([][]int{{1, 2}, {3, 4}}) })
		m.Values = List(Paren(List(S(1), S(2))), Paren(List(S(3), S(4))))
	}
	switch g.opt("on conflict", 3) {
	case 1:
		with(func() { h.N = h.N.OnConflict(lk.DoNothing()) })
		m.Conflict = R("DO NOTHING")
	case 2:
		with(func() { h.N = h.N.OnConflict("a", lk.Column("b"), lk.DoNothing()) })
		m.Conflict = Cat(Paren(List(I("a"), I("b"))), R("DO NOTHING"))
	case 3:
		a, ta := g.Cell()
		b, tb := g.Cell()
		x, y := "x", "y"
		if g.Alike {
			x, y = "a", "b"
		}
		with(func() { h.N = h.N.OnConflict("a", lk.DoUpdate(lk.Pair(y, b), lk.Pair(x, a))) })
		m.Conflict = Cat(Paren(I("a")), R("DO UPDATE SET"), I(x), R("="), ta, P(","), I(y), R("="), tb)
	}
	g.returning(&h, with)
	g.comment(&h, with)
	g.run(calls)
	return h
}

// UpdateStmt builds an update.
func (g *Gen) UpdateStmt() H {
	var h H
	h.M.Kind = Update
	m := &h.M
	var calls []func()
	with := func(f func()) { calls = append(calls, f) }
	switch g.opt("table", 2) {
	case 0:
		h.U, m.Table = lk.Update(g.nm("t")), g.I("t")
	case 1:
		h.U, m.Table = lk.Update(lk.Table(g.nm("s.t")).As(g.nm("u"))), Cat(g.I("s.t"), R("AS"), g.I("u"))
	case 2:
		h.U, m.Table, m.Only = lk.Update(g.nm("t")).Only(), g.I("t"), true
	}
	switch g.opt("with", 1) {
	case 1:
		s, ts := g.subNow()
		with(func() { h.U = h.U.With(lk.With(g.nm("w"), s)) })
		m.With = [][]Tok{Cat(R(g.nm("w")+" AS"), Paren(ts))}
	}
	switch g.opt("set", 4) {
	case 0:
		a, ta := g.Cell()
		b, tb := g.Cell()
		with(func() { h.U = h.U.Set(lk.Map{"b": b, "a": a}) })
		m.Assoc = []Assign{{"a", ta}, {"b", tb}}
	case 1:
		a, ta := g.Cell()
		b, tb := g.Cell()
		c, tc := g.Cell()
		with(func() { h.U = h.U.Set(lk.Pair("c", a), lk.Pair("a", b)).Set(map[string]interface{}{"c": c}) })
		_ = ta
		m.Assoc = []Assign{{"a", tb}, {"c", tc}}
	case 2:
		a, ta := g.Cell()
		b, tb := g.Cell()
		with(func() { h.U = h.U.Set("x", "a").Using(a, b) })
		m.SetCols, m.SetExprs = []string{"x", "a"}, [][]Tok{ta, tb}
	case 3:
		s, ts := g.subNow()
		with(func() { h.U = h.U.Set("x", lk.Column("a")).Using(s) })
		m.SetCols, m.SetExprs = []string{"x", "a"}, [][]Tok{ts}
	case 4:
		a, ta := g.Cell()
		with(func() { h.U = h.U.Set(lk.Pair(lk.Column(g.nm("k")), a)) })
		m.Assoc = []Assign{{g.nm("k"), ta}}
	}
	switch g.opt("from", 1) {
	case 1:
		with(func() { h.U = h.U.From(g.nm("f")) })
		m.From = g.I("f")
	}
	g.where(&h, with)
	g.returning(&h, with)
	g.comment(&h, with)
	g.run(calls)
	return h
}

// DeleteStmt builds a delete.
func (g *Gen) DeleteStmt() H {
	var h H
	h.M.Kind = Delete
	m := &h.M
	var calls []func()
	with := func(f func()) { calls = append(calls, f) }
	switch g.opt("from", 2) {
	case 0:
		h.D, m.From = lk.Delete(g.nm("t")), g.I("t")
	case 1:
		h.D, m.From = lk.Delete(lk.Table(g.nm("t")).As(g.nm("u"))), Cat(g.I("t"), R("AS"), g.I("u"))
	case 2:
		h.D, m.From = lk.Delete(lk.Table(g.nm("t")).Only()), Cat(R("ONLY"), g.I("t"))
	}
	switch g.opt("using", 1) {
	case 1:
		with(func() { h.D = h.D.Using(g.nm("x"), lk.Table(g.nm("y")).As(g.nm("z"))) })
		m.Using = List(g.I("x"), Cat(g.I("y"), R("AS"), g.I("z")))
	}
	g.where(&h, with)
	g.returning(&h, with)
	g.comment(&h, with)
	g.run(calls)
	return h
}

// Stmt builds a statement of a kind.
func (g *Gen) Stmt(kind int) H {
	if !g.NoAlike {
		if g.Free {
			// Goes with the order of the calls, see run.
			g.Alike = g.C.Pick(2, "names alike, calls reversed") == 1
		} else {
			g.Alike = g.C.Choose(2, "names alike") == 1
		}
	}
	switch kind {
	case Select:
		return g.SelectStmt()
	case Insert:
		return g.InsertStmt()
	case Update:
		return g.UpdateStmt()
	default:
		return g.DeleteStmt()
	}
}

// Recorder records the choices of a construction, to build its twin.
type Recorder struct {
	C   Chooser
	rec []int
	pos int
}

func (r *Recorder) take(f func() int) int {
	if r.pos < len(r.rec) {
		r.pos++
		return r.rec[r.pos-1]
	}
	c := f()
	r.rec = append(r.rec, c)
	r.pos++
	return c
}

// Choose implements Chooser.
func (r *Recorder) Choose(n int, label string) int {
	return r.take(func() int { return r.C.Choose(n, label) })
}

// Pick implements Chooser.
func (r *Recorder) Pick(n int, label string) int {
	return r.take(func() int { return r.C.Pick(n, label) })
}

// Rewind starts over.
func (r *Recorder) Rewind() { r.pos = 0 }
