package checks

import (
	"fmt"
	"reflect"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
)

// same compares two builders that are written differently: same text, same
// arguments, in the three forms.
func same(x *engine.X, key, what string, got, want builder.Builder) {
	x.Checked()
	if p, v := x.Try(func() {
		q, a := got.Query()
		r, b := want.Query()
		if q != r {
			x.Fail(key, "%s:\n  %s\nunlike the usual spelling:\n  %s", what, q, r)
		}
		if !reflect.DeepEqual(a, b) {
			x.Fail(key, "%s: arguments %#v unlike the usual spelling: %#v", what, a, b)
		}
		nq, na := got.NamedQuery()
		nr, nb := want.NamedQuery()
		if nq != nr || !reflect.DeepEqual(na, nb) {
			x.Fail(key, "%s: NamedQuery:\n  %s %v\nunlike the usual spelling:\n  %s %v", what, nq, na, nr, nb)
		}
		if s, t := got.String(), want.String(); s != t {
			x.Fail(key, "%s: String:\n  %s\nunlike the usual spelling:\n  %s", what, s, t)
		}
	}); p {
		x.Fail(key, "%s was refused: %v", what, v)
	}
}

// columnPlaces are the lists of columns of the API. single: one argument is
// one column. exprs: a list of select expressions is accepted too.
var columnPlaces = []struct {
	name   string
	single bool
	exprs  bool
	build  func(args []interface{}) kit.H
	model  func(h *kit.H, t []kit.Tok)
}{
	{"Select", false, true, func(a []interface{}) kit.H { return kit.H{S: lk.Select(a...).From("t")} },
		func(h *kit.H, t []kit.Tok) { h.M.Kind, h.M.Exprs, h.M.From = kit.Select, t, kit.I("t") }},
	{"Columns", false, true, func(a []interface{}) kit.H { return kit.H{S: builder.NewSelect().From("t").Columns(a...)} },
		func(h *kit.H, t []kit.Tok) { h.M.Kind, h.M.Exprs, h.M.From = kit.Select, t, kit.I("t") }},
	{"DistinctOn", false, false, func(a []interface{}) kit.H { return kit.H{S: lk.Select().DistinctOn(a...)} },
		func(h *kit.H, t []kit.Tok) { h.M.Kind, h.M.Exprs, h.M.DistinctOn = kit.Select, kit.R("*"), t }},
	{"GroupBy", false, false, func(a []interface{}) kit.H { return kit.H{S: lk.Select().GroupBy(a...)} },
		func(h *kit.H, t []kit.Tok) { h.M.Kind, h.M.Exprs, h.M.GroupBy = kit.Select, kit.R("*"), t }},
	{"Insert.Columns", false, false, func(a []interface{}) kit.H { return kit.H{N: lk.Insert("t").Columns(a...)} },
		func(h *kit.H, t []kit.Tok) { h.M.Kind, h.M.Into, h.M.Columns = kit.Insert, kit.I("t"), t }},
	{"Insert.Returning", false, true, func(a []interface{}) kit.H { return kit.H{N: lk.Insert("t").Returning(a...)} },
		func(h *kit.H, t []kit.Tok) { h.M.Kind, h.M.Into, h.M.Returning = kit.Insert, kit.I("t"), t }},
	{"Update.Returning", false, true, func(a []interface{}) kit.H {
		return kit.H{U: lk.Update("t").Set(lk.Pair("k", lk.Raw("1"))).Returning(a...)}
	}, func(h *kit.H, t []kit.Tok) {
		h.M.Kind, h.M.Table, h.M.Assoc, h.M.Returning = kit.Update, kit.I("t"), []kit.Assign{{Col: "k", Toks: kit.R("1")}}, t
	}},
	{"Delete.Returning", false, true, func(a []interface{}) kit.H { return kit.H{D: lk.Delete("t").Returning(a...)} },
		func(h *kit.H, t []kit.Tok) { h.M.Kind, h.M.From, h.M.Returning = kit.Delete, kit.I("t"), t }},
	{"Update.Set", false, false, func(a []interface{}) kit.H { return kit.H{U: lk.Update("t").Set(a...).Using(lk.Raw("DEFAULT"))} }, nil},
	{"OnConflict", true, false, func(a []interface{}) kit.H {
		return kit.H{N: lk.Insert("t").Values(1).OnConflict(append(append([]interface{}(nil), a...), lk.DoNothing())...)}
	}, func(h *kit.H, t []kit.Tok) {
		h.M.Kind, h.M.Into, h.M.Values, h.M.Conflict = kit.Insert, kit.I("t"), kit.Paren(kit.S(1)), kit.Cat(kit.Paren(t), kit.R("DO NOTHING"))
	}},
}

// separators between the names of a text that lists columns.
var separators = []string{", ", ",", " ,", " , ", ",\t", ",\n  "}

// c18Columns: a list of columns in every spelling.
func c18Columns(x *engine.X) {
	p := columnPlaces[x.Pick(len(columnPlaces), "place")]
	n := 1 + x.Pick(tier(x, 4, 4), "columns")
	base := []string{"a", "b.c", "d", "a"}[:n]
	var args []interface{}
	what := ""
	whole := x.Pick(4, "spelling")
	switch whole {
	case 0: // one argument per group of columns
		for i := 0; i < n; {
			m := 1
			if !p.single {
				m = 1 + x.Pick(n-i, "columns in one text")
			}
			if m == 1 && x.PickBool("as a column") {
				args = append(args, lk.Column(base[i]))
			} else {
				sep := ", "
				if m > 1 {
					sep = separators[x.Pick(len(separators), "separator")]
				}
				text := strings.Join(base[i:i+m], sep)
				switch x.Pick(3, "blanks around") {
				case 1:
					text = " " + text + "\n"
				case 2:
					text = "\t" + text
				}
				args = append(args, text)
			}
			i += m
		}
	case 1:
		if p.single || p.name == "Update.Set" {
			x.Skip()
		}
		args = []interface{}{append([]string(nil), base...)}
	case 2:
		if p.single || p.name == "Update.Set" {
			x.Skip()
		}
		var l []stmt.Column
		for _, b := range base {
			l = append(l, lk.Column(b))
		}
		args = []interface{}{l}
	case 3:
		if !p.exprs {
			x.Skip()
		}
		var l []stmt.SelectExpression
		for _, b := range base {
			l = append(l, lk.Column(b))
		}
		args = []interface{}{l}
	}
	for _, a := range args {
		what += fmt.Sprintf("%#v ", a)
	}
	what = p.name + " of " + what
	x.Op("%s", what)
	var h kit.H
	must(x, "columns", what, func() { h = p.build(args) })
	var items [][]kit.Tok
	for _, b := range base {
		items = append(items, kit.I(b))
	}
	if p.model != nil {
		p.model(&h, kit.List(items...))
	} else {
		h.M.Kind, h.M.Table, h.M.SetCols, h.M.SetExprs = kit.Update, kit.I("t"), base, [][]kit.Tok{kit.R("DEFAULT")}
	}
	verify(x, h, kit.FAll, "columns", what)
	var usual []interface{}
	for _, b := range base {
		usual = append(usual, b)
	}
	g := p.build(usual)
	g.M.Kind = h.M.Kind
	same(x, "columns", what, h.B(), g.B())
	x.State(what)
}

// spelt is one way of writing a part of a statement.
type spelt struct {
	name  string
	apply func(h *kit.H)
}

func selSp(name string, f func(b lkSelect) lkSelect) spelt {
	return spelt{name, func(h *kit.H) { h.S = f(h.S) }}
}

func insSp(name string, f func(b lkInsert) lkInsert) spelt {
	return spelt{name, func(h *kit.H) { h.N = f(h.N) }}
}

func updSp(name string, f func(b lkUpdate) lkUpdate) spelt {
	return spelt{name, func(h *kit.H) { h.U = f(h.U) }}
}

func delSp(name string, f func(b lkDelete) lkDelete) spelt {
	return spelt{name, func(h *kit.H) { h.D = f(h.D) }}
}

// c18Conditions groups the spellings of conditions: the first of each group
// is the usual one.
func c18Conditions() [][]struct {
	name string
	e    stmt.Expression
} {
	type sp = struct {
		name string
		e    stmt.Expression
	}
	id := lk.Condition("c")
	sub := lk.Select("i").From("u").Where(lk.Condition("p").Equal("sv"))
	a, b, c := lk.Condition("a").Equal(1), lk.Condition("b").In(2, 3), lk.Condition("d").Between(4, 5)
	inf := func(l stmt.Expression, op types.LogicalOperator, r stmt.Expression) stmt.Expression {
		return stmt.NewInfixExpression(l, stmt.NewLogicalOperator(op), r)
	}
	cmp := func(op types.ComparisonOperator, v interface{}) stmt.Expression {
		return stmt.NewInfixExpression(id, stmt.NewComparisonOperator(op), stmt.NewExpression(v))
	}
	and := func(l, r stmt.Expression) stmt.Expression {
		return stmt.NewInfixExpression(l, stmt.NewAndOperator(), r)
	}
	or := func(l, r stmt.Expression) stmt.Expression {
		return stmt.NewInfixExpression(l, stmt.NewOrOperator(), r)
	}
	groups := [][]sp{
		{{"And(a, b)", lk.And(a, b)}, {"a.And(b)", a.And(b)}, {"NewInfixExpression", inf(a, types.And, b)}, {"NewAndOperator", and(a, b)}},
		{{"Or(a, b)", lk.Or(a, b)}, {"a.Or(b)", a.Or(b)}, {"NewInfixExpression", inf(a, types.Or, b)}, {"NewOrOperator", or(a, b)}},
		{{"And(in, a)", lk.And(b, a)}, {"in.And(a)", b.And(a)}, {"NewAndOperator", and(b, a)}},
		{{"Or(in, a)", lk.Or(b, a)}, {"in.Or(a)", b.Or(a)}, {"NewOrOperator", or(b, a)}},
		{{"And(between, a)", lk.And(c, a)}, {"NewAndOperator", and(c, a)}},
		{{"Or(between, a)", lk.Or(c, a)}, {"NewOrOperator", or(c, a)}},
		{{"Or(And(a, b), c)", lk.Or(lk.And(a, b), c)}, {"a.And(b).Or(c)", a.And(b).Or(c)}, {"And(a, b).Or(c)", lk.And(a, b).Or(c)}, {"Or(a.And(b), c)", lk.Or(a.And(b), c)}},
		{{"And(Or(a, b), c)", lk.And(lk.Or(a, b), c)}, {"a.Or(b).And(c)", a.Or(b).And(c)}, {"Or(a, b).And(c)", lk.Or(a, b).And(c)}},
		{{"Or(a, And(b, c))", lk.Or(a, lk.And(b, c))}, {"a.Or(b.And(c))", a.Or(b.And(c))}},
		{{"And(a, Or(b, c))", lk.And(a, lk.Or(b, c))}, {"a.And(b.Or(c))", a.And(b.Or(c))}},
		{{"IsNull(true)", id.IsNull(true)}, {"Is(nil)", id.Is(nil)}, {"Is(Value(nil))", id.Is(lk.Value(nil))}, {"Is(Raw(NULL))", id.Is(lk.Raw("NULL"))}, {"operator", cmp(types.Is, nil)}},
		{{"IsNull(false)", id.IsNull(false)}, {"IsNot(nil)", id.IsNot(nil)}, {"IsNot(Value(nil))", id.IsNot(lk.Value(nil))}, {"operator", cmp(types.IsNot, nil)}},
		{{"In(1, 2)", id.In(1, 2)}, {"In([]int)", id.In([]int{1, 2})}, {"In([]interface{})", id.In([]interface{}{1, 2})},
			{"In([]Expression)", id.In([]stmt.Expression{lk.Value(1), stmt.NewExpression(2)})}, {"In(values)", id.In(lk.Value(1), lk.Value(2))},
			{"NewIn", stmt.NewIn(id, stmt.NewArrayExpression(1, 2))}, {"In(array)", id.In(stmt.NewArrayExpression(1, 2))},
			{"NewIn of a list", stmt.NewIn(id, stmt.NewArrayExpression([]int{1, 2}))}},
		{{"NotIn(s)", id.NotIn("x", "y", "z")}, {"NotIn([]string)", id.NotIn([]string{"x", "y", "z"})}, {"NotIn([]interface{})", id.NotIn([]interface{}{"x", "y", "z"})},
			{"NewNotIn", stmt.NewNotIn(id, stmt.NewArrayExpression("x", "y", "z"))}},
		{{"In(1 string)", id.In("x")}, {"In([]string)", id.In([]string{"x"})}, {"In([]interface{})", id.In([]interface{}{"x"})}},
		{{"In(sub)", id.In(sub)}, {"In(&sub)", id.In(&sub)}, {"In(statement)", id.In(sub.Statement())}, {"In(Wrapped)", stmt.NewIn(id, stmt.NewExpression(sub))}},
		{{"Equal(sub)", id.Equal(sub)}, {"Equal(&sub)", id.Equal(&sub)}, {"Equal(statement)", id.Equal(sub.Statement())}, {"NewWrapper", id.Equal(stmt.NewWrapper(stmt.NewExpression(sub)))}},
		{{"Exists(sub)", lk.Exists(sub)}, {"Exists(statement)", lk.Exists(sub.Statement())}, {"Exists(&sub)", lk.Exists(&sub)}},
		{{"NotExists(sub)", lk.NotExists(sub)}, {"NotExists(statement)", lk.NotExists(sub.Statement())}, {"NotExists(&sub)", lk.NotExists(&sub)}},
		{{"Between(1, 2)", id.Between(1, 2)}, {"values", id.Between(lk.Value(1), stmt.NewExpression(2))}, {"NewBetween", stmt.NewBetween(id, lk.Value(1), lk.Value(2))}},
		{{"NotBetween(1, 2)", id.NotBetween(1, 2)}, {"NewNotBetween", stmt.NewNotBetween(id, lk.Value(1), lk.Value(2))}},
		{{"Equal(1)", id.Equal(1)}, {"Equal(Value)", id.Equal(lk.Value(1))}, {"Equal(NewExpression)", id.Equal(stmt.NewExpression(1))}, {"encoder", id.Equal(intEnc{1}.plain())}, {"operator", cmp(types.Equal, 1)}},
		{{"Equal(s)", id.Equal("x")}, {"Equal(stringer)", id.Equal(strEnc{"x"})}, {"operator", cmp(types.Equal, "x")}},
		{{"Call", stmt.NewCall("F", lk.Value(1), lk.Value("s")).Equal(2)}, {"Call...", stmt.NewCall("F", []stmt.Expression{lk.Value(1), lk.Value("s")}...).Equal(2)},
			{"Call of expressions", stmt.NewCall("F", stmt.NewExpression(1), stmt.NewExpression("s")).Equal(lk.Value(2))}},
		{{"raw identifier", lk.Condition(lk.Raw("f(x)")).Equal(1)}, {"raw operand", stmt.NewInfixExpression(lk.Raw("f(x)"), stmt.NewComparisonOperator(types.Equal), lk.Value(1))},
			{"NewIdentifier", stmt.NewIdentifier(lk.Raw("f(x)")).Equal(1)}},
	}
	return groups
}

// plain is the number an encoder stands for.
func (e intEnc) plain() int { return int(e.n) }

// c18Where: every spelling of a condition at every place of a condition.
func c18Where(x *engine.X) {
	groups := c18Conditions()
	g := groups[x.Pick(len(groups), "condition")]
	k := x.Pick(len(g), "spelling")
	places := []struct {
		name  string
		build func(e stmt.Expression) builder.Builder
	}{
		{"Where", func(e stmt.Expression) builder.Builder { return lk.Select("x").From("t").Where(e) }},
		{"update Where", func(e stmt.Expression) builder.Builder { return lk.Update("t").Set(lk.Pair("k", 1)).Where(e) }},
		{"delete Where", func(e stmt.Expression) builder.Builder { return lk.Delete("t").Where(e) }},
		{"Having", func(e stmt.Expression) builder.Builder { return lk.Select("x").From("t").Having(e) }},
		{"Join", func(e stmt.Expression) builder.Builder {
			return lk.Select("x").From("t").Join(stmt.NewLeftJoin(lk.Table("j"), e))
		}},
		{"And", func(e stmt.Expression) builder.Builder {
			return lk.Select("x").From("t").Where(lk.Condition("w").Equal(0)).And(e)
		}},
		{"Or", func(e stmt.Expression) builder.Builder {
			return lk.Delete("t").Where(lk.Condition("w").Equal(0)).Or(e).And(lk.Condition("w").Equal(9))
		}},
		{"nested", func(e stmt.Expression) builder.Builder {
			return lk.Select("x").From("t").Where(lk.Or(lk.Condition("w").Equal(0), lk.And(e, lk.Condition("w").Equal(9))))
		}},
		{"subquery", func(e stmt.Expression) builder.Builder {
			return lk.Select("x").From("t").Where(lk.Condition("w").Equal(lk.Select("y").Where(e)))
		}},
	}
	p := places[x.Pick(len(places), "place")]
	what := fmt.Sprintf("%s spelt %s in %s", g[0].name, g[k].name, p.name)
	x.Op("%s", what)
	var got, want builder.Builder
	must(x, "conditions", what, func() { got = p.build(g[k].e) })
	must(x, "conditions", what, func() { want = p.build(g[0].e) })
	same(x, "conditions", what, got, want)
	x.State(what)
}

// c18Chains: a chain of conditions as builder calls or as one condition.
func c18Chains(x *engine.X) {
	kind := x.Pick(3, "kind")
	n := 2 + x.Pick(tier(x, 2, 4), "conditions")
	leaf := func(i int) stmt.Expression {
		switch (i + kind%2) % 3 {
		case 0:
			return lk.Condition(fmt.Sprint("c", i)).Equal(i)
		case 1:
			return lk.Condition(fmt.Sprint("c", i)).In(i, "v")
		default:
			return lk.Condition(fmt.Sprint("c", i)).NotBetween(i, 9)
		}
	}
	ops := make([]bool, n) // or
	for i := 1; i < n; i++ {
		ops[i] = x.PickBool("or")
	}
	// The chain is cut: what is before is one condition, what follows are calls.
	cut := 1 + x.Pick(n, "first calls")
	join := x.Pick(3, "how")
	fold := func(to int) stmt.Expression {
		e := leaf(0)
		for i := 1; i < to; i++ {
			type combined interface {
				And(stmt.Expression) stmt.InfixExpression
				Or(stmt.Expression) stmt.InfixExpression
			}
			switch {
			case join == 0 && ops[i]:
				e = lk.Or(e, leaf(i))
			case join == 0:
				e = lk.And(e, leaf(i))
			case ops[i]:
				e = e.(combined).Or(leaf(i))
			default:
				e = e.(combined).And(leaf(i))
			}
		}
		return e
	}
	build := func(cut int, repeated bool) builder.Builder {
		var h kit.H
		h.M.Kind = []int{kit.Select, kit.Update, kit.Delete}[kind]
		h.S, h.U, h.D = lk.Select("x"), lk.Update("t").Set(lk.Pair("k", 0)), lk.Delete("t")
		do := func(or, first bool, e stmt.Expression) {
			switch {
			case or:
				h.S, h.U, h.D = ifKind(h, func() lkSelect { return h.S.Or(e) }, func() lkUpdate { return h.U.Or(e) }, func() lkDelete { return h.D.Or(e) })
			case first || repeated:
				h.S, h.U, h.D = ifKind(h, func() lkSelect { return h.S.Where(e) }, func() lkUpdate { return h.U.Where(e) }, func() lkDelete { return h.D.Where(e) })
			default:
				h.S, h.U, h.D = ifKind(h, func() lkSelect { return h.S.And(e) }, func() lkUpdate { return h.U.And(e) }, func() lkDelete { return h.D.And(e) })
			}
		}
		do(false, true, fold(cut))
		for i := cut; i < n; i++ {
			do(ops[i], false, leaf(i))
		}
		return h.B()
	}
	what := fmt.Sprintf("%v cut at %d, way %d", ops, cut, join)
	x.Op("%s", what)
	var got, want builder.Builder
	must(x, "chains", what, func() { got = build(cut, join == 2) })
	must(x, "chains", what, func() { want = build(1, false) })
	same(x, "chains", what, got, want)
	x.State(what, fmt.Sprint(kind))
}

func ifKind(h kit.H, s func() lkSelect, u func() lkUpdate, d func() lkDelete) (lkSelect, lkUpdate, lkDelete) {
	switch h.M.Kind {
	case kit.Select:
		return s(), h.U, h.D
	case kit.Update:
		return h.S, u(), h.D
	default:
		return h.S, h.U, d()
	}
}

// numbers are spellings of 7.
var sevens = []interface{}{7, int8(7), int16(7), int32(7), int64(7), uint(7), uint8(7), uint16(7), uint32(7), uint64(7), "7", "+7", "007"}

// c18Parts lists the parts of the statements with their spellings, the usual
// one first.
func c18Parts(kind int) (start []spelt, parts [][]spelt) {
	var numbers = func(limit bool) []spelt {
		var out []spelt
		for _, n := range sevens {
			n := n
			out = append(out, selSp(fmt.Sprintf("%T %v", n, n), func(b lkSelect) lkSelect {
				if limit {
					return b.Limit(n)
				}
				return b.Offset(n)
			}))
		}
		if limit {
			return append(out, selSp("lk.Limit", func(b lkSelect) lkSelect { return b.Limit(lk.Limit(7)) }), selSp("stmt.NewLimit", func(b lkSelect) lkSelect { return b.Limit(stmt.NewLimit(7)) }))
		}
		return append(out, selSp("lk.Offset", func(b lkSelect) lkSelect { return b.Offset(lk.Offset(7)) }), selSp("stmt.NewOffset", func(b lkSelect) lkSelect { return b.Offset(stmt.NewOffset(7)) }))
	}
	sub := lk.Select("i").From("u").Where(lk.Condition("p").Equal("sv"))
	ta, tb := lk.Table("a"), lk.Table("b").As("bb")
	on := lk.On("j.a", "a.b")
	on2 := lk.On("j.c", "a.d")
	set := func(f func(b lkUpdate) lkUpdate, name string) spelt { return updSp(name, f) }
	retS := []interface{}{"r", "s"}
	switch kind {
	case kit.Select:
		start = []spelt{
			selSp("Select(x, y)", func(lkSelect) lkSelect { return lk.Select("x", "y") }),
			selSp("Select(x,y)", func(lkSelect) lkSelect { return lk.Select("x,y") }),
			selSp("NewSelect", func(lkSelect) lkSelect { return builder.NewSelect().Columns(lk.Column("x"), "y") }),
			selSp("last Columns", func(lkSelect) lkSelect { return lk.Select("z").Columns([]string{"x", "y"}) }),
			selSp("zero", func(lkSelect) lkSelect {
				return builder.Select{}.Columns([]stmt.Column{lk.Column("x"), lk.Column("y")})
			}),
		}
		parts = [][]spelt{
			{
				selSp("With(1).With(1)", func(b lkSelect) lkSelect { return b.With(lk.With("w", sub)).With(lk.With("v", lk.Raw("SELECT 1"))) }),
				selSp("With(2)", func(b lkSelect) lkSelect { return b.With(lk.With("w", sub), lk.With("v", lk.Raw("SELECT 1"))) }),
				selSp("With(slice)", func(b lkSelect) lkSelect {
					return b.With([]stmt.WithQuery{lk.With("w", sub), lk.With("v", lk.Raw("SELECT 1"))}...)
				}),
				selSp("statement", func(b lkSelect) lkSelect {
					return b.With(lk.With("w", sub.Statement()), stmt.NewWithQuery("v", stmt.NewRaw("SELECT 1")))
				}),
				selSp("none", func(b lkSelect) lkSelect {
					return b.With().With(lk.With("w", &sub)).With().With(lk.With("v", lk.Raw("SELECT 1")))
				}),
			},
			{
				selSp("Distinct", func(b lkSelect) lkSelect { return b.Distinct() }),
				selSp("twice", func(b lkSelect) lkSelect { return b.Distinct().Distinct() }),
			},
			{
				selSp("From(a, b)", func(b lkSelect) lkSelect { return b.From(ta, tb) }),
				selSp("names", func(b lkSelect) lkSelect { return b.From("a", lk.Table("b").As("bb")) }),
				selSp("From", func(b lkSelect) lkSelect { return b.From(stmt.NewFrom([]stmt.Statement{ta, tb})) }),
				selSp("From, table", func(b lkSelect) lkSelect { return b.From(stmt.NewFrom([]stmt.Statement{ta}), tb) }),
				selSp("alias", func(b lkSelect) lkSelect { return b.From(stmt.NewTable("a"), stmt.NewTableAlias("b", "bb")) }),
				selSp("ToFrom", func(b lkSelect) lkSelect { return b.From(builder.ToFrom("a", tb)) }),
			},
			{
				selSp("text", func(b lkSelect) lkSelect { return b.Join("INNER JOIN j ON j.a = a.b") }),
				selSp("no kind", func(b lkSelect) lkSelect { return b.Join("JOIN j ON j.a = a.b") }),
				selSp("no keyword", func(b lkSelect) lkSelect { return b.Join("j ON j.a = a.b") }),
				selSp("lower case, semicolon", func(b lkSelect) lkSelect { return b.Join("inner  join j\non j.a=a.b;") }),
				selSp("parentheses", func(b lkSelect) lkSelect { return b.Join("JOIN j ON (j.a = a.b)") }),
				selSp("table and text", func(b lkSelect) lkSelect { return b.Join("j", "ON j.a = a.b") }),
				selSp("table and bare text", func(b lkSelect) lkSelect { return b.Join("j", "j.a = a.b") }),
				selSp("Table and text", func(b lkSelect) lkSelect { return b.Join(lk.Table("j"), "ON j.a = a.b") }),
				selSp("table and whole text", func(b lkSelect) lkSelect { return b.Join("j", "INNER JOIN j ON j.a = a.b") }),
				selSp("On", func(b lkSelect) lkSelect { return b.Join("j", on) }),
				selSp("Table, On", func(b lkSelect) lkSelect { return b.Join(lk.Table("j"), on) }),
				selSp("On, kind", func(b lkSelect) lkSelect { return b.Join("j", on, lk.InnerJoin) }),
				selSp("text, kind", func(b lkSelect) lkSelect { return b.Join("j", "ON j.a = a.b", lk.InnerJoin) }),
				selSp("NewInnerJoin", func(b lkSelect) lkSelect { return b.Join(stmt.NewInnerJoin(lk.Table("j"), on)) }),
				selSp("NewJoin", func(b lkSelect) lkSelect { return b.Join(stmt.NewJoin(lk.InnerJoin, lk.Table("j"), on)) }),
				selSp("NewOnClause", func(b lkSelect) lkSelect {
					return b.Join("j", stmt.NewOnClause(lk.Column("j.a"), lk.Column("a.b")))
				}),
			},
			{
				selSp("left text", func(b lkSelect) lkSelect { return b.Join("LEFT JOIN j ON (j.a = a.b AND j.c = a.d)") }),
				selSp("left text without parentheses", func(b lkSelect) lkSelect { return b.Join("left join j ON j.a = a.b and j.c = a.d") }),
				selSp("text, kind", func(b lkSelect) lkSelect { return b.Join("j", "ON j.a = a.b AND j.c = a.d", lk.LeftJoin) }),
				selSp("bare text, kind", func(b lkSelect) lkSelect { return b.Join(lk.Table("j"), "j.a = a.b AND j.c = a.d", lk.LeftJoin) }),
				selSp("whole text, kind", func(b lkSelect) lkSelect { return b.Join("j", "LEFT JOIN j ON j.a = a.b AND j.c = a.d", lk.LeftJoin) }),
				selSp("And method", func(b lkSelect) lkSelect { return b.Join("j", on.And(on2), lk.LeftJoin) }),
				selSp("AndOn", func(b lkSelect) lkSelect { return b.Join("j", lk.AndOn(on, on2), lk.LeftJoin) }),
				selSp("NewLeftJoin", func(b lkSelect) lkSelect {
					return b.Join(stmt.NewLeftJoin(lk.Table("j"), stmt.NewInfixOnExpression(on, stmt.NewAndOperator(), on2)))
				}),
				selSp("NewLeftJoin of And", func(b lkSelect) lkSelect {
					return b.Join(stmt.NewLeftJoin(stmt.NewTable("j"), on.And(on2).(stmt.InfixOnExpression)))
				}),
			},
			{
				selSp("right text", func(b lkSelect) lkSelect { return b.Join("RIGHT JOIN j ON j.a = a.b OR j.c = a.d") }),
				selSp("Or method", func(b lkSelect) lkSelect { return b.Join("j", on.Or(on2), lk.RightJoin) }),
				selSp("OrOn", func(b lkSelect) lkSelect { return b.Join(lk.Table("j"), lk.OrOn(on, on2), lk.RightJoin) }),
				selSp("NewRightJoin", func(b lkSelect) lkSelect {
					return b.Join(stmt.NewRightJoin(lk.Table("j"), on.Or(on2).(stmt.InfixOnExpression)))
				}),
				selSp("text, kind", func(b lkSelect) lkSelect { return b.Join("j", "j.a = a.b OR j.c = a.d;", lk.RightJoin) }),
			},
			{
				selSp("GroupBy(g, h)", func(b lkSelect) lkSelect { return b.GroupBy("g", "h") }),
				selSp("columns", func(b lkSelect) lkSelect { return b.GroupBy([]stmt.Column{lk.Column("g"), lk.Column("h")}) }),
				selSp("text", func(b lkSelect) lkSelect { return b.GroupBy("g,h") }),
			},
			{
				selSp("Order(o)", func(b lkSelect) lkSelect { return b.OrderBy(lk.Order("o"), lk.Order("p", lk.Desc)) }),
				selSp("Asc", func(b lkSelect) lkSelect { return b.OrderBy(lk.Order("o", lk.Asc)).OrderBy(lk.Order("p", lk.Desc)) }),
				selSp("Column.Asc", func(b lkSelect) lkSelect { return b.OrderBy(lk.Column("o").Asc(), lk.Column("p").Desc()) }),
				selSp("alias", func(b lkSelect) lkSelect {
					return b.OrderBy(lk.Column("x").As("o").Asc(), lk.Column("y").As("p").Desc())
				}),
				selSp("NewOrder", func(b lkSelect) lkSelect {
					return b.OrderBy([]stmt.Order{stmt.NewOrder("o", types.Asc), stmt.NewOrder("p", types.Desc)}...)
				}),
				selSp("none", func(b lkSelect) lkSelect {
					return b.OrderBy().OrderBy(lk.Order("o")).OrderBy().OrderBy(lk.Order("p", lk.Desc))
				}),
			},
			numbers(true),
			numbers(false),
			{
				selSp("Prefix(text)", func(b lkSelect) lkSelect { return b.Prefix("EXPLAIN") }),
				selSp("Prefix(stmt)", func(b lkSelect) lkSelect { return b.Prefix(stmt.NewPrefix("EXPLAIN")) }),
			},
			{
				selSp("Suffix(text)", func(b lkSelect) lkSelect { return b.Suffix("FOR UPDATE") }),
				selSp("Suffix(stmt)", func(b lkSelect) lkSelect { return b.Suffix(stmt.NewSuffix("FOR UPDATE")) }),
			},
		}
	case kit.Insert:
		start = []spelt{
			insSp("Insert(name)", func(lkInsert) lkInsert { return lk.Insert("t") }),
			insSp("Insert(Table)", func(lkInsert) lkInsert { return lk.Insert(lk.Table("t")) }),
			insSp("Insert(Into)", func(lkInsert) lkInsert { return lk.Insert(stmt.NewInto(lk.Table("t"))) }),
			insSp("NewInsert", func(lkInsert) lkInsert { return builder.NewInsert().Into("t") }),
			insSp("ToInto", func(lkInsert) lkInsert { return builder.NewInsert().Into(builder.ToInto("t")) }),
		}
		parts = [][]spelt{
			{
				insSp("Columns.Values", func(b lkInsert) lkInsert { return b.Columns("a", "b", "c").Values(1, sub, nil) }),
				insSp("Values.Columns", func(b lkInsert) lkInsert { return b.Values(1, sub, nil).Columns("a", "b", "c") }),
				insSp("Columns(text)", func(b lkInsert) lkInsert { return b.Columns("a, b,c").Values([]interface{}{1, sub, nil}) }),
				insSp("rows", func(b lkInsert) lkInsert {
					return b.Columns([]string{"a", "b", "c"}).Values([][]interface{}{{1, sub.Statement(), nil}})
				}),
				insSp("rows of expressions", func(b lkInsert) lkInsert {
					return b.Columns("a", "b,c").Values([][]stmt.Expression{{lk.Value(1), stmt.NewExpression(sub), lk.Value(nil)}})
				}),
				insSp("expressions", func(b lkInsert) lkInsert {
					return b.Columns("a, b", lk.Column("c")).Values([]stmt.Expression{stmt.NewExpression(1), stmt.NewExpression(&sub), stmt.NewExpression(nil)})
				}),
				insSp("Set(map)", func(b lkInsert) lkInsert { return b.Set(lk.Map{"c": nil, "a": 1, "b": sub}) }),
				insSp("Set(map[string])", func(b lkInsert) lkInsert { return b.Set(map[string]interface{}{"c": nil, "a": 1, "b": sub}) }),
				insSp("Set(pairs)", func(b lkInsert) lkInsert { return b.Set(lk.Pair("b", sub), lk.Pair("c", nil), lk.Pair("a", 1)) }),
				insSp("Set(column keys)", func(b lkInsert) lkInsert {
					return b.Set(lk.Pair(lk.Column("c"), nil), lk.Pair(lk.Column("a"), lk.Value(1)), lk.Pair(" b ", sub.Statement()))
				}),
				insSp("Set(mix)", func(b lkInsert) lkInsert {
					return b.Set(lk.Map{"c": 4}, lk.Pair("a", 0), map[string]interface{}{"b": sub, "a": 1}, lk.Pair("c", nil))
				}),
				insSp("Set(raw null)", func(b lkInsert) lkInsert {
					return b.Set(types.Map{"c": stmt.NewValue(nil), "b": &sub}, types.Pair{Key: "a", Value: 1})
				}),
			},
			{
				insSp("OnConflict(pairs)", func(b lkInsert) lkInsert {
					return b.OnConflict("k", "l", lk.DoUpdate(lk.Pair("a", 1), lk.Pair("b", "s")))
				}),
				insSp("map", func(b lkInsert) lkInsert {
					return b.OnConflict("k", lk.Column("l"), lk.DoUpdate(lk.Map{"b": "s", "a": 1}))
				}),
				insSp("mix", func(b lkInsert) lkInsert {
					return b.OnConflict(lk.Column("k"), "l", lk.DoUpdate(map[string]interface{}{"b": 3, "a": 1}, lk.Pair(lk.Column("b"), "s")))
				}),
				insSp("stmt", func(b lkInsert) lkInsert {
					return b.OnConflict(" k", "l ", stmt.NewConflictUpdateAction(builder.ToSet([]interface{}{lk.Pair("b", "s"), lk.Pair("a", 1)})))
				}),
			},
			{
				insSp("Returning(r, s)", func(b lkInsert) lkInsert { return b.Returning("r", "s") }),
				insSp("text", func(b lkInsert) lkInsert { return b.Returning("r,s") }),
				insSp("slice", func(b lkInsert) lkInsert { return b.Returning(retS...) }),
				insSp("columns", func(b lkInsert) lkInsert { return b.Returning([]stmt.Column{lk.Column("r"), lk.Column("s")}) }),
				insSp("strings", func(b lkInsert) lkInsert { return b.Returning([]string{"r", "s"}) }),
			},
		}
	case kit.Update:
		start = []spelt{
			updSp("Update(name)", func(lkUpdate) lkUpdate { return lk.Update("t") }),
			updSp("Update(Table)", func(lkUpdate) lkUpdate { return lk.Update(lk.Table("t")) }),
			updSp("NewUpdate", func(lkUpdate) lkUpdate { return builder.NewUpdate("t") }),
			updSp("ToTable", func(lkUpdate) lkUpdate { return builder.NewUpdate(builder.ToTable("t")) }),
		}
		parts = [][]spelt{
			{
				set(func(b lkUpdate) lkUpdate { return b.Set(lk.Pair("a", 1), lk.Pair("b", sub), lk.Pair("c", nil)) }, "pairs"),
				set(func(b lkUpdate) lkUpdate { return b.Set(lk.Pair("c", nil)).Set(lk.Pair("b", sub)).Set(lk.Pair("a", 1)) }, "calls"),
				set(func(b lkUpdate) lkUpdate { return b.Set(lk.Map{"a": 1, "b": sub, "c": nil}) }, "map"),
				set(func(b lkUpdate) lkUpdate {
					return b.Set(map[string]interface{}{"a": 1, "b": sub.Statement(), "c": lk.Value(nil)})
				}, "map[string]"),
				set(func(b lkUpdate) lkUpdate {
					return b.Set(lk.Map{"a": 1}, lk.Pair(lk.Column("b"), &sub)).Set(map[string]interface{}{"c": nil})
				}, "mix"),
				set(func(b lkUpdate) lkUpdate {
					return b.Set(lk.Pair("c", 5), lk.Pair("a", 4)).Set(lk.Map{"b": 3, "a": 1}).Set(lk.Pair(" c", nil), lk.Pair("b ", sub))
				}, "overwritten"),
			},
			{
				updSp("From(name)", func(b lkUpdate) lkUpdate { return b.From("f") }),
				updSp("From(Table)", func(b lkUpdate) lkUpdate { return b.From(lk.Table("f")) }),
				updSp("From(From)", func(b lkUpdate) lkUpdate { return b.From(stmt.NewFrom([]stmt.Statement{lk.Table("f")})) }),
			},
			{
				updSp("With(1).With(1)", func(b lkUpdate) lkUpdate { return b.With(lk.With("w", sub)).With(lk.With("v", lk.Raw("SELECT 1"))) }),
				updSp("With(2)", func(b lkUpdate) lkUpdate {
					return b.With(lk.With("w", sub.Statement()), lk.With("v", lk.Raw("SELECT 1")))
				}),
			},
			{
				updSp("Only", func(b lkUpdate) lkUpdate { return b.Only() }),
				updSp("twice", func(b lkUpdate) lkUpdate { return b.Only().Only() }),
			},
			{
				updSp("Returning(r, s)", func(b lkUpdate) lkUpdate { return b.Returning("r", "s") }),
				updSp("text", func(b lkUpdate) lkUpdate { return b.Returning("r ,s") }),
				updSp("expressions", func(b lkUpdate) lkUpdate { return b.Returning([]stmt.SelectExpression{lk.Column("r"), lk.Column("s")}) }),
			},
		}
	case kit.Delete:
		start = []spelt{
			delSp("Delete(name)", func(lkDelete) lkDelete { return lk.Delete("t") }),
			delSp("Delete(Table)", func(lkDelete) lkDelete { return lk.Delete(lk.Table("t")) }),
			delSp("Delete(From)", func(lkDelete) lkDelete { return lk.Delete(stmt.NewFrom([]stmt.Statement{lk.Table("t")})) }),
			delSp("NewDelete", func(lkDelete) lkDelete { return builder.NewDelete().From("t") }),
			delSp("zero", func(lkDelete) lkDelete { return builder.Delete{}.From(lk.Table("t")) }),
		}
		parts = [][]spelt{
			{
				delSp("Using(a, b)", func(b lkDelete) lkDelete { return b.Using("a", tb) }),
				delSp("Tables", func(b lkDelete) lkDelete { return b.Using(ta, stmt.NewTableAlias("b", "bb")) }),
				delSp("slice", func(b lkDelete) lkDelete { return b.Using([]interface{}{"a", lk.Table("b").As("bb")}...) }),
			},
			{
				delSp("Returning(r, s)", func(b lkDelete) lkDelete { return b.Returning("r", "s") }),
				delSp("text", func(b lkDelete) lkDelete { return b.Returning("r,s") }),
				delSp("columns", func(b lkDelete) lkDelete { return b.Returning(lk.Column("r"), lk.Column("s")) }),
			},
			{
				delSp("Where.Or", func(b lkDelete) lkDelete {
					return b.Where(lk.Condition("a").Equal(1)).Or(lk.Condition("b").IsNull(true))
				}),
				delSp("Or", func(b lkDelete) lkDelete {
					return b.Where(lk.Or(lk.Condition("a").Equal(1), lk.Condition("b").Is(nil)))
				}),
				delSp("Or method", func(b lkDelete) lkDelete {
					return b.Where(lk.Condition("a").Equal(1).Or(lk.Condition("b").IsNull(true)))
				}),
			},
		}
	}
	return start, parts
}

var c18PartsCache [kit.NKinds]struct {
	start []spelt
	parts [][]spelt
}

// c18Statements: statements with all or some of their parts, each in any
// spelling, in grammar order or reversed.
func c18Statements(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	start, parts := c18PartsCache[kind].start, c18PartsCache[kind].parts
	var h, u kit.H
	h.M.Kind, u.M.Kind = kind, kind
	s := start[x.Choose(len(start), "start")]
	type call struct{ got, want spelt }
	var calls []call
	what := s.name
	for i, p := range parts {
		n := len(p) + 1
		if kind == kit.Update && i == 0 {
			n-- // assignments are required
		}
		k := x.Choose(n, "part")
		if k == len(p) {
			continue // left out
		}
		calls = append(calls, call{p[k], p[0]})
		what += ", " + p[k].name
	}
	x.Op("%s", what)
	must(x, "statements", what, func() {
		s.apply(&h)
		start[0].apply(&u)
		for _, c := range calls {
			c.want.apply(&u)
		}
		switch x.Choose(2, "calls reversed") {
		case 0:
			for _, c := range calls {
				c.got.apply(&h)
			}
		case 1:
			// WITH, JOIN, ORDER BY lists depend on the order of the calls: they
			// are one part each, but the three joins are not.
			var joins []call
			for i := len(calls) - 1; i >= 0; i-- {
				if isJoin(kind, parts, calls[i].want.name) {
					joins = append([]call{calls[i]}, joins...)
					continue
				}
				calls[i].got.apply(&h)
			}
			for _, c := range joins {
				c.got.apply(&h)
			}
		}
	})
	same(x, "statements", what, h.B(), u.B())
	x.State(what)
}

func isJoin(kind int, parts [][]spelt, name string) bool {
	if kind != kit.Select {
		return false
	}
	for _, p := range parts[3:6] {
		if p[0].name == name {
			return true
		}
	}
	return false
}

// c18Joins: trees of ON comparisons as text, methods or functions.
func c18Joins(x *engine.X) {
	n := 1 + x.Pick(tier(x, 3, 4), "comparisons")
	kinds := []types.JoinType{lk.InnerJoin, lk.LeftJoin, lk.RightJoin}
	kind := kinds[x.Pick(3, "kind")]
	text := ""
	cols := func(i int) (string, string) { return fmt.Sprintf("j.a%d", i), fmt.Sprintf("t.b%d", i) }
	var ons stmt.OnExpression
	way := x.Pick(2, "functions or methods")
	tok := []kit.Tok(nil)
	for i := 0; i < n; i++ {
		l, r := cols(i)
		c := lk.On(l, r)
		ct := kit.Cat(kit.I(l), kit.R("="), kit.I(r))
		if i == 0 {
			text, ons, tok = l+" = "+r, c, ct
			continue
		}
		if x.PickBool("or") {
			text += []string{" OR ", " or "}[i%2] + l + " = " + r
			if way == 0 {
				ons = ons.Or(c)
			} else {
				ons = lk.OrOn(ons, c)
			}
			tok = kit.Paren(tok, kit.R("OR"), ct)
		} else {
			text += []string{" AND ", " And "}[i%2] + l + " = " + r
			if way == 0 {
				ons = ons.And(c)
			} else {
				ons = lk.AndOn(ons, c)
			}
			tok = kit.Paren(tok, kit.R("AND"), ct)
		}
	}
	kw := kind.String()
	if kind == lk.InnerJoin {
		kw = []string{"INNER JOIN", "JOIN"}[x.Pick(2, "kind written")]
	}
	table := lk.Table("j")
	routes := []struct {
		name string
		f    func(b lkSelect) lkSelect
	}{
		{"text", func(b lkSelect) lkSelect { return b.Join(kw + " j ON " + text) }},
		{"text in parentheses;", func(b lkSelect) lkSelect { return b.Join(kw + " j ON (" + text + ");") }},
		{"name, text, kind", func(b lkSelect) lkSelect { return b.Join("j", text, kind) }},
		{"table, ON text, kind", func(b lkSelect) lkSelect { return b.Join(table, "ON "+text, kind) }},
		{"name, whole text, kind", func(b lkSelect) lkSelect { return b.Join("j", kw+" j ON "+text, kind) }},
		{"name, whole text", func(b lkSelect) lkSelect { return b.Join("j", kw+" j ON "+text) }},
		{"name, ons, kind", func(b lkSelect) lkSelect { return b.Join("j", ons, kind) }},
		{"table, ons, kind", func(b lkSelect) lkSelect { return b.Join(table, ons, kind) }},
		{"NewJoin", func(b lkSelect) lkSelect { return b.Join(stmt.NewJoin(kind, table, ons.(stmt.Expression))) }},
		{"aliased table", func(b lkSelect) lkSelect { return b.Join(table.As("z"), ons, kind) }},
		{"aliased table, text", func(b lkSelect) lkSelect { return b.Join(table.As("z"), text, kind) }},
	}
	k := x.Pick(len(routes), "route")
	what := fmt.Sprintf("%s %s by %s", kw, text, routes[k].name)
	x.Op("%s", what)
	h := kit.H{M: kit.Model{Kind: kit.Select, Exprs: kit.I("x"), From: kit.I("t")}}
	jt := kit.I("j")
	if strings.HasPrefix(routes[k].name, "aliased") {
		jt = kit.Cat(jt, kit.R("AS"), kit.I("z"))
	}
	h.M.Joins = [][]kit.Tok{kit.Cat(kit.R(kind.String()), jt, kit.R("ON"), tok)}
	must(x, "joins", what, func() { h.S = routes[k].f(lk.Select("x").From("t")) })
	verify(x, h, kit.FAll, "joins", what)
	x.State(what)
}

// c18Longs are long lists in several spellings, the usual one first.
var c18Longs = []struct {
	name string
	ways []func(n int) builder.Builder
}{
	{"conditions", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			b := lk.Select("a").From("t")
			for i := 0; i < n; i++ {
				b = b.Where(lk.Condition(longName(i)).Equal(i))
			}
			return b
		},
		func(n int) builder.Builder {
			b := lk.Select("a").From("t").Where(lk.Condition(longName(0)).Equal(0))
			for i := 1; i < n; i++ {
				b = b.And(lk.Condition(longName(i)).Equal(i))
			}
			return b
		},
		func(n int) builder.Builder {
			var e stmt.Expression = lk.Condition(longName(0)).Equal(0)
			for i := 1; i < n; i++ {
				e = lk.And(e, lk.Condition(longName(i)).Equal(i))
			}
			return lk.Select("a").From("t").Where(e)
		},
		func(n int) builder.Builder {
			e := lk.Condition(longName(0)).Equal(0)
			for i := 1; i < n; i++ {
				e = e.And(lk.Condition(longName(i)).Equal(i))
			}
			return lk.Select("a").From("t").Where(e)
		},
	}},
	{"alternatives", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			b := lk.Delete("t").Where(lk.Condition(longName(0)).Equal(0))
			for i := 1; i < n; i++ {
				b = b.Or(lk.Condition(longName(i)).Equal(i))
			}
			return b
		},
		func(n int) builder.Builder {
			var e stmt.Expression = lk.Condition(longName(0)).Equal(0)
			for i := 1; i < n; i++ {
				e = lk.Or(e, lk.Condition(longName(i)).Equal(i))
			}
			return lk.Delete("t").Where(e)
		},
		func(n int) builder.Builder {
			e := lk.Condition(longName(0)).Equal(0)
			for i := 1; i < n; i++ {
				e = e.Or(lk.Condition(longName(i)).Equal(i))
			}
			return lk.Delete("t").Where(e)
		},
	}},
	{"IN lists", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			var l []interface{}
			for i := 0; i < n; i++ {
				l = append(l, i)
			}
			return lk.Delete("t").Where(lk.Condition("c").In(l...))
		},
		func(n int) builder.Builder {
			var l []interface{}
			for i := 0; i < n; i++ {
				l = append(l, i)
			}
			return lk.Delete("t").Where(lk.Condition("c").In(l))
		},
		func(n int) builder.Builder {
			var l []int
			for i := 0; i < n; i++ {
				l = append(l, i)
			}
			return lk.Delete("t").Where(lk.Condition("c").In(l))
		},
		func(n int) builder.Builder {
			var l []stmt.Expression
			for i := 0; i < n; i++ {
				l = append(l, lk.Value(i))
			}
			return lk.Delete("t").Where(lk.Condition("c").In(l))
		},
	}},
	{"rows", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			var l [][]interface{}
			for i := 0; i < n; i++ {
				l = append(l, []interface{}{i, i + 1})
			}
			return lk.Insert("t").Values(l)
		},
		func(n int) builder.Builder {
			var l [][]int
			for i := 0; i < n; i++ {
				l = append(l, []int{i, i + 1})
			}
			return lk.Insert("t").Values(l)
		},
		func(n int) builder.Builder {
			var l [][]stmt.Expression
			for i := 0; i < n; i++ {
				l = append(l, []stmt.Expression{lk.Value(i), stmt.NewExpression(i + 1)})
			}
			return lk.Insert("t").Values(l)
		},
	}},
	{"assignments", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			var l []interface{}
			for i := 0; i < n; i++ {
				l = append(l, lk.Pair(longName(i), i))
			}
			return lk.Update("t").Set(l...)
		},
		func(n int) builder.Builder {
			b := lk.Update("t")
			for i := n - 1; i >= 0; i-- {
				b = b.Set(lk.Map{lk.Column(longName(i)): i})
			}
			return b
		},
		func(n int) builder.Builder {
			m := lk.Map{}
			for i := 0; i < n; i++ {
				m[longName(i)] = i
			}
			return lk.Update("t").Set(m)
		},
		func(n int) builder.Builder {
			m := map[string]interface{}{}
			var l []interface{}
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					m[longName(i)] = i
				} else {
					l = append(l, lk.Pair(lk.Column(longName(i)), i))
				}
			}
			b := lk.Update("t").Set(m)
			if len(l) > 0 {
				b = b.Set(l...)
			}
			return b
		},
	}},
	{"inserted columns", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			var c, v []interface{}
			for i := 0; i < n; i++ {
				c, v = append(c, longName(i)), append(v, i)
			}
			return lk.Insert("t").Columns(c...).Values(v...)
		},
		func(n int) builder.Builder {
			var l []interface{}
			for i := n - 1; i >= 0; i-- {
				l = append(l, lk.Pair(longName(i), i))
			}
			return lk.Insert("t").Set(l...)
		},
		func(n int) builder.Builder {
			m := lk.Map{}
			for i := 0; i < n; i++ {
				m[longName(i)] = i
			}
			return lk.Insert("t").Set(m)
		},
		func(n int) builder.Builder {
			var c []string
			var v []int
			for i := 0; i < n; i++ {
				c, v = append(c, longName(i)), append(v, i)
			}
			if n == 1 {
				return lk.Insert("t").Columns(c[0]).Values(v[0])
			}
			return lk.Insert("t").Columns(strings.Join(c, ", ")).Values(v)
		},
	}},
	{"orders", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			var l []stmt.Order
			for i := 0; i < n; i++ {
				l = append(l, lk.Order(longName(i), lk.Desc))
			}
			return lk.Select("a").OrderBy(l...)
		},
		func(n int) builder.Builder {
			b := lk.Select("a")
			for i := 0; i < n; i++ {
				b = b.OrderBy(lk.Column(longName(i)).Desc())
			}
			return b
		},
		func(n int) builder.Builder {
			b := lk.Select("a")
			for i := 0; i < n; i += 3 {
				var l []stmt.Order
				for j := i; j < n && j < i+3; j++ {
					l = append(l, lk.Order(longName(j), lk.Desc))
				}
				b = b.OrderBy(l...)
			}
			return b
		},
	}},
	{"tables", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			var l []interface{}
			for i := 0; i < n; i++ {
				l = append(l, longName(i))
			}
			return lk.Select("a").From(l...)
		},
		func(n int) builder.Builder {
			var l []interface{}
			for i := 0; i < n; i++ {
				l = append(l, lk.Table(longName(i)))
			}
			return lk.Select("a").From(l...)
		},
		func(n int) builder.Builder {
			var l []stmt.Statement
			for i := 0; i < n; i++ {
				l = append(l, lk.Table(longName(i)))
			}
			return lk.Select("a").From(stmt.NewFrom(l))
		},
	}},
	{"WITH queries", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			var l []stmt.WithQuery
			for i := 0; i < n; i++ {
				l = append(l, lk.With(longName(i), lk.Select("x").Limit(i+1)))
			}
			return lk.Select("a").With(l...)
		},
		func(n int) builder.Builder {
			b := lk.Select("a")
			for i := 0; i < n; i++ {
				b = b.With(lk.With(longName(i), lk.Select("x").Limit(i+1).Statement()))
			}
			return b
		},
	}},
	{"ON conditions", []func(n int) builder.Builder{
		func(n int) builder.Builder {
			var e stmt.OnExpression = lk.On("j.a", "t.a")
			for i := 1; i < n; i++ {
				e = e.And(lk.On("j."+longName(i), "t.b"))
			}
			return lk.Select("a").From("t").Join("j", e)
		},
		func(n int) builder.Builder {
			text := "j.a = t.a"
			for i := 1; i < n; i++ {
				text += " AND j." + longName(i) + " = t.b"
			}
			return lk.Select("a").From("t").Join("j", text)
		},
		func(n int) builder.Builder {
			text := "join j on j.a = t.a"
			for i := 1; i < n; i++ {
				text += "\nand j." + longName(i) + "=t.b"
			}
			return lk.Select("a").From("t").Join(text)
		},
		func(n int) builder.Builder {
			var e stmt.OnExpression = lk.On("j.a", "t.a")
			for i := 1; i < n; i++ {
				e = lk.AndOn(e, lk.On("j."+longName(i), "t.b"))
			}
			return lk.Select("a").From("t").Join(stmt.NewInnerJoin(lk.Table("j"), e.(stmt.Expression)))
		},
	}},
}

func longName(i int) string { return fmt.Sprintf("n%05d", i) }

// c18Long: long lists in every spelling.
func c18Long(x *engine.X) {
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1001}
	l := c18Longs[x.Pick(len(c18Longs), "list")]
	n := sizes[x.Pick(len(sizes), "items")]
	w := 1 + x.Pick(len(l.ways)-1, "spelling")
	what := fmt.Sprintf("%d %s, spelling %d", n, l.name, w)
	x.Op("%s", what)
	must(x, "long", what, func() { same(x, "long", what, l.ways[w](n), l.ways[0](n)) })
	x.State(what)
}

// c18LongColumns: long lists of columns in every spelling.
func c18LongColumns(x *engine.X) {
	sizes := []int{5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 128, 129, 257, 1001, 4097}
	p := columnPlaces[x.Pick(len(columnPlaces), "place")]
	n := sizes[x.Pick(len(sizes), "columns")]
	var names []string
	var cols []stmt.Column
	var exprs []stmt.SelectExpression
	var each, mixed []interface{}
	for i := 0; i < n; i++ {
		c := longName((i * 7) % n)
		names, cols, exprs, each = append(names, c), append(cols, lk.Column(c)), append(exprs, lk.Column(c)), append(each, c)
		if i%3 == 0 {
			mixed = append(mixed, lk.Column(c))
		} else {
			mixed = append(mixed, " "+c+"\t")
		}
	}
	way := x.Pick(6, "spelling")
	if p.single && way > 0 || way > 1 && way < 4 && p.name == "Update.Set" || way == 4 && !p.exprs {
		x.Skip()
	}
	args := [][]interface{}{mixed, {strings.Join(names, ",")}, {names}, {cols}, {exprs}, {strings.Join(names[:n/2], " , "), strings.Join(names[n/2:], ",\n")}}[way]
	what := fmt.Sprintf("%s of %d columns, spelling %d", p.name, n, way)
	x.Op("%s", what)
	must(x, "long", what, func() {
		got, want := p.build(args), p.build(each)
		for _, h := range []*kit.H{&got, &want} {
			if p.model != nil {
				p.model(h, nil)
			} else {
				h.M.Kind = kit.Update
			}
		}
		same(x, "long", what, got.B(), want.B())
	})
	x.State(what)
}

// c18Items: a list of items is the same one by one or as a list of Go, with
// their aliases whatever they look like.
func c18Items(x *engine.X) {
	n := 1 + x.Pick(tier(x, 3, 4), "items")
	place := x.Pick(len(exprPlaces)+len(columnPlaces), "place")
	exprs := place < len(exprPlaces)
	name := ""
	if exprs {
		name = exprPlaces[place].name
	} else {
		p := columnPlaces[place-len(exprPlaces)]
		name = p.name
		if p.single || p.exprs || name == "Update.Set" {
			x.Skip()
		}
	}
	onlyColumns := true
	var each []interface{}
	var list []stmt.SelectExpression
	var cols []stmt.Column
	what := ""
	for i := 0; i < n; i++ {
		forms := 6
		if exprs {
			forms = 14
		}
		c := c09Confusing[(i*5+3)%len(c09Confusing)]
		var v interface{}
		k := x.Pick(forms, "item")
		switch k {
		case 0:
			v = lk.Column(c)
		case 1:
			v = lk.Column(c).As("x")
		case 2:
			v = lk.Column(c).As(c)
		case 3:
			v = lk.Column("a").As("A")
		case 4:
			v = stmt.NewColumnAlias("a.b", "c.d")
		case 5:
			v = lk.Column("a")
		case 6:
			v = lk.Raw("*")
		case 7:
			v = lk.Raw("a + 1")
		case 8:
			v = lk.Count(c)
		case 9:
			v = lk.Count("a").Distinct(true).As(c)
		case 10:
			v = lk.Max("a").As("x")
		case 11:
			v = lk.Exists(lk.Select("s").From("u").Where(lk.Condition("p").Equal(i)))
		case 12:
			v = lk.NotExists(lk.Select("s").From("u").Where(lk.Condition("p").Equal(i)))
		case 13:
			v = lk.Sum("a")
		}
		what += fmt.Sprintf("%#v ", v)
		each = append(each, v)
		if c, ok := v.(stmt.Column); ok {
			cols = append(cols, c)
		} else {
			onlyColumns = false
		}
		if e, ok := v.(stmt.SelectExpression); ok {
			list = append(list, e)
		}
	}
	x.Op("%s of %s", name, what)
	build := func(args []interface{}) kit.H {
		if exprs {
			return exprPlaces[place].build(args, nil)
		}
		p := columnPlaces[place-len(exprPlaces)]
		h := p.build(args)
		p.model(&h, nil)
		return h
	}
	must(x, "items", what, func() {
		want := build(each).B()
		if exprs {
			same(x, "items", name+" of []SelectExpression", build([]interface{}{list}).B(), want)
		}
		if onlyColumns {
			same(x, "items", name+" of []Column", build([]interface{}{cols}).B(), want)
		}
	})
	x.State(name, what)
}

// c18Operand: a select is the same operand as a builder and in every other
// form, whatever its clauses.
func c18Operand(x *engine.X) {
	k := x.Pick(nPositions, "position")
	f := 1 + x.Pick(len(subForms)-1, "form")
	g := &kit.Gen{C: x, Depth: 1, NoComment: true, NoAlike: true}
	h := g.SelectStmt()
	ts, _ := h.M.Body()
	rec := &kit.Recorder{C: x}
	g.C = rec
	twin := *g
	want := positionOf(x, &twin, k, subForms[0], h.S, ts)
	rec.Rewind()
	got := positionOf(x, g, k, subForms[f], h.S, ts)
	same(x, "operand", fmt.Sprintf("a %s instead of a builder", subForms[f].name), got.B(), want.B())
	x.State(got.M.Key(), fmt.Sprint(f))
}

// c18Star: no column means all the columns.
func c18Star(x *engine.X) {
	ways := []struct {
		name string
		f    func() lkSelect
	}{
		{"Select()", func() lkSelect { return lk.Select() }},
		{"Select(nothing...)", func() lkSelect { return lk.Select([]interface{}{}...) }},
		{"Columns()", func() lkSelect { return builder.NewSelect().Columns() }},
		{"Select(x).Columns()", func() lkSelect { return lk.Select("x").Columns() }},
		{"Raw(*)", func() lkSelect { return lk.Select(lk.Raw("*")) }},
		{"expressions", func() lkSelect { return lk.Select([]stmt.SelectExpression{lk.Raw("*")}) }},
	}
	w := ways[x.Pick(len(ways), "way")]
	h := kit.H{M: kit.Model{Kind: kit.Select, Exprs: kit.R("*")}}
	must(x, "star", w.name, func() { h.S = w.f() })
	for i := 1; i <= tier(x, 2, 3); i++ {
		o := ops(kit.Select, i)
		h, _ = apply(x, h, o[x.Pick(len(o), "operation")], "star")
	}
	verify(x, h, kit.FQuery|kit.FString, "star", w.name)
	x.State(h.M.Key())
}

func init() {
	register("C18", func() engine.Check {
		for k := range c18PartsCache {
			c18PartsCache[k].start, c18PartsCache[k].parts = c18Parts(k)
		}
		return engine.Check{ID: "C18", Scenarios: []engine.Scenario{
			{Name: "columns", Fn: c18Columns,
				Bounds: "10 places taking columns x lists of 1-4 columns x every cut of the list into arguments, each a column or a text with any of 6 separators and blanks around, or the whole as []string, []Column, []SelectExpression"},
			{Name: "conditions", Fn: c18Where, Bounds: "25 conditions x all their spellings (2-8 each) x 9 places"},
			{Name: "chains", Fn: c18Chains, Bounds: "chains of 2-3 (thorough 5) conditions x AND/OR x every cut between one condition and builder calls x functions, methods, repeated Where, on 3 kinds of builder"},
			{Name: "joins", Fn: c18Joins, Bounds: "1-3 (thorough 4) comparisons x AND/OR x 3 kinds x 11 routes x functions or methods"},
			{Name: "long lists", Fn: c18Long, Bounds: fmt.Sprintf("%d lists of 36 sizes from 1 to 1001 in 2-4 spellings", len(c18Longs))},
			{Name: "long lists of columns", Fn: c18LongColumns, Bounds: "10 places x 23 sizes from 5 to 4097 x 6 spellings"},
			{Name: "items", Fn: c18Items, Bounds: fmt.Sprintf("lists of 1 to 3 (thorough 4) of 14 items (columns with and without alias, aggregates, raw SQL, EXISTS) or 6 columns at %d places, one by one or as a list of Go", len(exprPlaces)+len(columnPlaces))},
			{Name: "operands", Fn: c18Operand, Quick: 1, Thorough: 2,
				Bounds: fmt.Sprintf("%d positions of a select x %d other forms than the builder (statement, pointer, encoder, commented) x its shapes with 1 (thorough 2) non-default variants", nPositions, len(subForms)-1)},
			{Name: "star", Fn: c18Star, Bounds: "6 ways of selecting all columns, followed by every sequence of 2 (thorough 3) operations"},
			{Name: "statements", Fn: c18Statements, Quick: 3, Thorough: 4,
				Bounds: "4 kinds of statement with 3-12 parts in 2-16 spellings each: every combination of 3 (thorough 4) unusual spellings, parts left out, reversed calls"},
		}}
	})
}
