package checks

import (
	"fmt"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// Operations that accumulate items in a list, per kind of builder.
var listOps = [][]string{
	kit.Select: {"OrderBy(1)", "Join(text)", "With(1)", "And", "OrderBy(2)", "With(2)", "Join(on)"},
	kit.Insert: {},
	kit.Update: {"Set(pair)", "Set(cols)", "With(1)", "And", "Set(same)", "Set(map)"},
	kit.Delete: {"And"},
}

// extra operations needed to make a chain render or legal.
func chain(x *engine.X, kind int, list string, n int) kit.H {
	h := kit.Start(kind)
	if kind == kit.Insert {
		return h
	}
	step := func(id int, name string) {
		h, _ = apply(x, h, opNamed(kind, id, name), "fork")
	}
	if list == "And" && n > 0 {
		step(90, "Where")
		n--
	}
	for i := 0; i < n; i++ {
		step(10+i, list)
	}
	if kind == kit.Update {
		switch list {
		case "Set(cols)":
			if n > 0 {
				step(91, "Using")
				if n > 2 {
					step(92, "Using")
				}
			}
		case "With(1)", "And":
			step(93, "Set(pair)")
		}
	}
	return h
}

func verifyAll(x *engine.X, hs []kit.H, names []string, key string) {
	for i := range hs {
		verify(x, hs[i], kit.FAll, key, names[i])
	}
}

// c01Forks: a base with n accumulated items, from which two or three values
// are derived.
func c01Forks(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	list, n := "", 0
	if len(listOps[kind]) > 0 {
		list = listOps[kind][x.Pick(len(listOps[kind]), "list operation")]
		sizes := append([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33}, []int{10, 11, 13, 14, 15, 18, 32, 64, 65, 100}[:tier(x, 0, 10)]...)
		n = sizes[x.Pick(len(sizes), "accumulated items")]
	}
	base := chain(x, kind, list, n)
	x.Logf("base = %d x %s on %s", n, list, kit.KindNames[kind])
	renderFirst := x.PickBool("render before the fork")
	if renderFirst {
		x.Op("render base")
		verify(x, base, kit.FQuery, "fork", "base before the fork")
	}
	a := ops(kind, 1)
	A, _ := apply(x, base, a[x.Pick(len(a), "first derived")], "fork")
	if n%2 == 1 {
		verify(x, A, kit.FQuery, "fork", "first derived, before the second")
	}
	b := ops(kind, 2)
	B, _ := apply(x, base, b[x.Pick(len(b), "second derived")], "fork")
	hs, names := []kit.H{base, A, B}, []string{"base", "first derived", "second derived"}
	// A third one, from any of the three, is a deviation.
	if from := x.Choose(4, "third derived from"); from > 0 {
		c := ops(kind, 3)
		C, _ := apply(x, hs[from-1], c[x.Pick(len(c), "third derived")], "fork")
		hs, names = append(hs, C), append(names, "third derived (from "+names[from-1]+")")
	}
	verifyAll(x, hs, names, "fork")
	// Again: rendering must not have changed anything.
	verifyAll(x, hs[:1], names, "fork")
	for _, h := range hs {
		x.State(h.M.Key())
	}
}

// c01Histories: all call trees from a fresh builder.
func c01Histories(depth int, thin int) func(x *engine.X) {
	return func(x *engine.X) {
		kind := x.Pick(kit.NKinds, "kind")
		d := depth
		if x.Thorough && kind != kit.Select && kind != kit.Update {
			d++
		}
		hs := []kit.H{kit.Start(kind)}
		names := []string{"h0"}
		for step := 1; step <= d; step++ {
			from := x.Pick(len(hs), "receiver")
			o := ops(kind, step)
			if thin > 0 && len(o) > thin {
				o = o[:thin]
			}
			op := o[x.Pick(len(o), "operation")]
			x.Logf("h%d = h%d.%s", step, from, op.Name)
			h, refused := apply(x, hs[from], op, "history")
			if refused {
				h = hs[from]
			}
			hs, names = append(hs, h), append(names, fmt.Sprintf("h%d", step))
			if step < d {
				verify(x, hs[from], kit.FQuery, "history", names[from]+" after being extended")
			}
		}
		verifyAll(x, hs, names, "history")
		x.State(hs[len(hs)-1].M.Key())
	}
}

// c01Values: conditions, columns, tables and aggregates are values too.
func c01Values(x *engine.X) {
	type val struct {
		e stmt.Expression
		t []kit.Tok
	}
	atom := func(i int) val {
		c := fmt.Sprintf("c%d", i)
		switch i % 4 {
		case 0:
			return val{lk.Condition(c).Equal(i), kit.Binary(kit.I(c), "=", kit.S(i))}
		case 1:
			return val{lk.Condition(c).In(i, i+100), kit.Paren(kit.I(c), kit.R("IN"), kit.Paren(kit.List(kit.S(i), kit.S(i+100))))}
		case 2:
			return val{lk.Condition(c).Between(i, i+100), kit.Paren(kit.I(c), kit.R("BETWEEN"), kit.S(i), kit.R("AND"), kit.S(i+100))}
		default:
			return val{lk.Raw("r" + c), kit.R("r" + c)}
		}
	}
	vals := []val{atom(x.Pick(2, "first condition"))}
	n := tier(x, 4, 5)
	for i := 1; i <= n; i++ {
		from := vals[x.Pick(len(vals), "receiver")]
		right := atom(i + 1)
		if x.PickBool("right operand is a derived condition") {
			right = vals[x.Pick(len(vals), "right")]
		}
		and := x.PickBool("and")
		op := "OR"
		if and {
			op = "AND"
		}
		var e stmt.Expression
		switch l := from.e.(type) {
		case stmt.InfixExpression:
			if and {
				e = l.And(right.e)
			} else {
				e = l.Or(right.e)
			}
		case stmt.In:
			if and {
				e = l.And(right.e)
			} else {
				e = l.Or(right.e)
			}
		default:
			if and {
				e = lk.And(from.e, right.e)
			} else {
				e = lk.Or(from.e, right.e)
			}
		}
		x.Op("%s %s %s", kit.Text(from.t), op, kit.Text(right.t))
		vals = append(vals, val{e, kit.Binary(from.t, op, right.t)})
	}
	for _, v := range vals {
		x.Checked()
		want := kit.Cat(kit.R("DELETE FROM"), kit.I("t"), kit.R("WHERE"), v.t)
		if err := kit.Match(lk.Delete("t").Where(v.e), want, kit.FAll); err != nil {
			x.Fail("condition value", "%v", err)
		}
		x.State(kit.Text(v.t))
	}
}

// c01Items: modifiers of columns, tables, aggregates, orders and ON clauses
// return new values.
func c01Items(x *engine.X) {
	x.Op("derive items")
	type item struct {
		render func() string
		want   string
	}
	sel := func(c interface{}) func() string {
		return func() string { q, _ := lk.Select(c).Query(); return q }
	}
	from := func(t stmt.Table) func() string {
		return func() string { q, _ := lk.Select("a").From(t).Query(); return q }
	}
	on := func(e stmt.OnExpression) func() string {
		return func() string {
			switch v := e.(type) {
			case stmt.OnClause:
				q, _ := lk.Select("a").Join("t", v).Query()
				return q
			case stmt.InfixOnExpression:
				q, _ := lk.Select("a").Join("t", v).Query()
				return q
			}
			return fmt.Sprintf("unexpected %T", e)
		}
	}
	var items []item
	add := func(r func() string, want string) { items = append(items, item{r, want}) }
	switch x.Pick(5, "item") {
	case 0:
		c := lk.Column("c")
		c1 := c.As("x")
		c2 := c1.As("y")
		o := c.Asc()
		add(sel(c), `SELECT "c"`)
		add(sel(c1), `SELECT "c" AS "x"`)
		add(sel(c2), `SELECT "c" AS "y"`)
		add(func() string { q, _ := lk.Select("a").OrderBy(o).Query(); return q }, `SELECT "a" ORDER BY c ASC`)
	case 1:
		t := lk.Table("t")
		t1 := t.As("x")
		t2 := t1.Only()
		t3 := t.Only()
		add(from(t), `SELECT "a" FROM "t"`)
		add(from(t1), `SELECT "a" FROM "t" AS "x"`)
		add(from(t2), `SELECT "a" FROM ONLY "t" AS "x"`)
		add(from(t3), `SELECT "a" FROM ONLY "t"`)
	case 2:
		c := lk.Count("c")
		c1 := c.As("x")
		c2 := c.Distinct(true)
		c3 := c2.As("z").Distinct(false)
		add(sel(c), `SELECT COUNT(c)`)
		add(sel(c1), `SELECT COUNT(c) AS x`)
		add(sel(c2), `SELECT COUNT(DISTINCT c)`)
		add(sel(c3), `SELECT COUNT(c) AS z`)
	case 3:
		a, b, c := lk.Max("c"), lk.Min("c"), lk.Sum("c")
		a1, b1, c1 := a.As("x"), b.As("y"), c.As("z")
		add(sel(a), `SELECT MAX(c)`)
		add(sel(b), `SELECT MIN(c)`)
		add(sel(c), `SELECT SUM(c)`)
		add(sel(a1), `SELECT MAX(c) AS x`)
		add(sel(b1), `SELECT MIN(c) AS y`)
		add(sel(c1), `SELECT SUM(c) AS z`)
	case 4:
		a := lk.On("a", "b")
		a1 := a.And(lk.On("c", "d"))
		a2 := a.Or(lk.On("e", "f"))
		a3 := a1.Or(lk.On("g", "h"))
		a4 := a1.And(a2)
		add(on(a), `SELECT "a" INNER JOIN "t" ON "a" = "b"`)
		add(on(a1), `SELECT "a" INNER JOIN "t" ON ("a" = "b" AND "c" = "d")`)
		add(on(a2), `SELECT "a" INNER JOIN "t" ON ("a" = "b" OR "e" = "f")`)
		add(on(a3), `SELECT "a" INNER JOIN "t" ON (("a" = "b" AND "c" = "d") OR "g" = "h")`)
		add(on(a4), `SELECT "a" INNER JOIN "t" ON (("a" = "b" AND "c" = "d") AND ("a" = "b" OR "e" = "f"))`)
	}
	order := x.Pick(2, "rendering order")
	for i := range items {
		it := items[i]
		if order == 1 {
			it = items[len(items)-1-i]
		}
		x.Checked()
		x.State(it.want)
		if err := kit.MatchQuery(it.render(), nil, kit.R(it.want)); err != nil {
			x.Fail("item value", "%v", err)
		}
	}
}

// c01Nested: a select used inside another statement, both extended afterwards.
func c01Nested(x *engine.X) {
	n := x.Pick(tier(x, 6, 10), "accumulated items")
	inner := chain(x, kit.Select, "OrderBy(1)", n)
	innerToks, _ := inner.M.Toks()
	var outer kit.H
	pos := x.Pick(5, "position")
	var outToks []kit.Tok
	switch pos {
	case 0:
		outer = kit.Start(kit.Select)
		outer.S = outer.S.With(lk.With("w", inner.S))
		outer.M.With = [][]kit.Tok{kit.Cat(kit.R("w AS"), kit.Paren(innerToks))}
	case 1:
		outer = kit.Start(kit.Delete)
		outer.D = outer.D.Where(lk.Condition("id").In(inner.S))
		outer.M.Where = kit.Paren(kit.I("id"), kit.R("IN"), kit.Paren(innerToks))
	case 2:
		outer = kit.Start(kit.Update)
		outer.U = outer.U.Set(lk.Pair("s", inner.S))
		outer.M = outer.M.SetPair("s", kit.Paren(innerToks))
	case 3:
		outer = kit.Start(kit.Select)
		outer.S = outer.S.Where(lk.Exists(inner.S.Statement()))
		outer.M.Where = kit.Paren(kit.R("EXISTS"), kit.Paren(innerToks))
	case 4:
		outer = kit.Start(kit.Update)
		outer.U = outer.U.Set("a", "b").Using(inner.S)
		outer.M.SetCols, outer.M.SetExprs = []string{"a", "b"}, [][]kit.Tok{innerToks}
	}
	x.Op("embed")
	o := ops(kit.Select, 1)
	inner2, _ := apply(x, inner, o[x.Pick(len(o), "extend inner")], "nested")
	p := ops(outer.M.Kind, 2)
	outer2, _ := apply(x, outer, p[x.Pick(len(p), "extend outer")], "nested")
	_ = outToks
	verifyAll(x, []kit.H{inner, outer, inner2, outer2}, []string{"inner", "outer", "extended inner", "extended outer"}, "nested")
	x.State(outer2.M.Key())
}

// c01Grammar: every operation from one value of the grammar.
func c01Grammar(x *engine.X) {
	everyOperation(x, genStmt(x, &kit.Gen{C: x, Depth: 1, NoComment: true}, "grammar"), "grammar")
}

// c01Conditions: one condition of any form given to two builders, which are
// extended by others.
func c01Conditions(x *engine.X) {
	g := &kit.Gen{C: zero{}, Depth: 1}
	e, te := leafCond(g, x.Pick(nLeafForms, "shared condition"))
	r, tr := leafCond(g, x.Pick(nLeafForms, "other condition"))
	kind := []int{kit.Select, kit.Update, kit.Delete}[x.Pick(3, "kind")]
	where := func(h kit.H, call int, c stmt.Expression, t []kit.Tok) kit.H {
		must(x, "conditions", "condition", func() {
			switch h.M.Kind {
			case kit.Select:
				h.S = []func(stmt.Expression) lkSelect{h.S.Where, h.S.And, h.S.Or}[call](c)
			case kit.Update:
				h.U = []func(stmt.Expression) lkUpdate{h.U.Where, h.U.And, h.U.Or}[call](c)
			case kit.Delete:
				h.D = []func(stmt.Expression) lkDelete{h.D.Where, h.D.And, h.D.Or}[call](c)
			}
		})
		if h.M.Where == nil {
			h.M.Where = t
			return h
		}
		h.M.Where = kit.Binary(h.M.Where, []string{"AND", "AND", "OR"}[call], t)
		return h
	}
	start := kit.Start(kind)
	if kind == kit.Update {
		start.U = start.U.Set(lk.Pair("k", 1))
		start.M = start.M.SetPair("k", kit.S(1))
	}
	z, tz := lk.Condition("z").Equal("zz"), kit.Binary(kit.I("z"), "=", kit.S("zz"))
	base := where(start, 0, e, te)
	other := where(kit.Start(kit.Delete), 0, e, te)
	a := where(base, x.Pick(3, "first"), r, tr)
	b := where(base, x.Pick(3, "second"), z, tz)
	c := where(other, x.Pick(3, "other"), r, tr)
	d := where(where(a, 1, e, te), 2, z, tz)
	x.Op("%s and %s", kit.Text(te), kit.Text(tr))
	names := []string{"base", "other builder", "first derived", "second derived", "derived from the other", "derived from the first"}
	for i, h := range []kit.H{base, other, a, b, c, d} {
		clauseTruth(x, "conditions", must1(x, h), "WHERE", "", parseModel(x, h.M.Where))
		x.State(names[i], h.M.Key())
	}
}

func must1(x *engine.X, h kit.H) (q string) {
	must(x, "conditions", "rendering", func() { q, _ = h.B().Query() })
	return q
}

// c01Product: every combination of the variants of all the clauses, then every
// operation, from the same value.
func c01Product(x *engine.X) {
	everyOperation(x, genStmt(x, &kit.Gen{C: x, Free: true, NoComment: true}, "product"), "product")
}

func everyOperation(x *engine.X, h kit.H, key string) {
	list := ops(h.M.Kind, 1)
	x.Checked()
	q, args := h.B().Query()
	first := x.Pick(2, "every operation, or the last one twice")
	var derived []kit.H
	for i := range list {
		op := list[i]
		if first == 1 {
			op = list[len(list)-1-i]
		}
		d, refused, err := kit.Apply(h, op)
		if err != nil {
			x.Fail(key, "%v\n  on %s", err, h.M.Key())
		}
		if !refused && i%5 == first {
			derived = append(derived, d)
		}
	}
	x.Op("every operation on it")
	x.Checked()
	p, again := h.B().Query()
	if p != q || len(args) != len(again) {
		x.Fail(key, "the value changed when others were derived from it\n  was %s\n  is  %s", q, p)
	}
	for _, d := range derived {
		verify(x, d, kit.FQuery, key, "derived with others")
	}
	x.State(h.M.Key())
}

func init() {
	register("C01", func() engine.Check {
		return engine.Check{ID: "C01", Scenarios: []engine.Scenario{
			{Name: "forks", Fn: c01Forks, Quick: 0, Thorough: 1,
				Bounds: "4 builders x list operations x 0..9, 12, 16, 17, 33 (thorough 0..18, 32, 33, 64, 65, 100) accumulated items x two derived values over all operations (failing calls included); thorough adds a third value derived from any of the three"},
			{Name: "histories", Fn: c01Histories(3, 0),
				Bounds: "all call trees of 3 operations (receiver x operation) from a fresh builder (4 for insert and delete in the thorough tier)"},
			{Name: "deep histories", Fn: c01Histories(4, 9), ThoroughOnly: true,
				Bounds: "all call trees of 4 operations over the 9 first operations of each builder"},
			{Name: "condition values", Fn: c01Values,
				Bounds: "all ways to derive 4 (thorough 5) conditions from one another with And/Or"},
			{Name: "product", Fn: c01Product, ThoroughOnly: true,
				Bounds: "every combination of the variants of all the clauses, then every operation from that same value, in 2 orders: it and a fifth of the derived ones rendered"},
			{Name: "grammar", Fn: c01Grammar, Quick: 2, Thorough: 3,
				Bounds: "every statement with 2 (thorough 3) variants, then every operation from that same value, in 2 orders"},
			{Name: "conditions", Fn: c01Conditions,
				Bounds: fmt.Sprintf("%d forms of a condition given to two builders x %d forms of another one, by Where, And or Or, in values derived from one another", nLeafForms, nLeafForms)},
			{Name: "items", Fn: c01Items, Bounds: "columns, tables, aggregates, ON clauses with modifiers"},
			{Name: "nested", Fn: c01Nested,
				Bounds: "a select with 0..5 (thorough 0..9) list items embedded at 5 positions, then both statements extended by every operation"},
		}, Assumptions: []string{"single goroutine (C11 covers sharing between goroutines)"}}
	})
}
