package checks

import (
	"fmt"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// stmtEnc is a foreign encoder of statements.
type stmtEnc struct{ s stmt.Statement }

func (e stmtEnc) Statement() stmt.Statement { return e.s }

// subForm is a way of giving a select as an operand.
type subForm struct {
	name string
	of   func(s lkSelect) interface{}
	expr bool // a stmt.Expression
}

var subForms = []subForm{
	{"builder", func(s lkSelect) interface{} { return s }, false},
	{"statement", func(s lkSelect) interface{} { return s.Statement() }, true},
	{"pointer to a builder", func(s lkSelect) interface{} { return &s }, false},
	{"encoder", func(s lkSelect) interface{} { return stmtEnc{s.Statement()} }, false},
	{"commented builder", func(s lkSelect) interface{} { return s.Comment("note $1 :arg_1 ') --") }, false},
	{"commented statement", func(s lkSelect) interface{} { return s.Comment("note").Statement() }, true},
}

// subUse puts a subquery in a condition.
type subUse struct {
	name string
	f    func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok)
}

var subUses = func() []subUse {
	var out []subUse
	add := func(name string, f func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok)) {
		out = append(out, subUse{name, f})
	}
	for _, m := range identifierMethods {
		m := m
		add("Condition."+m.name, func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
			return m.call(lk.Condition("c"), s), kit.Binary(kit.I("c"), m.op, kit.Paren(ts))
		})
	}
	for _, m := range valueMethods {
		m := m
		add("Value."+m.name, func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
			v, tv := g.Val()
			return m.call(lk.Value(v), s), kit.Binary(tv, m.op, kit.Paren(ts))
		})
	}
	for _, m := range callMethods {
		m := m
		add("Call."+m.name, func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
			v, tv := g.Val()
			return m.call(stmt.NewCall("F", lk.Raw("k"), stmt.NewExpression(v)), s), kit.Binary(kit.Cat(kit.R("F"), kit.Paren(kit.R("k ,"), tv)), m.op, kit.Paren(ts))
		})
	}
	id, I := lk.Condition("c"), kit.I("c")
	add("In", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		return id.In(s), kit.Paren(I, kit.R("IN"), kit.Paren(ts))
	})
	add("NotIn", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		return id.NotIn(s), kit.Paren(I, kit.R("NOT IN"), kit.Paren(ts))
	})
	add("Call.In", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		v, tv := g.Val()
		return stmt.NewCall("F", stmt.NewExpression(v)).In(s), kit.Paren(kit.R("F"), kit.Paren(tv), kit.R("IN"), kit.Paren(ts))
	})
	add("In items", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		b, tb := g.Val()
		return id.In(a, s, b), kit.Paren(I, kit.R("IN"), kit.Paren(kit.List(ta, kit.Paren(ts), tb)))
	})
	add("In items twice", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return id.NotIn([]interface{}{s, a, s}), kit.Paren(I, kit.R("NOT IN"), kit.Paren(kit.List(kit.Paren(ts), ta, kit.Paren(ts))))
	})
	add("In array", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return id.In(stmt.NewArrayExpression(s, a)), kit.Paren(I, kit.R("IN"), kit.Paren(kit.List(kit.Paren(ts), ta)))
	})
	add("In expressions", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return id.In([]stmt.Expression{stmt.NewExpression(a), stmt.NewExpression(s)}), kit.Paren(I, kit.R("IN"), kit.Paren(kit.List(ta, kit.Paren(ts))))
	})
	add("Between from", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return id.Between(s, a), kit.Paren(I, kit.R("BETWEEN"), kit.Paren(ts), kit.R("AND"), ta)
	})
	add("Between to", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return id.Between(a, s), kit.Paren(I, kit.R("BETWEEN"), ta, kit.R("AND"), kit.Paren(ts))
	})
	add("NotBetween both", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		return id.NotBetween(s, s), kit.Paren(I, kit.R("NOT BETWEEN"), kit.Paren(ts), kit.R("AND"), kit.Paren(ts))
	})
	add("Exists", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		return lk.Exists(s), kit.Paren(kit.R("EXISTS"), kit.Paren(ts))
	})
	add("NotExists", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		return lk.NotExists(s), kit.Paren(kit.R("NOT EXISTS"), kit.Paren(ts))
	})
	add("itself", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		return stmt.NewExpression(s), kit.Paren(ts)
	})
	add("wrapped", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		return stmt.NewWrapper(stmt.NewExpression(s)), kit.Paren(ts)
	})
	add("call argument", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return stmt.NewCall("F", stmt.NewExpression(a), stmt.NewExpression(s)).Equal(a), kit.Binary(kit.Cat(kit.R("F"), kit.Paren(ta, kit.P(","), kit.Paren(ts))), "=", ta)
	})
	add("only call argument", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return stmt.NewCall("ARRAY_OF", stmt.NewExpression(s)).Overlap(a), kit.Binary(kit.Cat(kit.R("ARRAY_OF"), kit.Paren(ts)), "&&", ta)
	})
	add("left operand", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return stmt.NewInfixExpression(stmt.NewExpression(s), stmt.NewComparisonOperator("="), stmt.NewExpression(a)), kit.Binary(kit.Paren(ts), "=", ta)
	})
	add("operand of And", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return lk.And(stmt.NewExpression(s), id.Equal(a)), kit.Binary(kit.Paren(ts), "AND", kit.Binary(I, "=", ta))
	})
	add("operand of Or", func(g *kit.Gen, s interface{}, ts []kit.Tok) (stmt.Expression, []kit.Tok) {
		a, ta := g.Val()
		return lk.Or(id.Equal(a), stmt.NewExpression(s)), kit.Binary(kit.Binary(I, "=", ta), "OR", kit.Paren(ts))
	})
	return out
}()

// subPlace puts a condition in a statement.
type subPlace struct {
	name string
	kind int
	f    func(g *kit.Gen, c stmt.Expression, tc []kit.Tok) kit.H
}

var subPlaces = []subPlace{
	{"where of a select", kit.Select, func(g *kit.Gen, c stmt.Expression, tc []kit.Tok) kit.H {
		v, tv := g.Val()
		return kit.H{S: lk.Select("a").From("t").Where(c).GroupBy("b").Having(lk.Condition("h").Equal(v)),
			M: kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("t"), Where: tc, GroupBy: kit.I("b"), Having: kit.Binary(kit.I("h"), "=", tv)}}
	}},
	{"having", kit.Select, func(g *kit.Gen, c stmt.Expression, tc []kit.Tok) kit.H {
		v, tv := g.Val()
		return kit.H{S: lk.Select("a").From("t").Where(lk.Condition("w").Equal(v)).GroupBy("b").Having(c).Limit(3),
			M: kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("t"), Where: kit.Binary(kit.I("w"), "=", tv), GroupBy: kit.I("b"), Having: tc, Limit: kit.R("3")}}
	}},
	{"join condition", kit.Select, func(g *kit.Gen, c stmt.Expression, tc []kit.Tok) kit.H {
		v, tv := g.Val()
		return kit.H{S: lk.Select("a").From("t").Join(stmt.NewLeftJoin(lk.Table("j"), c)).Where(lk.Condition("w").Equal(v)),
			M: kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("t"), Joins: [][]kit.Tok{kit.Cat(kit.R("LEFT JOIN"), kit.I("j"), kit.R("ON"), tc)}, Where: kit.Binary(kit.I("w"), "=", tv)}}
	}},
	{"second condition", kit.Select, func(g *kit.Gen, c stmt.Expression, tc []kit.Tok) kit.H {
		v, tv := g.Val()
		u, tu := g.Val()
		return kit.H{S: lk.Select("a").From("t").Where(lk.Condition("w").Equal(v)).And(c).Or(lk.Condition("x").Equal(u)),
			M: kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("t"), Where: kit.Binary(kit.Binary(kit.Binary(kit.I("w"), "=", tv), "AND", tc), "OR", kit.Binary(kit.I("x"), "=", tu))}}
	}},
	{"where of an update", kit.Update, func(g *kit.Gen, c stmt.Expression, tc []kit.Tok) kit.H {
		v, tv := g.Val()
		return kit.H{U: lk.Update("t").Set(lk.Pair("k", v)).Where(c).Returning("z"),
			M: kit.Model{Kind: kit.Update, Table: kit.I("t"), Assoc: []kit.Assign{{Col: "k", Toks: tv}}, Where: tc, Returning: kit.I("z")}}
	}},
	{"where of a delete", kit.Delete, func(g *kit.Gen, c stmt.Expression, tc []kit.Tok) kit.H {
		return kit.H{D: lk.Delete("t").Where(c).Returning("z"), M: kit.Model{Kind: kit.Delete, From: kit.I("t"), Where: tc, Returning: kit.I("z")}}
	}},
	{"or of a delete", kit.Delete, func(g *kit.Gen, c stmt.Expression, tc []kit.Tok) kit.H {
		v, tv := g.Val()
		return kit.H{D: lk.Delete("t").Where(lk.Condition("w").Equal(v)).Or(c), M: kit.Model{Kind: kit.Delete, From: kit.I("t"), Where: kit.Binary(kit.Binary(kit.I("w"), "=", tv), "OR", tc)}}
	}},
}

// subSlot is a place where a subquery is given directly.
type subSlot struct {
	name string
	kind int
	f    func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H
}

var subSlots = []subSlot{
	{"WITH of a select", kit.Select, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		v, tv := g.Val()
		return kit.H{S: lk.Select("a").With(lk.With("w", s), lk.With("x", lk.Raw("SELECT 1"))).From("w").Where(lk.Condition("c").Equal(v)),
			M: kit.Model{Kind: kit.Select, With: [][]kit.Tok{kit.Cat(kit.R("w AS"), kit.Paren(ts)), kit.R("x AS (SELECT 1)")}, Exprs: kit.I("a"), From: kit.I("w"), Where: kit.Binary(kit.I("c"), "=", tv)}}
	}},
	{"WITH of an update", kit.Update, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		v, tv := g.Val()
		return kit.H{U: lk.Update("t").With(lk.With("w", s)).Set(lk.Pair("c", v)),
			M: kit.Model{Kind: kit.Update, With: [][]kit.Tok{kit.Cat(kit.R("w AS"), kit.Paren(ts))}, Table: kit.I("t"), Assoc: []kit.Assign{{Col: "c", Toks: tv}}}}
	}},
	{"Update.Set pair", kit.Update, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		a, ta := g.Val()
		b, tb := g.Val()
		return kit.H{U: lk.Update("t").Set(lk.Pair("b", s), lk.Pair("a", a)).Where(lk.Condition("c").Equal(b)),
			M: kit.Model{Kind: kit.Update, Table: kit.I("t"), Assoc: []kit.Assign{{Col: "a", Toks: ta}, {Col: "b", Toks: kit.Paren(ts)}}, Where: kit.Binary(kit.I("c"), "=", tb)}}
	}},
	{"Update.Set map", kit.Update, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		a, ta := g.Val()
		return kit.H{U: lk.Update("t").Set(lk.Map{"b": s, "c": s, "a": a}),
			M: kit.Model{Kind: kit.Update, Table: kit.I("t"), Assoc: []kit.Assign{{Col: "a", Toks: ta}, {Col: "b", Toks: kit.Paren(ts)}, {Col: "c", Toks: kit.Paren(ts)}}}}
	}},
	{"Using", kit.Update, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		return kit.H{U: lk.Update("t").Set("a", "b").Using(s), M: kit.Model{Kind: kit.Update, Table: kit.I("t"), SetCols: []string{"a", "b"}, SetExprs: [][]kit.Tok{ts}}}
	}},
	{"Using several", kit.Update, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		a, ta := g.Val()
		return kit.H{U: lk.Update("t").Set("a", "b", "c").Using(s, a).Using(s), M: kit.Model{Kind: kit.Update, Table: kit.I("t"), SetCols: []string{"a", "b", "c"}, SetExprs: [][]kit.Tok{kit.Paren(ts), ta, kit.Paren(ts)}}}
	}},
	{"Values", kit.Insert, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		return kit.H{N: lk.Insert("t").Columns("a").Values(s), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.I("a"), Values: kit.Paren(kit.Paren(ts))}}
	}},
	{"Values several", kit.Insert, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		a, ta := g.Val()
		return kit.H{N: lk.Insert("t").Values(a, s, s).Returning("z"), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.Paren(kit.List(ta, kit.Paren(ts), kit.Paren(ts))), Returning: kit.I("z")}}
	}},
	{"Values slice", kit.Insert, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		a, ta := g.Val()
		return kit.H{N: lk.Insert("t").Values([]interface{}{s, a}), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.Paren(kit.List(kit.Paren(ts), ta))}}
	}},
	{"Values rows", kit.Insert, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		a, ta := g.Val()
		return kit.H{N: lk.Insert("t").Values([][]interface{}{{a}, {s}}), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.List(kit.Paren(ta), kit.Paren(kit.Paren(ts)))}}
	}},
	{"Values expressions", kit.Insert, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		a, ta := g.Val()
		return kit.H{N: lk.Insert("t").Values([][]stmt.Expression{{stmt.NewExpression(s), stmt.NewExpression(a)}}), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.Paren(kit.List(kit.Paren(ts), ta))}}
	}},
	{"Insert.Set", kit.Insert, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		a, ta := g.Val()
		return kit.H{N: lk.Insert("t").Set(lk.Map{"b": s}, lk.Pair("a", a)), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.List(kit.I("a"), kit.I("b")), Values: kit.Paren(kit.List(ta, kit.Paren(ts)))}}
	}},
	{"Insert.Set alone", kit.Insert, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		return kit.H{N: lk.Insert("t").Set(lk.Pair("a", s)), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.I("a"), Values: kit.Paren(kit.Paren(ts))}}
	}},
	{"DoUpdate", kit.Insert, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		a, ta := g.Val()
		b, tb := g.Val()
		return kit.H{N: lk.Insert("t").Columns("k").Values(a).OnConflict("k", lk.DoUpdate(lk.Pair("y", s), lk.Map{"z": b})).Returning("r"),
			M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.I("k"), Values: kit.Paren(ta), Returning: kit.I("r"),
				Conflict: kit.Cat(kit.Paren(kit.I("k")), kit.R("DO UPDATE SET"), kit.I("y"), kit.R("="), kit.Paren(ts), kit.P(","), kit.I("z"), kit.R("="), tb)}}
	}},
	{"selected EXISTS", kit.Select, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		v, tv := g.Val()
		return kit.H{S: lk.Select("a", lk.Exists(s), "b").From("t").Where(lk.Condition("c").Equal(v)),
			M: kit.Model{Kind: kit.Select, Exprs: kit.Cat(kit.I("a"), kit.R(", EXISTS"), kit.Paren(ts), kit.P(","), kit.I("b")), From: kit.I("t"), Where: kit.Binary(kit.I("c"), "=", tv)}}
	}},
	{"selected NOT EXISTS", kit.Select, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		return kit.H{S: lk.Select(lk.NotExists(s)), M: kit.Model{Kind: kit.Select, Exprs: kit.Cat(kit.R("NOT EXISTS"), kit.Paren(ts))}}
	}},
	{"returned EXISTS", kit.Delete, func(g *kit.Gen, s interface{}, ts []kit.Tok) kit.H {
		return kit.H{D: lk.Delete("t").Returning("a", lk.Exists(s)), M: kit.Model{Kind: kit.Delete, From: kit.I("t"), Returning: kit.Cat(kit.I("a"), kit.R(", EXISTS"), kit.Paren(ts))}}
	}},
}

// nPositions is the number of positions of a subquery.
var nPositions = len(subUses)*len(subPlaces) + len(subSlots)

// positionOf builds a statement with the subquery at position k.
func positionOf(x *engine.X, g *kit.Gen, k int, f subForm, s lkSelect, ts []kit.Tok) (h kit.H) {
	if k < len(subSlots) {
		p := subSlots[k]
		x.Op("%s as %s", f.name, p.name)
		must(x, "position", fmt.Sprintf("a %s as %s", f.name, p.name), func() { h = p.f(g, f.of(s), ts) })
		return h
	}
	k -= len(subSlots)
	u, p := subUses[k%len(subUses)], subPlaces[k/len(subUses)]
	x.Op("%s as operand of %s, %s", f.name, u.name, p.name)
	must(x, "position", fmt.Sprintf("a %s as operand of %s, %s", f.name, u.name, p.name), func() {
		c, tc := u.f(g, f.of(s), ts)
		h = p.f(g, c, tc)
	})
	return h
}

// selectPositions are those of selects.
var selectPositions = func() []int {
	var out []int
	for k := 0; k < nPositions; k++ {
		if k < len(subSlots) {
			if subSlots[k].kind == kit.Select {
				out = append(out, k)
			}
		} else if subPlaces[(k-len(subSlots))/len(subUses)].kind == kit.Select {
			out = append(out, k)
		}
	}
	return out
}()

// innerPositions are the select positions used inside of others: every use,
// in the WHERE clause, and every slot.
var innerPositions = func() []int {
	var out []int
	for _, k := range selectPositions {
		if k < len(subSlots) || (k-len(subSlots))/len(subUses) == 0 {
			out = append(out, k)
		}
	}
	return out
}()

// c14Positions: every position, form and shape of the subquery.
func c14Positions(x *engine.X) {
	g := &kit.Gen{C: x, Depth: 2, NoComment: true}
	k := x.Pick(nPositions, "position")
	f := subForms[x.Pick(len(subForms), "form")]
	g.Alike = x.Choose(2, "names alike") == 1
	h := g.SelectStmt()
	ts, _ := h.M.Body()
	o := positionOf(x, g, k, f, h.S, ts)
	verify(x, o, kit.FAll, "position", "statement with a subquery")
	// The subquery is still itself.
	verify(x, h, kit.FQuery, "itself", "the subquery, once embedded")
	x.State(o.M.Key())
}

// bareExists: an EXISTS needs no parentheses of its own as an operand of And
// and Or.
func bareExists(t []kit.Tok) []kit.Tok {
	if len(t) > 2 && t[0].S == "(" && (t[1].S == "EXISTS" || t[1].S == "NOT" && t[2].S == "EXISTS") {
		return t[1 : len(t)-1]
	}
	return t
}

func simpleSub(g *kit.Gen) (lkSelect, []kit.Tok) {
	a, ta := g.Val()
	b, tb := g.Val()
	return lk.Select("s").From("u").Where(lk.Condition("p").Equal(a)).And(lk.Condition("q").Equal(b)),
		kit.Cat(kit.R("SELECT"), kit.I("s"), kit.R("FROM"), kit.I("u"), kit.R("WHERE"), kit.Binary(kit.Binary(kit.I("p"), "=", ta), "AND", kit.Binary(kit.I("q"), "=", tb)))
}

// c14Nested: subqueries in subqueries.
func c14Nested(levels int) func(x *engine.X) {
	return func(x *engine.X) {
		g := &kit.Gen{C: x, NoComment: true}
		s, ts := simpleSub(g)
		forms := 2
		if levels == 1 {
			forms = len(subForms)
		}
		for i := 0; i < levels; i++ {
			h := positionOf(x, g, innerPositions[x.Pick(len(innerPositions), "inner position")], subForms[x.Pick(forms, "inner form")], s, ts)
			s = h.S
			ts, _ = h.M.Body()
		}
		pos := x.Pick(nPositions, "position")
		o := positionOf(x, g, pos, subForms[0], s, ts)
		verify(x, o, kit.FAll, "nested", "statement with nested subqueries")
		x.State(o.M.Key())
	}
}

// c14Deep: a long chain of nested subqueries through one position.
func c14Deep(x *engine.X) {
	g := &kit.Gen{C: x, NoComment: true}
	s, ts := simpleSub(g)
	k := selectPositions[x.Pick(len(selectPositions), "position")]
	f := subForms[x.Pick(len(subForms), "form")]
	n := tier(x, 12, 33)
	twice := false
	if k >= len(subSlots) {
		switch subUses[(k-len(subSlots))%len(subUses)].name {
		case "In items twice", "NotBetween both":
			twice = true
		}
	}
	if twice && n > 5 {
		n = 5
	}
	for i := 0; i < n; i++ {
		h := positionOf(x, g, k, f, s, ts)
		s = h.S
		ts, _ = h.M.Body()
		verify(x, h, kit.FAll, "deep", fmt.Sprintf("statement with %d levels of subqueries", i+1))
	}
	x.State(kit.Text(ts))
}

// c14Pairs: two different subqueries in one statement.
func c14Pairs(x *engine.X) {
	g := &kit.Gen{C: x, NoComment: true}
	s, ts := simpleSub(g)
	r, tr := simpleSub(g)
	shared := x.Pick(3, "shared")
	if shared > 0 {
		r, tr = s, ts
	}
	u1, u2 := subUses[x.Pick(len(subUses), "first use")], subUses[x.Pick(len(subUses), "second use")]
	f1, f2 := subForms[x.Pick(2, "form")], subForms[x.Pick(2, "form")]
	var c1, c2 stmt.Expression
	var t1, t2 []kit.Tok
	must(x, "pair", "building two conditions", func() {
		c1, t1 = u1.f(g, f1.of(s), ts)
		c2, t2 = u2.f(g, f2.of(r), tr)
		if shared == 2 {
			c2, t2 = c1, t1
		}
	})
	x.Op("%s and %s", u1.name, u2.name)
	var h kit.H
	must(x, "pair", "giving two conditions", func() {
		switch x.Pick(5, "places") {
		case 0:
			h.S = lk.Select("a").From("t").Where(c1).And(c2)
			h.M = kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("t"), Where: kit.Binary(t1, "AND", t2)}
		case 1:
			h.S = lk.Select("a").From("t").Having(c2).Where(c1)
			h.M = kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("t"), Where: t1, Having: t2}
		case 2:
			h.D = lk.Delete("t").Where(lk.Or(c1, c2))
			h.M = kit.Model{Kind: kit.Delete, From: kit.I("t"), Where: kit.Binary(bareExists(t1), "OR", bareExists(t2))}
		case 3:
			h.U = lk.Update("t").Where(c2).Set(lk.Pair("z", r)).With(lk.With("w", s)).Or(c1)
			h.M = kit.Model{Kind: kit.Update, With: [][]kit.Tok{kit.Cat(kit.R("w AS"), kit.Paren(ts))}, Table: kit.I("t"), Assoc: []kit.Assign{{Col: "z", Toks: kit.Paren(tr)}}, Where: kit.Binary(t2, "OR", t1)}
		case 4:
			h.S = lk.Select(lk.Exists(r)).From("t").Join(stmt.NewRightJoin(lk.Table("j"), c1)).With(lk.With("w", s)).Where(c2)
			h.M = kit.Model{Kind: kit.Select, With: [][]kit.Tok{kit.Cat(kit.R("w AS"), kit.Paren(ts))}, Exprs: kit.Cat(kit.R("EXISTS"), kit.Paren(tr)), From: kit.I("t"),
				Joins: [][]kit.Tok{kit.Cat(kit.R("RIGHT JOIN"), kit.I("j"), kit.R("ON"), t1)}, Where: t2}
		}
	})
	verify(x, h, kit.FAll, "pair", "statement with several subqueries")
	x.State(h.M.Key())
}

// productPositions: a position of each sort.
var productPositions = func() []int {
	out := []int{len(subSlots) + useNamed("In")}
	names := map[string]bool{"WITH of a select": true, "Using": true, "Values several": true, "DoUpdate": true, "selected EXISTS": true}
	for k, s := range subSlots {
		if names[s.name] {
			out = append(out, k)
		}
	}
	return append(out, len(subSlots)+useNamed("NotExists"))
}()

func useNamed(name string) int {
	for k, u := range subUses {
		if u.name == name {
			return k
		}
	}
	panic("checks: no use " + name)
}

// c14Product: a subquery with every combination of the variants of its
// clauses.
func c14Product(x *engine.X) {
	g := &kit.Gen{C: x, NoComment: true}
	k := productPositions[x.Pick(tier(x, 3, len(productPositions)), "position")]
	f := subForms[[]int{0, 5}[x.Pick(tier(x, 1, 2), "form")]]
	g.Free, g.Alike = true, x.PickBool("names alike")
	h := g.SelectStmt()
	g.Free = false
	ts, _ := h.M.Body()
	o := positionOf(x, g, k, f, h.S, ts)
	verify(x, o, kit.FQuery, "product", "statement with a subquery")
	x.State(o.M.Key())
}

// c14Combined: every combination of the clauses of the subquery, in one
// variant or another of each, everywhere.
func c14Combined(x *engine.X) {
	g := &kit.Gen{C: x, NoComment: true}
	var k int
	if x.Thorough {
		k = x.Pick(nPositions, "position")
	} else {
		k = combinedPositions[x.Pick(len(combinedPositions), "position")]
	}
	f := subForms[x.Pick(tier(x, 1, 2), "form")*5]
	g.Free, g.Two = true, 1+k
	g.Alike = x.PickBool("names alike")
	h := g.SelectStmt()
	g.Free = false
	ts, _ := h.M.Body()
	o := positionOf(x, g, k, f, h.S, ts)
	verify(x, o, kit.FQuery, "combined", "statement with a subquery")
	x.State(o.M.Key())
}

// combinedPositions: every use, in the WHERE clause of a select, and every slot.
var combinedPositions = func() []int {
	var out []int
	for k := 0; k < len(subSlots)+len(subUses); k++ {
		out = append(out, k)
	}
	return out
}()

func init() {
	register("C14", func() engine.Check {
		return engine.Check{ID: "C14", Scenarios: []engine.Scenario{
			{Name: "positions", Fn: c14Positions, Quick: 1, Thorough: 2,
				Bounds: fmt.Sprintf("%d positions (%d uses in conditions x %d places, %d other places) x %d forms of the subquery x its shapes with 1 (thorough 2) non-default variants", nPositions, len(subUses), len(subPlaces), len(subSlots), len(subForms))},
			{Name: "product", Fn: c14Product,
				Bounds: fmt.Sprintf("every combination of the variants of all the clauses of the subquery at once, distinct names and calls in grammar order or names alike and calls reversed, at 3 (thorough %d) positions, as a builder (thorough: or a commented statement)", len(productPositions))},
			{Name: "combined", Fn: c14Combined,
				Bounds: fmt.Sprintf("every combination of the presence of 12 clauses of the subquery, each in a variant that depends on the position, x names distinct or alike (and calls reversed), at %d (thorough %d) positions", len(combinedPositions), nPositions)},
			{Name: "two levels", Fn: c14Nested(1), Bounds: fmt.Sprintf("%d inner positions x %d forms x every position", len(innerPositions), len(subForms))},
			{Name: "three levels", Fn: c14Nested(2), ThoroughOnly: true, Bounds: fmt.Sprintf("%d x %d inner positions x 2 forms at each level x every position", len(innerPositions), len(innerPositions))},
			{Name: "deep", Fn: c14Deep, Bounds: "every select position nested 12 (thorough 33) times in itself, in every form"},
			{Name: "pairs", Fn: c14Pairs, Bounds: fmt.Sprintf("%d x %d uses of two subqueries, or of the same one, or the very same condition twice x 4 forms x 5 pairs of clauses", len(subUses), len(subUses))},
		}}
	})
}
