package checks

import (
	"fmt"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
	"verifmc/pg"
)

// zero is the chooser of the default variants.
type zero struct{}

func (zero) Choose(int, string) int { return 0 }
func (zero) Pick(int, string) int   { return 0 }

// tree is a binary tree of AND and OR.
type tree struct {
	op   string
	l, r *tree
}

var treeCache = map[int][]*tree{}

// trees lists all the binary trees of n leaves.
func trees(n int) []*tree {
	if t, ok := treeCache[n]; ok {
		return t
	}
	var out []*tree
	if n == 1 {
		out = []*tree{{}}
	}
	for k := 1; k < n; k++ {
		for _, l := range trees(k) {
			for _, r := range trees(n - k) {
				out = append(out, &tree{"AND", l, r}, &tree{"OR", l, r})
			}
		}
	}
	treeCache[n] = out
	return out
}

const nLeafForms = 15 + 15

// leafCond builds a predicate.
func leafCond(g *kit.Gen, k int) (stmt.Expression, []kit.Tok) {
	if k < 15 {
		return g.CondForm(k)
	}
	c := g.Name()
	id := lk.Condition(c)
	sub := func() (stmt.Expression, []kit.Tok) {
		v, tv := g.Val()
		w, tw := g.Val()
		s := lk.Select("s").From(c).Where(lk.Condition("p").Equal(v)).Or(lk.Condition("q").Between(w, lk.Raw("r")))
		return s.Statement().(stmt.Expression), kit.Cat(kit.R("SELECT"), kit.I("s"), kit.R("FROM"), kit.I(c), kit.R("WHERE"),
			kit.Binary(kit.Binary(kit.I("p"), "=", tv), "OR", kit.Paren(kit.I("q"), kit.R("BETWEEN"), tw, kit.R("AND r"))))
	}
	switch k {
	case 15:
		s, ts := sub()
		return lk.Exists(s), kit.Cat(kit.R("EXISTS"), kit.Paren(ts))
	case 16:
		s, ts := sub()
		return lk.NotExists(s), kit.Cat(kit.R("NOT EXISTS"), kit.Paren(ts))
	case 17:
		s, ts := sub()
		return s, kit.Paren(ts)
	case 18:
		s, ts := sub()
		return id.NotIn(s), kit.Cat(kit.I(c), kit.R("NOT IN"), kit.Paren(ts))
	case 19:
		return lk.On(c+".a", c+".b"), kit.Cat(kit.I(c+".a"), kit.R("="), kit.I(c+".b"))
	case 20:
		return lk.Raw("NOT " + c), kit.R("NOT " + c)
	case 21:
		return lk.Raw(c + " IS NOT NULL"), kit.R(c + " IS NOT NULL")
	case 22:
		v, tv := g.Val()
		return lk.Value(v), tv
	case 23:
		return stmt.NewCall("f", lk.Raw(c)), kit.R("f(" + c + ")")
	case 24:
		s, ts := sub()
		return id.Between(s, lk.Raw("z")), kit.Cat(kit.I(c), kit.R("BETWEEN"), kit.Paren(ts), kit.R("AND z"))
	case 25:
		l, tl := g.CondForm(0)
		r, tr := g.CondForm(2)
		return id.Equal(lk.Or(l, r)), kit.Cat(kit.I(c), kit.R("="), kit.Binary(tl, "OR", tr))
	case 26:
		l, tl := g.CondForm(0)
		return id.Between(lk.And(l, lk.Raw("x")), lk.Raw("y")), kit.Cat(kit.I(c), kit.R("BETWEEN"), kit.Binary(tl, "AND", kit.R("x")), kit.R("AND y"))
	case 27:
		return lk.Raw("(" + c + " IS NULL)"), kit.Paren(kit.R(c + " IS NULL"))
	case 28:
		// In parentheses at both ends, but not as a whole.
		return lk.Raw("(" + c + ") IS (TRUE)"), kit.Cat(kit.Paren(kit.R(c)), kit.R("IS"), kit.Paren(kit.R("TRUE")))
	default:
		return lk.Condition(lk.Raw(c + " + 1")).NotLike(lk.Raw("y")), kit.Cat(kit.R(c+" + 1"), kit.R("NOT LIKE y"))
	}
}

type andOr interface {
	And(stmt.Expression) stmt.InfixExpression
	Or(stmt.Expression) stmt.InfixExpression
}

func combine(x *engine.X, op string, l, r stmt.Expression) stmt.Expression {
	switch x.Choose(4, "route of "+op) {
	case 1:
		if m, ok := l.(andOr); ok {
			if op == "AND" {
				return m.And(r)
			}
			return m.Or(r)
		}
		x.Skip()
	case 2:
		if op == "AND" {
			return stmt.NewInfixExpression(l, stmt.NewAndOperator(), r)
		}
		return stmt.NewInfixExpression(l, stmt.NewOrOperator(), r)
	case 3:
		return stmt.NewInfixExpression(l, stmt.NewLogicalOperator(types.LogicalOperator(op)), r)
	}
	if op == "AND" {
		return lk.And(l, r)
	}
	return lk.Or(l, r)
}

func combineOn(x *engine.X, op string, l, r stmt.OnExpression) stmt.OnExpression {
	switch x.Choose(4, "route of "+op) {
	case 1:
		if op == "AND" {
			return l.And(r)
		}
		return l.Or(r)
	case 2:
		if op == "AND" {
			return stmt.NewInfixOnExpression(l, stmt.NewAndOperator(), r)
		}
		return stmt.NewInfixOnExpression(l, stmt.NewOrOperator(), r)
	case 3:
		return stmt.NewInfixOnExpression(l, stmt.NewLogicalOperator(types.LogicalOperator(op)), r)
	}
	if op == "AND" {
		return lk.AndOn(l, r)
	}
	return lk.OrOn(l, r)
}

// builtCond is a condition, its formula, and its left spine.
type builtCond struct {
	e    stmt.Expression
	f    *pg.Formula
	l, r *builtCond
	op   string
}

func parseModel(x *engine.X, t []kit.Tok) *pg.Formula {
	f, err := pg.ParseBool(kit.PG(t))
	if err != nil {
		panic(err)
	}
	return f
}

func buildTree(x *engine.X, g *kit.Gen, t *tree) *builtCond {
	if t.op == "" {
		e, toks := leafCond(g, x.Choose(nLeafForms, "leaf"))
		return &builtCond{e: e, f: parseModel(x, toks)}
	}
	l, r := buildTree(x, g, t.l), buildTree(x, g, t.r)
	return &builtCond{e: combine(x, t.op, l.e, r.e), f: &pg.Formula{Op: t.op, Kids: []*pg.Formula{l.f, r.f}}, l: l, r: r, op: t.op}
}

// clauseTruth compares a clause of a rendered statement with a formula.
func clauseTruth(x *engine.X, key string, q string, clause string, inside string, want *pg.Formula) {
	x.Checked()
	toks, err := pg.Lex(q, pg.Options{})
	if err != nil {
		x.Fail(key, "%v in %s", err, q)
	}
	if inside != "" {
		toks = insideParens(toks, inside)
		if toks == nil {
			x.Fail(key, "no %s ( ... ) in %s", inside, q)
		}
	}
	cs := pg.Find(pg.Clauses(toks), clause)
	if len(cs) != 1 {
		x.Fail(key, "%d %s clauses in %s", len(cs), clause, q)
	}
	got, err := pg.ParseBool(cs[0].Toks)
	if err != nil {
		x.Fail(key, "%v\n  in %s", err, q)
	}
	if err := pg.SameTruth(want, got); err != nil {
		x.Fail(key, "%v\n  in %s", err, q)
	}
}

// insideParens gives the tokens of the parentheses that follow a word.
func insideParens(toks []pg.Tok, word string) []pg.Tok {
	for i, t := range toks {
		if t.K != pg.Word || t.S != word || i+1 >= len(toks) || toks[i+1].S != "(" {
			continue
		}
		depth := 0
		for j := i + 1; j < len(toks); j++ {
			if toks[j].K != pg.Punct {
				continue
			}
			switch toks[j].S {
			case "(":
				depth++
			case ")":
				if depth--; depth == 0 {
					return toks[i+2 : j]
				}
			}
		}
	}
	return nil
}

const c06Positions = 13

// place puts a condition in a statement: the text, the clause where it is and
// the word before the parentheses in which the clause is.
func placeCond(x *engine.X, c *builtCond, pos int) (q, clause, inside string) {
	text := func(r rendered) string { t, _ := r.Query(); return t }
	spine := func(apply func(first bool, op string, e stmt.Expression)) {
		// The statement combines the operands of the left spine.
		var rec func(c *builtCond)
		rec = func(c *builtCond) {
			if c.l == nil {
				apply(true, "", c.e)
				return
			}
			rec(c.l)
			apply(false, c.op, c.r.e)
		}
		rec(c)
	}
	switch pos {
	case 0:
		return text(lk.Select("a").From("t").Where(c.e).OrderBy(lk.Order("a"))), "WHERE", ""
	case 1:
		return text(lk.Update("t").Set(lk.Pair("a", 1)).Where(c.e).Returning("a")), "WHERE", ""
	case 2:
		return text(lk.Delete("t").Where(c.e)), "WHERE", ""
	case 3:
		return text(lk.Select("a").From("t").GroupBy("a").Having(c.e)), "HAVING", ""
	case 4:
		return text(lk.Select("a").From("t").Join(stmt.NewLeftJoin(lk.Table("u"), c.e)).Where(lk.Raw("w"))), "ON", ""
	case 5:
		b := lk.Select("a").From("t")
		spine(func(first bool, op string, e stmt.Expression) {
			switch {
			case first:
				b = b.Where(e)
			case op == "AND":
				b = b.And(e)
			default:
				b = b.Or(e)
			}
		})
		return text(b), "WHERE", ""
	case 6:
		b := lk.Update("t").Set(lk.Pair("a", 1))
		spine(func(first bool, op string, e stmt.Expression) {
			switch {
			case first:
				b = b.Where(e)
			case op == "AND":
				b = b.And(e)
			default:
				b = b.Or(e)
			}
		})
		return text(b), "WHERE", ""
	case 7:
		b := lk.Delete("t")
		spine(func(first bool, op string, e stmt.Expression) {
			switch {
			case first:
				b = b.Where(e)
			case op == "AND":
				b = b.And(e)
			default:
				b = b.Or(e)
			}
		})
		return text(b), "WHERE", ""
	case 8: // successive Where
		b := lk.Select("a").From("t")
		u := lk.Update("t").Set(lk.Pair("a", 1))
		d := lk.Delete("t")
		kind := x.Choose(3, "kind")
		spine(func(first bool, op string, e stmt.Expression) {
			if op == "OR" {
				b, u, d = b.Or(e), u.Or(e), d.Or(e)
			} else {
				b, u, d = b.Where(e), u.Where(e), d.Where(e)
			}
		})
		return text([]rendered{b, u, d}[kind]), "WHERE", ""
	case 9: // stmt.Where methods
		var w stmt.Where
		spine(func(first bool, op string, e stmt.Expression) {
			switch {
			case first:
				w = stmt.NewWhere(e)
			case op == "AND":
				w = w.And(e)
			default:
				w = w.Or(e)
			}
		})
		s := lk.Select("a").From("t").Statement().(stmt.Select)
		s.Where = w
		return text(lk.Select("z").Where(lk.Exists(s))), "WHERE", "EXISTS"
	case 10: // stmt.Having methods
		var w stmt.Having
		spine(func(first bool, op string, e stmt.Expression) {
			switch {
			case first:
				w = stmt.NewHaving(e)
			case op == "AND":
				w = w.And(e)
			default:
				w = w.Or(e)
			}
		})
		s := lk.Select("a").From("t").Statement().(stmt.Select)
		s.Having = w
		return text(lk.Select("z").With(lk.With("cte", s)).From("cte")), "HAVING", "AS"
	case 11: // subquery of a condition of another statement
		return text(lk.Delete("u").Where(lk.Condition("b").In(lk.Select("a").From("t").Where(c.e)))), "WHERE", "IN"
	default: // wrapped condition
		return text(lk.Select("a").From("t").Where(toExpr(stmt.Wrapper{Value: c.e}))), "WHERE", ""
	}
}

func c06Trees(x *engine.X) {
	n := 1 + x.Pick(tier(x, 5, 6), "leaves")
	t := trees(n)[x.Pick(len(trees(n)), "tree")]
	pos := x.Choose(c06Positions, "position")
	g := alikeGen(x.Pick(likenesses, "leaves alike"))
	c := buildTree(x, g, t)
	var q, clause, inside string
	must(x, "condition", "condition "+c.f.String(), func() { q, clause, inside = placeCond(x, c, pos) })
	x.Op("%s at position %d: %s", c.f, pos, q)
	x.State(c.f.String(), fmt.Sprint(pos))
	clauseTruth(x, "condition", q, clause, inside, c.f)
}

// c06Pairs: every operand form beside every other one, with every route.
func c06Pairs(x *engine.X) {
	g := &kit.Gen{C: zero{}}
	leaf := func() *builtCond {
		e, toks := leafCond(g, x.Pick(nLeafForms, "leaf"))
		return &builtCond{e: e, f: parseModel(x, toks)}
	}
	op, op2 := "AND", "OR"
	if x.PickBool("or first") {
		op, op2 = op2, op
	}
	l, r := leaf(), leaf()
	z := &builtCond{e: lk.Condition("z").Equal(1), f: parseModel(x, kit.Binary(kit.I("z"), "=", kit.S(1)))}
	c := &builtCond{e: combine(x, op, l.e, r.e), f: &pg.Formula{Op: op, Kids: []*pg.Formula{l.f, r.f}}, l: l, r: r, op: op}
	if x.PickBool("on the right") {
		c = &builtCond{e: combine(x, op2, z.e, c.e), f: &pg.Formula{Op: op2, Kids: []*pg.Formula{z.f, c.f}}, l: z, r: c, op: op2}
	} else {
		c = &builtCond{e: combine(x, op2, c.e, z.e), f: &pg.Formula{Op: op2, Kids: []*pg.Formula{c.f, z.f}}, l: c, r: z, op: op2}
	}
	pos := x.Pick(c06Positions, "position")
	var q, clause, inside string
	must(x, "condition", "condition "+c.f.String(), func() { q, clause, inside = placeCond(x, c, pos) })
	x.Op("%s at position %d: %s", c.f, pos, q)
	x.State(c.f.String(), fmt.Sprint(pos))
	clauseTruth(x, "condition", q, clause, inside, c.f)
}

const likenesses = 4

// likeness numbers the leaves: all distinct, pairs of the same, the other
// pairs of the same, or two in turn.
func likeness(mode, i int) int {
	return []int{i, (i + 1) / 2, i / 2, i % 2}[mode]
}

// alikeGen gives the same conditions, with the same values, several times.
func alikeGen(mode int) *kit.Gen {
	g := &kit.Gen{C: zero{}}
	if mode > 0 {
		g.NameOf = func(i int) string { return fmt.Sprintf("n%d", likeness(mode, i)) }
		g.V = func(int) interface{} { return 7 }
	}
	return g
}

// buildOn builds the tree, whose clauses are those of the given numbers.
func buildOn(x *engine.X, t *tree, n *int, number func(int) int) (stmt.OnExpression, *pg.Formula, string) {
	if t.op == "" {
		*n++
		l, r := fmt.Sprintf("t.a%d", number(*n)), fmt.Sprintf("u.b%d", number(*n))
		f, err := pg.ParseBool(kit.PG(kit.Cat(kit.I(l), kit.R("="), kit.I(r))))
		if err != nil {
			panic(err)
		}
		return lk.On(l, r), f, l + " = " + r
	}
	le, lf, lt := buildOn(x, t.l, n, number)
	re, rf, rt := buildOn(x, t.r, n, number)
	return combineOn(x, t.op, le, re), &pg.Formula{Op: t.op, Kids: []*pg.Formula{lf, rf}}, lt + " " + t.op + " " + rt
}

// c06On: trees of ON clauses, through every form of join.
func c06On(x *engine.X) {
	n := 1 + x.Pick(tier(x, 5, 6), "leaves")
	t := trees(n)[x.Pick(len(trees(n)), "tree")]
	k, alike := 0, x.Pick(likenesses, "clauses alike")
	e, f, text := buildOn(x, t, &k, func(i int) int {
		return likeness(alike, i)
	})
	b := lk.Select("a").From("t")
	place := x.Pick(6, "join")
	must(x, "join condition", "join on "+f.String(), func() {
		switch place {
		case 0:
			b = b.Join("u", e)
		case 1:
			b = b.Join(lk.Table("u").As("v"), e, lk.LeftJoin)
		case 2:
			b = b.Join(stmt.NewRightJoin(lk.Table("u"), e.(stmt.Expression)))
		case 3, 4, 5: // as text, which groups from left to right
			for s := t; s.op != ""; s = s.l {
				if s.r.op != "" {
					x.Skip()
				}
			}
			switch place {
			case 3:
				b = b.Join("LEFT JOIN u ON " + text)
			case 4:
				b = b.Join("u", "ON "+text)
			default:
				b = b.Join("u", strings.ToLower(text), lk.RightJoin)
			}
		}
	})
	b = b.Where(lk.Raw("w"))
	q, _ := b.Query()
	x.Op("%s", q)
	x.State(f.String(), fmt.Sprint(place))
	clauseTruth(x, "join condition", q, "ON", "", f)
}

// c06Calls: every sequence of Where, And and Or, on the three builders.
func c06Calls(x *engine.X) {
	kind := []int{kit.Select, kit.Update, kit.Delete}[x.Pick(3, "kind")]
	n := 1 + x.Pick(tier(x, 6, 7), "calls")
	g := alikeGen(x.Choose(likenesses, "operands alike"))
	h := kit.Start(kind)
	if kind == kit.Update {
		h.U = h.U.Set(lk.Pair("a", 1))
	}
	var f *pg.Formula
	for i := 0; i < n; i++ {
		var e stmt.Expression
		var lf *pg.Formula
		op := "AND"
		call := 0
		if i > 0 {
			call = x.Pick(3, "call")
		}
		if call == 2 {
			op = "OR"
		}
		switch k := x.Choose(nLeafForms+4, "operand"); {
		case k < nLeafForms:
			var toks []kit.Tok
			e, toks = leafCond(g, k)
			lf = parseModel(x, toks)
		default:
			// A condition with its own operators.
			t := trees(3)[(k-nLeafForms)*2]
			c := buildTree(x, g, t)
			e, lf = c.e, c.f
		}
		must(x, "calls", "call", func() {
			switch kind {
			case kit.Select:
				h.S = []func(stmt.Expression) lkSelect{h.S.Where, h.S.And, h.S.Or}[call](e)
			case kit.Update:
				h.U = []func(stmt.Expression) lkUpdate{h.U.Where, h.U.And, h.U.Or}[call](e)
			case kit.Delete:
				h.D = []func(stmt.Expression) lkDelete{h.D.Where, h.D.And, h.D.Or}[call](e)
			}
		})
		x.Op("%s %s", []string{"Where", "And", "Or"}[call], lf)
		if f == nil {
			f = lf
		} else {
			f = &pg.Formula{Op: op, Kids: []*pg.Formula{f, lf}}
		}
	}
	h.M.Kind = kind
	q, _ := h.B().Query()
	x.Logf("%s", q)
	x.State(f.String(), fmt.Sprint(kind))
	clauseTruth(x, "calls", q, "WHERE", "", f)
}

var c06Sizes = []int{32, 33, 34, 48, 63, 64, 65, 66, 100, 101, 127, 128, 129, 130, 256, 257, 258}

// c06Deep: deep and long trees, of one form of leaves or of all in turn.
func c06Deep(x *engine.X) {
	ns := tier(x, 20, 100)
	n := 2 + x.Pick(ns+len(c06Sizes), "leaves")
	if n >= ns+2 {
		n = c06Sizes[n-ns-2]
	}
	shape := x.Pick(5, "shape")
	op := x.Pick(5, "operators")
	forms := x.Pick(2, "leaves of all forms")
	pos := x.Pick(c06Positions+1, "position")
	opOf := func(i, level int) string {
		or := false
		switch op {
		case 1:
			or = true
		case 2:
			or = level%2 == 1
		case 3:
			or = level/2%2 == 1
		case 4:
			or = i%3 == 1
		}
		if or {
			return "OR"
		}
		return "AND"
	}
	split := func(from, to, level int) int {
		mid := []int{from + 1, to - 1, (from + to) / 2, from + 1 + (to-from)/3, to - 2}[shape]
		if mid <= from {
			mid = from + 1
		}
		if mid >= to {
			mid = to - 1
		}
		return mid
	}
	if pos == c06Positions {
		var on func(from, to, level int) (stmt.OnExpression, *pg.Formula)
		on = func(from, to, level int) (stmt.OnExpression, *pg.Formula) {
			if to-from == 1 {
				k := from
				e, f, _ := buildOn(x, &tree{}, &k, func(i int) int {
					if forms == 1 {
						return i % 3 // the same few clauses again and again
					}
					return i
				})
				return e, f
			}
			mid := split(from, to, level)
			l, lf := on(from, mid, level+1)
			r, rf := on(mid, to, level+1)
			o := opOf(from, level)
			return combineOn(x, o, l, r), &pg.Formula{Op: o, Kids: []*pg.Formula{lf, rf}}
		}
		e, f := on(0, n, 0)
		var q string
		must(x, "deep", "join", func() {
			q, _ = lk.Select("a").From("t").Join(lk.Table("u"), e).Where(lk.Raw("w")).Query()
		})
		x.Op("ON of %d leaves", n)
		x.State(q)
		clauseTruth(x, "deep", q, "ON", "", f)
		return
	}
	g := &kit.Gen{C: zero{}}
	var build func(from, to, level int) *builtCond
	build = func(from, to, level int) *builtCond {
		if to-from == 1 {
			k := 0
			if forms == 1 {
				k = (from*7 + 3) % nLeafForms
				if k == 7 || k == 22 {
					k = 0 // those have no name: they are not distinct
				}
			}
			e, toks := leafCond(g, k)
			return &builtCond{e: e, f: parseModel(x, toks)}
		}
		mid := split(from, to, level)
		l, r := build(from, mid, level+1), build(mid, to, level+1)
		o := opOf(from, level)
		return &builtCond{e: combine(x, o, l.e, r.e), f: &pg.Formula{Op: o, Kids: []*pg.Formula{l.f, r.f}}, l: l, r: r, op: o}
	}
	c := build(0, n, 0)
	var q, clause, inside string
	must(x, "deep", "a condition", func() { q, clause, inside = placeCond(x, c, pos) })
	x.Op("%d leaves at position %d", n, pos)
	x.State(q, fmt.Sprint(pos))
	clauseTruth(x, "deep", q, clause, inside, c.f)
}

// c06Odd: the structure does not depend on what the conditions contain.
func c06Odd(x *engine.X) {
	h, clause := oddGiven(x)
	want := h.M.Where
	switch clause {
	case "HAVING":
		want = h.M.Having
	case "ON":
		want = h.M.Joins[0][4:]
	}
	var q string
	must(x, "odd", "condition", func() { q, _ = h.B().Query() })
	x.Op("%s", q)
	x.State(q)
	clauseTruth(x, "odd", q, clause, "", parseModel(x, want))
}

func init() {
	register("C06", func() engine.Check {
		return engine.Check{ID: "C06", Scenarios: []engine.Scenario{
			{Name: "calls", Fn: c06Calls, Quick: 1, Thorough: 2,
				Bounds: fmt.Sprintf("every sequence of up to 6 (thorough 7) calls of Where, And, Or on the 3 builders; 1 (thorough 2) operands of any of %d forms or a nested condition", nLeafForms+4)},
			{Name: "pairs", Fn: c06Pairs, Quick: 1, Thorough: 2,
				Bounds: fmt.Sprintf("every pair of %d forms of operands x AND/OR x side x %d positions; 1 (thorough 2) operators by another route", nLeafForms, c06Positions)},
			{Name: "on clauses", Fn: c06On, Quick: 2, Thorough: 3,
				Bounds: "every binary tree of AND/OR up to 5 (thorough 6) ON clauses, 3 forms of join (6 for left-deep ones: as text), 2 (thorough 3) operators by another route"},
			{Name: "odd", Fn: c06Odd,
				Bounds: fmt.Sprintf("every pair of %d conditions of unusual contents (constants, empty and NULL lists, operands compared with themselves, lone operands, equal ones) x AND, OR x 5 routes on the 3 builders, HAVING, ON and repeated Where", nOddConds)},
			{Name: "deep", Fn: c06Deep,
				Bounds: fmt.Sprintf("2 to 21 (thorough 101) leaves and %d sizes up to 258 x 5 shapes (left, right, balanced, uneven) x AND, OR or 3 alternations x leaves of one or of all forms x %d positions or an ON condition", len(c06Sizes), c06Positions)},
			{Name: "trees", Fn: c06Trees, Quick: 2, Thorough: 2,
				Bounds: fmt.Sprintf("every binary tree of AND/OR up to 5 (thorough 6) leaves, 2 deviations among the %d forms of each leaf, 4 routes of each operator and %d positions", nLeafForms, c06Positions)},
		}, Assumptions: []string{"raw SQL given as a condition is a predicate of the PostgreSQL grammar (the caller parenthesises its own AND and OR)"}}
	})
}
