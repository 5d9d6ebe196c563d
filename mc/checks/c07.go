package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
	"verifmc/pg"
)

type defect struct {
	name string
	make func() stmt.Expression
	// list: an empty list, which is a legal operand of IN.
	list bool
	// null: nil, which is NULL as the operand of a comparison.
	null bool
}

// toExpr is v, or its address, as an expression.
func toExpr(v interface{}) stmt.Expression {
	if e, ok := v.(stmt.Expression); ok {
		return e
	}
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p.Interface().(stmt.Expression)
}

// defects are conditions that are not defined.
var defects = func() []defect {
	var out []defect
	add := func(name string, f func() stmt.Expression) { out = append(out, defect{name: name, make: f}) }
	out = append(out, defect{name: "nil", make: func() stmt.Expression { return nil }, null: true})
	add(`Raw("")`, func() stmt.Expression { return lk.Raw("") })
	for _, e := range []struct {
		name string
		id   interface{}
	}{{`""`, ""}, {"nil", nil}, {`Raw("")`, lk.Raw("")}} {
		e := e
		id := func() stmt.Identifier { return lk.Condition(e.id) }
		add("Condition("+e.name+")", func() stmt.Expression { return id() })
		for _, m := range identifierMethods {
			m := m
			add("Condition("+e.name+")."+m.name, func() stmt.Expression { return m.call(id(), 1) })
		}
		add("Condition("+e.name+").In(1, 2)", func() stmt.Expression { return id().In(1, 2) })
		add("Condition("+e.name+").NotIn(1)", func() stmt.Expression { return id().NotIn(1) })
		add("Condition("+e.name+").In(nil)", func() stmt.Expression { return id().In(nil) })
		add("Condition("+e.name+").Between", func() stmt.Expression { return id().Between(1, 2) })
		add("Condition("+e.name+").NotBetween", func() stmt.Expression { return id().NotBetween(1, 2) })
		add("Condition("+e.name+").IsNull(true)", func() stmt.Expression { return id().IsNull(true) })
		add("Condition("+e.name+").IsNull(false)", func() stmt.Expression { return id().IsNull(false) })
	}
	for _, m := range identifierMethods {
		m := m
		add("Condition."+m.name+`(Raw(""))`, func() stmt.Expression { return m.call(lk.Condition("a"), lk.Raw("")) })
	}
	for _, m := range callMethods {
		m := m
		add("Call."+m.name+`(Raw(""))`, func() stmt.Expression { return m.call(stmt.NewCall("f"), lk.Raw("")) })
		add(`NewCall("").`+m.name, func() stmt.Expression { return m.call(stmt.NewCall(""), 1) })
	}
	for _, m := range valueMethods {
		m := m
		add("Value."+m.name+`(Raw(""))`, func() stmt.Expression { return m.call(lk.Value(1), lk.Raw("")) })
	}
	id := lk.Condition("a")
	add(`In(Raw(""))`, func() stmt.Expression { return id.In(lk.Raw("")) })
	add(`NotIn(1, Raw(""))`, func() stmt.Expression { return id.NotIn(1, lk.Raw("")) })
	add(`In(Raw(""), 1)`, func() stmt.Expression { return id.In(lk.Raw(""), 1) })
	add(`In(Condition(""))`, func() stmt.Expression { return id.In(lk.Condition("")) })
	add(`Between(Raw(""), 1)`, func() stmt.Expression { return id.Between(lk.Raw(""), 1) })
	add(`Between(1, Raw(""))`, func() stmt.Expression { return id.Between(1, lk.Raw("")) })
	add(`NotBetween(Condition(""), 1)`, func() stmt.Expression { return id.NotBetween(lk.Condition(""), 1) })
	add(`NotBetween(1, Condition(""))`, func() stmt.Expression { return id.NotBetween(1, lk.Condition("")) })
	add("InfixExpression{}", func() stmt.Expression { return toExpr(stmt.InfixExpression{}) })
	add("In{}", func() stmt.Expression { return toExpr(stmt.In{}) })
	add("Between{}", func() stmt.Expression { return toExpr(stmt.Between{}) })
	add("Identifier{}", func() stmt.Expression { return toExpr(stmt.Identifier{}) })
	add("OnClause{}", func() stmt.Expression { return toExpr(stmt.OnClause{}) })
	add("InfixOnExpression{}", func() stmt.Expression { return toExpr(stmt.InfixOnExpression{}) })
	add("Select{}", func() stmt.Expression { return toExpr(stmt.Select{}) })
	add("NewSelect()", func() stmt.Expression { return stmt.NewSelect() })
	add("Exists{}", func() stmt.Expression { return toExpr(stmt.Exists{}) })
	add("NotExists{}", func() stmt.Expression { return toExpr(stmt.NotExists{}) })
	add("Wrapper{}", func() stmt.Expression { return toExpr(stmt.Wrapper{}) })
	add("nil Wrapper", func() stmt.Expression { return (*stmt.Wrapper)(nil) })
	out = append(out, defect{name: "empty list", make: func() stmt.Expression { return stmt.NewArrayExpression() }, list: true})
	out = append(out, defect{name: "ArrayList{}", make: func() stmt.Expression { return toExpr(stmt.ArrayList{}) }, list: true})
	add(`On("", b)`, func() stmt.Expression { return lk.On("", "b") })
	add(`On(a, "")`, func() stmt.Expression { return lk.On("a", "") })
	add(`AndOn(On(a, ""), ok)`, func() stmt.Expression { return lk.AndOn(lk.On("a", ""), lk.On("a", "b")).(stmt.Expression) })
	add(`OrOn(ok, On("", b))`, func() stmt.Expression { return lk.OrOn(lk.On("a", "b"), lk.On("", "b")).(stmt.Expression) })
	add(`ok.And(nil) of ON`, func() stmt.Expression { return lk.On("a", "b").And(nil).(stmt.Expression) })
	add(`NewCall("")`, func() stmt.Expression { return stmt.NewCall("") })
	add(`NewCall("", x)`, func() stmt.Expression { return stmt.NewCall("", lk.Raw("x")) })
	add(`NewCall(f, x, nil)`, func() stmt.Expression { return stmt.NewCall("f", lk.Raw("x"), nil) })
	add(`NewCall(f, Raw(""))`, func() stmt.Expression { return stmt.NewCall("f", lk.Raw("")) })
	add("no operator", func() stmt.Expression {
		return stmt.NewInfixExpression(lk.Raw("x"), stmt.NewLogicalOperator(""), lk.Raw("y"))
	})
	add("no comparison", func() stmt.Expression {
		return stmt.NewInfixExpression(id, stmt.NewComparisonOperator(""), lk.Value(1))
	})
	add("nil operator", func() stmt.Expression { return stmt.NewInfixExpression(id, nil, lk.Value(1)) })
	return out
}()

type method struct {
	name string
	op   string
	call func(left stmt.Expression, v interface{}) stmt.Expression
}

func idMethod(name, op string, f func(stmt.Identifier, interface{}) stmt.Expression) method {
	return method{name, op, func(l stmt.Expression, v interface{}) stmt.Expression { return f(l.(stmt.Identifier), v) }}
}

var identifierMethods = []method{
	idMethod("Equal", "=", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.Equal(v) }),
	idMethod("NotEqual", "!=", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.NotEqual(v) }),
	idMethod("Is", "IS", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.Is(v) }),
	idMethod("IsNot", "IS NOT", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.IsNot(v) }),
	idMethod("GreaterThan", ">", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.GreaterThan(v) }),
	idMethod("GreaterThanOrEqual", ">=", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.GreaterThanOrEqual(v) }),
	idMethod("LessThan", "<", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.LessThan(v) }),
	idMethod("LessThanOrEqual", "<=", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.LessThanOrEqual(v) }),
	idMethod("Like", "LIKE", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.Like(v) }),
	idMethod("NotLike", "NOT LIKE", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.NotLike(v) }),
	idMethod("ILike", "ILIKE", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.ILike(v) }),
	idMethod("NotILike", "NOT ILIKE", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.NotILike(v) }),
	idMethod("IsDistinctFrom", "IS DISTINCT FROM", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.IsDistinctFrom(v) }),
	idMethod("IsNotDistinctFrom", "IS NOT DISTINCT FROM", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.IsNotDistinctFrom(v) }),
	idMethod("Contains", "@>", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.Contains(v) }),
	idMethod("IsContainedBy", "<@", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.IsContainedBy(v) }),
	idMethod("Overlap", "&&", func(i stmt.Identifier, v interface{}) stmt.Expression { return i.Overlap(v) }),
}

func callMethod(name, op string, f func(stmt.Call, interface{}) stmt.Expression) method {
	return method{name, op, func(l stmt.Expression, v interface{}) stmt.Expression { return f(l.(stmt.Call), v) }}
}

var callMethods = []method{
	callMethod("Equal", "=", func(c stmt.Call, v interface{}) stmt.Expression { return c.Equal(v) }),
	callMethod("GreaterThan", ">", func(c stmt.Call, v interface{}) stmt.Expression { return c.GreaterThan(v) }),
	callMethod("LessThan", "<", func(c stmt.Call, v interface{}) stmt.Expression { return c.LessThan(v) }),
	callMethod("Like", "LIKE", func(c stmt.Call, v interface{}) stmt.Expression { return c.Like(v) }),
	callMethod("ILike", "ILIKE", func(c stmt.Call, v interface{}) stmt.Expression { return c.ILike(v) }),
	callMethod("Overlap", "&&", func(c stmt.Call, v interface{}) stmt.Expression { return c.Overlap(v) }),
}

func valueMethod(name, op string, f func(stmt.Value, interface{}) stmt.Expression) method {
	return method{name, op, func(l stmt.Expression, v interface{}) stmt.Expression { return f(l.(stmt.Value), v) }}
}

var valueMethods = []method{
	valueMethod("Equal", "=", func(l stmt.Value, v interface{}) stmt.Expression { return l.Equal(v) }),
	valueMethod("NotEqual", "!=", func(l stmt.Value, v interface{}) stmt.Expression { return l.NotEqual(v) }),
	valueMethod("Contains", "@>", func(l stmt.Value, v interface{}) stmt.Expression { return l.Contains(v) }),
	valueMethod("IsContainedBy", "<@", func(l stmt.Value, v interface{}) stmt.Expression { return l.IsContainedBy(v) }),
	valueMethod("Overlap", "&&", func(l stmt.Value, v interface{}) stmt.Expression { return l.Overlap(v) }),
}

type nesting struct {
	name string
	f    func(e stmt.Expression) stmt.Expression
	// comparison: nil is NULL there. inList: an empty list is legal there.
	comparison, inList bool
}

// nestings put a condition inside of another one.
var nestings = []nesting{
	{name: "itself", f: func(e stmt.Expression) stmt.Expression { return e }},
	{name: "And(x, .)", f: func(e stmt.Expression) stmt.Expression { return lk.And(lk.Raw("x"), e) }},
	{name: "And(., x)", f: func(e stmt.Expression) stmt.Expression { return lk.And(e, lk.Condition("x").Equal(1)) }},
	{name: "Or(x, .)", f: func(e stmt.Expression) stmt.Expression { return lk.Or(lk.Condition("x").In(1, 2), e) }},
	{name: "Or(., x)", f: func(e stmt.Expression) stmt.Expression { return lk.Or(e, lk.Raw("x")) }},
	{name: "x.And(.)", f: func(e stmt.Expression) stmt.Expression { return lk.Condition("x").Equal(1).And(e) }},
	{name: "x.Or(.)", f: func(e stmt.Expression) stmt.Expression { return lk.Condition("x").Equal(1).Or(e) }},
	{name: "In.And(.)", f: func(e stmt.Expression) stmt.Expression { return lk.Condition("x").In(1).And(e) }},
	{name: "In.Or(.)", f: func(e stmt.Expression) stmt.Expression { return lk.Condition("x").In(1).Or(e) }},
	{name: "And(x, And(y, .))", f: func(e stmt.Expression) stmt.Expression {
		return lk.And(lk.Raw("x"), lk.Or(lk.Raw("y"), lk.And(e, lk.Raw("z"))))
	}},
	{name: "Wrapper", f: func(e stmt.Expression) stmt.Expression { return toExpr(stmt.Wrapper{Value: e}) }},
	{name: "Exists(where)", f: func(e stmt.Expression) stmt.Expression { return lk.Exists(lk.Select("a").From("t").Where(e)) }},
	{name: "NotExists(having)", f: func(e stmt.Expression) stmt.Expression {
		return lk.NotExists(lk.Select("a").From("t").GroupBy("a").Having(e))
	}},
	{name: "In(subquery)", f: func(e stmt.Expression) stmt.Expression {
		return lk.Condition("x").In(lk.Select("a").From("t").Where(lk.Raw("y")).Or(e))
	}},
	{name: "In(subquery of a join)", f: func(e stmt.Expression) stmt.Expression {
		return lk.Condition("x").In(lk.Select("a").From("t").Join(stmt.NewInnerJoin(lk.Table("u"), e)))
	}},
	{name: "Equal(.)", f: func(e stmt.Expression) stmt.Expression { return lk.Condition("x").Equal(e) }, comparison: true},
	{name: "Call.Equal(.)", f: func(e stmt.Expression) stmt.Expression { return stmt.NewCall("f").Equal(e) }, comparison: true},
	{name: "In(.)", f: func(e stmt.Expression) stmt.Expression { return lk.Condition("x").In(e) }, comparison: true, inList: true},
	{name: "In(1, .)", f: func(e stmt.Expression) stmt.Expression { return lk.Condition("x").In(1, e) }, comparison: true},
	{name: "Between(., y)", f: func(e stmt.Expression) stmt.Expression { return lk.Condition("x").Between(e, 1) }, comparison: true},
	{name: "Between(y, .)", f: func(e stmt.Expression) stmt.Expression { return lk.Condition("x").Between(1, e) }, comparison: true},
	{name: "Call(y, .)", f: func(e stmt.Expression) stmt.Expression { return stmt.NewCall("f", lk.Raw("y"), e) }},
}

const c07Places = 16

// c07Place gives a condition to a statement.
func c07Place(k int, e stmt.Expression) rendered {
	ok := lk.Condition("ok").Equal(1)
	sel, upd, del := lk.Select("a").From("t"), lk.Update("t").Set(lk.Pair("a", 1)), lk.Delete("t")
	switch k {
	case 0:
		return sel.Where(e)
	case 1:
		return upd.Where(e)
	case 2:
		return del.Where(e)
	case 3:
		return sel.Where(ok).And(e)
	case 4:
		return upd.Where(ok).And(e)
	case 5:
		return del.Where(ok).And(e)
	case 6:
		return sel.Where(ok).Or(e)
	case 7:
		return upd.Where(ok).Or(e)
	case 8:
		return del.Where(ok).Or(e)
	case 9:
		return sel.Where(ok).Where(e)
	case 10:
		return upd.Where(ok).Where(e)
	case 11:
		return del.Where(ok).Where(e)
	case 12:
		return sel.GroupBy("a").Having(e)
	case 13:
		return sel.Join(stmt.NewInnerJoin(lk.Table("u"), e))
	case 14:
		return del.Where(e).And(ok).Returning("a")
	default:
		s := sel.Statement().(stmt.Select)
		s.Having = stmt.NewHaving(ok).And(e)
		return lk.Select("b").From("u").Where(lk.Condition("b").Equal(s))
	}
}

// c07Defects: an undefined condition, nested anywhere, is refused.
func c07Defects(x *engine.X) {
	d := defects[x.Pick(len(defects), "defect")]
	n1 := nestings[x.Pick(len(nestings), "nesting")]
	n2 := nestings[x.Pick(tier(x, len(nestings), len(nestings)), "outer nesting")]
	if d.null && n1.comparison || d.list && n1.inList {
		x.Skip() // NULL and the empty list are operands there
	}
	if n1.name == "itself" && (d.null && n2.comparison || d.list && n2.inList) {
		x.Skip()
	}
	places := 1
	if n2.name == "itself" || x.Thorough {
		places = c07Places
	}
	place := x.Pick(places, "place")
	x.Op("%s in %s in %s at place %d", d.name, n1.name, n2.name, place)
	x.State(d.name, n1.name, n2.name, fmt.Sprint(place))
	var b rendered
	if p, _ := x.Try(func() { b = c07Place(place, n2.f(n1.f(d.make()))) }); p {
		x.Checked()
		return
	}
	for form, f := range []func() string{
		func() string { q, _ := b.Query(); return q },
		func() string { q, _ := b.NamedQuery(); return q },
		func() string { return b.String() },
	} {
		x.Checked()
		var q string
		if p, _ := x.Try(func() { q = f() }); !p {
			x.Fail("undefined condition", "undefined condition %s in %s in %s was accepted (form %d): %s", d.name, n1.name, n2.name, form, q)
		}
	}
}

func leavesOf(x *engine.X, key, q string, clause string) []string {
	toks, err := pg.Lex(q, pg.Options{})
	if err != nil {
		x.Fail(key, "%v in %s", err, q)
	}
	var out []string
	for _, c := range pg.Find(pg.Clauses(toks), clause) {
		f, err := pg.ParseBool(c.Toks)
		if err != nil {
			x.Fail(key, "%v in the %s clause of %s", err, clause, q)
		}
		out = f.Leaves(out)
	}
	sort.Strings(out)
	return out
}

func sameLeaves(x *engine.X, key, q, clause string, want []string) {
	x.Checked()
	got := leavesOf(x, key, q, clause)
	w := append([]string(nil), want...)
	sort.Strings(w)
	if strings.Join(got, "\x00") != strings.Join(w, "\x00") {
		x.Fail(key, "the %s clause has the conditions %q instead of %q\n  %s", clause, got, w, q)
	}
}

// c07Calls: sequences of calls with valid and undefined operands: the accepted
// ones appear, each once.
func c07Calls(x *engine.X) {
	kind := []int{kit.Select, kit.Update, kit.Delete}[x.Pick(3, "kind")]
	n := 1 + x.Pick(tier(x, 3, 4), "calls")
	h := kit.Start(kind)
	if kind == kit.Update {
		h.U = h.U.Set(lk.Pair("set", 1))
	}
	g := &kit.Gen{C: zero{}}
	same := x.Choose(3, "same column")
	var where, on, having []string
	bad := 0
	for i := 0; i < n; i++ {
		calls := 3
		if kind == kit.Select {
			calls = 5
		}
		call := x.Pick(calls, "call")
		var e stmt.Expression
		var leaves []string
		k := x.Choose(nLeafForms+3+9, "operand")
		switch {
		case k == 0 && same > 0:
			v := i
			if same == 2 {
				v = 1
			}
			e = lk.Condition("same").Equal(v)
			leaves = []string{`"same" = ?`}
		case k < nLeafForms:
			var toks []kit.Tok
			e, toks = leafCond(g, k)
			leaves = parseModel(x, toks).Leaves(nil)
		case k < nLeafForms+3:
			t := trees(3)[k-nLeafForms]
			c := buildTree(x, g, t)
			e, leaves = c.e, c.f.Leaves(nil)
		default:
			bad++
			ds := []string{"nil", `Raw("")`, `Condition("")`, `Condition("").Equal`, `Condition.Equal(Raw(""))`, `Condition("").In(1, 2)`, `In(Raw(""))`, "InfixExpression{}", "empty list"}
			name := ds[k-nLeafForms-3]
			for _, d := range defects {
				if d.name == name {
					e = d.make()
				}
			}
		}
		x.Op("%s %v", []string{"Where", "And", "Or", "Having", "Join"}[call], leaves)
		refused, val := x.Try(func() {
			switch kind {
			case kit.Select:
				switch call {
				case 0:
					h.S = h.S.Where(e)
				case 1:
					h.S = h.S.And(e)
				case 2:
					h.S = h.S.Or(e)
				case 3:
					h.S = h.S.Having(e)
				case 4:
					h.S = h.S.Join(stmt.NewJoin([]types.JoinType{lk.InnerJoin, lk.LeftJoin, lk.RightJoin}[i%3], lk.Table("u"), e))
				}
			case kit.Update:
				h.U = []func(stmt.Expression) lkUpdate{h.U.Where, h.U.And, h.U.Or}[call](e)
			case kit.Delete:
				h.D = []func(stmt.Expression) lkDelete{h.D.Where, h.D.And, h.D.Or}[call](e)
			}
		})
		if refused {
			x.Logf("  refused: %v", val)
			valid := leaves != nil
			if valid && (call == 0 || call == 4 || call == 3 && having == nil || (call == 1 || call == 2) && where != nil) {
				x.Fail("calls", "a condition was refused: %v", val)
			}
			continue
		}
		if leaves == nil {
			// Accepted at the call: it has to be refused at rendering.
			if p, _ := x.Try(func() { h.B().Query() }); !p {
				q, _ := h.B().Query()
				x.Fail("calls", "an undefined condition was accepted: %s", q)
			}
			return
		}
		switch call {
		case 3:
			having = append(having, leaves...)
		case 4:
			on = append(on, leaves...)
		default:
			where = append(where, leaves...)
		}
	}
	q, _ := h.B().Query()
	m, _ := h.B().NamedQuery()
	x.Logf("%s", q)
	x.State(q)
	for _, t := range []string{q, m} {
		sameLeaves(x, "calls", t, "WHERE", where)
		if kind == kit.Select {
			sameLeaves(x, "calls", t, "HAVING", having)
			sameLeaves(x, "calls", t, "ON", on)
		}
	}
}

// c07Trees: every condition nested in another one appears, once.
func c07Trees(x *engine.X) {
	n := 1 + x.Pick(tier(x, 4, 5), "leaves")
	t := trees(n)[x.Pick(len(trees(n)), "tree")]
	g := alikeGen(x.Pick(likenesses, "leaves alike"))
	c := buildTree(x, g, t)
	place := x.Pick(c07Places, "place")
	leaves := c.f.Leaves(nil)
	ok := `"ok" = ?`
	clause := "WHERE"
	switch {
	case place >= 3 && place < 12 || place == 14:
		leaves = append(leaves, ok)
	case place == 12:
		clause = "HAVING"
	case place == 13:
		clause = "ON"
	case place == 15:
		x.Skip()
	}
	var q string
	must(x, "nested", c.f.String(), func() { q, _ = c07Place(place, c.e).Query() })
	x.Op("%s", q)
	x.State(q)
	sameLeaves(x, "nested", q, clause, leaves)
}

// c07Odd: no condition is dropped for what it contains, or repeats.
func c07Odd(x *engine.X) {
	h, clause := oddGiven(x)
	want := h.M.Where
	switch clause {
	case "HAVING":
		want = h.M.Having
	case "ON":
		want = h.M.Joins[0][4:]
	}
	var q, m string
	must(x, "odd", "condition", func() { q, _ = h.B().Query(); m, _ = h.B().NamedQuery() })
	x.Op("%s", q)
	x.State(q)
	leaves := parseModel(x, want).Leaves(nil)
	sameLeaves(x, "odd", q, clause, leaves)
	sameLeaves(x, "odd", m, clause, leaves)
}

// c07Long: a statement given many conditions keeps all of them.
var c07Sizes = []int{100, 128, 129, 256, 257, 512, 1000, 1025, 2049}

func c07Long(x *engine.X) {
	kind := []int{kit.Select, kit.Update, kit.Delete}[x.Pick(3, "kind")]
	ns := tier(x, 70, 300)
	n := 1 + x.Pick(ns+len(c07Sizes), "conditions")
	if n > ns {
		n = c07Sizes[n-ns-1]
	}
	call := x.Pick(4, "call")
	equal := x.Pick(3, "equal ones")
	h := kit.Start(kind)
	if kind == kit.Update {
		h.U = h.U.Set(lk.Pair("set", 1))
	}
	var want []string
	for i := 0; i < n; i++ {
		c := fmt.Sprintf("c%d", i)
		if equal > 0 {
			c = fmt.Sprintf("c%d", i%equal)
		}
		e := lk.Condition(c).Equal(i)
		if equal > 0 {
			e = lk.Condition(c).Equal(7)
		}
		want = append(want, fmt.Sprintf(`"%s" = ?`, c))
		k := call
		if call == 3 {
			k = i % 3
		}
		if i == 0 {
			k = 0
		}
		x.Op("call %d", k)
		switch kind {
		case kit.Select:
			h.S = []func(stmt.Expression) lkSelect{h.S.Where, h.S.And, h.S.Or}[k](e)
		case kit.Update:
			h.U = []func(stmt.Expression) lkUpdate{h.U.Where, h.U.And, h.U.Or}[k](e)
		case kit.Delete:
			h.D = []func(stmt.Expression) lkDelete{h.D.Where, h.D.And, h.D.Or}[k](e)
		}
	}
	q, _ := h.B().Query()
	x.State(q)
	sameLeaves(x, "many", q, "WHERE", want)
}

// c07Deep: conditions nested deeply on one side or on both, and long ON
// conditions.
func c07Deep(x *engine.X) {
	n := 2 + x.Pick(tier(x, 40, 150), "conditions")
	shape := x.Pick(4, "shape")
	op := x.Pick(3, "operator")
	place := x.Pick(4, "place")
	equal := x.PickBool("equal ones")
	var want []string
	name := func(i int) string {
		if equal {
			return "c"
		}
		return fmt.Sprintf("c%d", i)
	}
	isOr := func(i int) bool { return op == 1 || op == 2 && i%2 == 1 }
	if place == 3 {
		// Deep ON conditions.
		leaf := func(i int) stmt.OnClause {
			want = append(want, fmt.Sprintf(`"%s" = "d"`, name(i)))
			return lk.On(name(i), "d")
		}
		var e stmt.OnExpression = leaf(0)
		for i := 1; i < n; i++ {
			l := leaf(i)
			var a, b stmt.OnExpression = e, l
			if shape%2 == 1 {
				a, b = l, e
			}
			switch {
			case shape < 2 && isOr(i):
				e = stmt.NewInfixOnExpression(a, stmt.NewOrOperator(), b)
			case shape < 2:
				e = stmt.NewInfixOnExpression(a, stmt.NewAndOperator(), b)
			case isOr(i):
				e = a.Or(b)
			default:
				e = a.And(b)
			}
		}
		x.Op("ON of %d", n)
		var q string
		must(x, "deep", "Join", func() {
			q, _ = lk.Select("a").From("t").Join(stmt.NewInnerJoin(lk.Table("j"), e.(stmt.Expression))).Query()
		})
		x.State(q)
		sameLeaves(x, "deep", q, "ON", want)
		return
	}
	leaf := func(i int) stmt.Expression {
		want = append(want, fmt.Sprintf(`"%s" = ?`, name(i)))
		return lk.Condition(name(i)).Equal(7)
	}
	join := func(i int, a, b stmt.Expression) stmt.Expression {
		if isOr(i) {
			return lk.Or(a, b)
		}
		return lk.And(a, b)
	}
	var build func(from, to int) stmt.Expression
	build = func(from, to int) stmt.Expression {
		if to-from == 1 {
			return leaf(from)
		}
		mid := []int{from + 1, to - 1, (from + to) / 2, from + 1 + (to-from)/3}[shape]
		if mid >= to {
			mid = to - 1
		}
		a := build(from, mid)
		return join(from, a, build(mid, to))
	}
	e := build(0, n)
	x.Op("tree of %d", n)
	var q string
	clause := "WHERE"
	must(x, "deep", "condition", func() {
		switch place {
		case 0:
			q, _ = lk.Select("a").From("t").Where(e).Query()
		case 1:
			q, _ = lk.Select("a").From("t").Having(e).Query()
			clause = "HAVING"
		case 2:
			q, _ = lk.Delete("t").Where(e).Query()
		}
	})
	x.State(q)
	sameLeaves(x, "deep", q, clause, want)
}

func init() {
	register("C07", func() engine.Check {
		return engine.Check{ID: "C07", Scenarios: []engine.Scenario{
			{Name: "undefined conditions", Fn: c07Defects,
				Bounds: fmt.Sprintf("%d undefined conditions x %d x %d nestings x %d places (all the places for a single nesting; thorough: for both)", len(defects), len(nestings), len(nestings), c07Places)},
			{Name: "odd", Fn: c07Odd, Bounds: fmt.Sprintf("every pair of %d conditions of unusual contents (constants, empty and NULL lists, operands compared with themselves, lone operands, equal ones) x AND, OR x 5 routes on the 3 builders, HAVING, ON and repeated Where", nOddConds)},
			{Name: "long", Fn: c07Long, Bounds: "1 to 70 (thorough 300) conditions and 9 sizes up to 2049, distinct or equal, by Where, And, Or or the three in turn, on the 3 builders"},
			{Name: "deep", Fn: c07Deep, Bounds: "2 to 41 (thorough 151) conditions nested in 4 shapes x AND, OR or both in turn x WHERE, HAVING, ON x distinct or equal"},
			{Name: "nested", Fn: c07Trees, Quick: 2, Thorough: 2,
				Bounds: fmt.Sprintf("trees of up to 4 (thorough 5) leaves, 2 deviations among %d leaf forms and 4 routes, %d places", nLeafForms, c07Places)},
			{Name: "calls", Fn: c07Calls, Quick: 2, Thorough: 3,
				Bounds: "every sequence of up to 3 (thorough 4) calls among Where, And, Or, Having, Join on the 3 builders, 2 (thorough 3) operands of another form, nested or undefined, the callers going on after a refusal"},
		}}
	})
}
