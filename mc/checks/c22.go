package checks

import (
	"fmt"
	"time"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// operand is something compared.
type operand struct {
	name string
	// make gives the operand of number i.
	make func(i int) (interface{}, []kit.Tok)
}

var operands = func() []operand {
	var out []operand
	add := func(name string, f func(i int) (interface{}, []kit.Tok)) { out = append(out, operand{name, f}) }
	cells := []string{"value", "nil", "raw", "subquery", "call", "[]string", "[]int64", "expression", "nil *time.Time", "Value(nil)", "map", "empty string", "empty bytes", "empty list", "array type", "identifier"}
	for k, name := range cells {
		k := k
		add(name, func(i int) (interface{}, []kit.Tok) { return cellForm(k, i) })
	}
	add("subquery statement", func(i int) (interface{}, []kit.Tok) {
		s, t := cellForm(3, i)
		return s.(lkSelect).Statement(), t
	})
	add("commented subquery", func(i int) (interface{}, []kit.Tok) {
		s, t := cellForm(3, i)
		return s.(lkSelect).Comment("c"), t
	})
	add("list", func(i int) (interface{}, []kit.Tok) {
		return stmt.NewArrayExpression(i, "x", nil), kit.List(kit.S(i), kit.S("x"), kit.R("NULL"))
	})
	add("rows", func(i int) (interface{}, []kit.Tok) {
		return stmt.NewArrayListExpression([][]int{{i, 1}, {2, 3}}), kit.List(kit.Paren(kit.List(kit.S(i), kit.S(1))), kit.Paren(kit.List(kit.S(2), kit.S(3))))
	})
	add("string encoder", func(i int) (interface{}, []kit.Tok) {
		s := fmt.Sprintf("enc%d", i)
		return strEnc{s}, kit.S(s)
	})
	add("integer encoder", func(i int) (interface{}, []kit.Tok) { return intEnc{int64(i)}, kit.S(int64(i)) })
	add("boolean encoder", func(i int) (interface{}, []kit.Tok) { return boolEnc{i%2 == 0}, kit.S(i%2 == 0) })
	add("time encoder", func(i int) (interface{}, []kit.Tok) {
		t := time.Unix(int64(i), 0).UTC()
		return timeEnc{t}, kit.S(t)
	})
	add("*time.Time", func(i int) (interface{}, []kit.Tok) {
		t := time.Unix(int64(i), 0).UTC()
		return &t, kit.S(t)
	})
	add("false", func(i int) (interface{}, []kit.Tok) { return false, kit.S(false) })
	add("zero", func(i int) (interface{}, []kit.Tok) { return 0, kit.S(0) })
	add("comparison", func(i int) (interface{}, []kit.Tok) {
		return lk.Condition("k").Equal(i), kit.Binary(kit.I("k"), "=", kit.S(i))
	})
	add("IN", func(i int) (interface{}, []kit.Tok) {
		return lk.Condition("k").NotIn(i, 2), kit.Paren(kit.I("k"), kit.R("NOT IN"), kit.Paren(kit.List(kit.S(i), kit.S(2))))
	})
	add("BETWEEN", func(i int) (interface{}, []kit.Tok) {
		return lk.Condition("k").Between(i, 2), kit.Paren(kit.I("k"), kit.R("BETWEEN"), kit.S(i), kit.R("AND"), kit.S(2))
	})
	add("EXISTS", func(i int) (interface{}, []kit.Tok) {
		return lk.Exists(lk.Select("e").From("x").Where(lk.Condition("f").Equal(i))),
			kit.Paren(kit.R("EXISTS"), kit.Paren(kit.R("SELECT"), kit.I("e"), kit.R("FROM"), kit.I("x"), kit.R("WHERE"), kit.Binary(kit.I("f"), "=", kit.S(i))))
	})
	add("NOT EXISTS", func(i int) (interface{}, []kit.Tok) {
		return lk.NotExists(lk.Select("e").From("x")), kit.Paren(kit.R("NOT EXISTS"), kit.Paren(kit.R("SELECT"), kit.I("e"), kit.R("FROM"), kit.I("x")))
	})
	add("conjunction", func(i int) (interface{}, []kit.Tok) {
		return lk.And(lk.Raw("x"), lk.Or(lk.Condition("k").IsNull(true), lk.Raw("y"))), kit.Binary(kit.R("x"), "AND", kit.Binary(kit.Binary(kit.I("k"), "IS", kit.R("NULL")), "OR", kit.R("y")))
	})
	return out
}()

type receiver struct {
	name string
	expr func(i int) stmt.Expression
	toks func(i int) []kit.Tok
}

var (
	idReceivers = []receiver{
		{"a", func(i int) stmt.Expression { return lk.Condition("a") }, func(i int) []kit.Tok { return kit.I("a") }},
		{"s.a", func(i int) stmt.Expression { return lk.Condition("s.a") }, func(i int) []kit.Tok { return kit.I("s.a") }},
		{"Raw", func(i int) stmt.Expression { return lk.Condition(lk.Raw("lower(a)")) }, func(i int) []kit.Tok { return kit.R("lower(a)") }},
		{"keyword", func(i int) stmt.Expression { return stmt.NewIdentifier("NOT") }, func(i int) []kit.Tok { return kit.I("NOT") }},
	}
	valueReceivers = []receiver{
		{"value", func(i int) stmt.Expression { return lk.Value(i) }, func(i int) []kit.Tok { return kit.S(i) }},
		{"text", func(i int) stmt.Expression { return lk.Value("it's") }, func(i int) []kit.Tok { return kit.S("it's") }},
		{"nil", func(i int) stmt.Expression { return lk.Value(nil) }, func(i int) []kit.Tok { return kit.R("NULL") }},
		{"list", func(i int) stmt.Expression { return lk.Value([]string{"a"}) }, func(i int) []kit.Tok { return kit.S([]string{"a"}) }},
		{"false", func(i int) stmt.Expression { return stmt.NewValue(false) }, func(i int) []kit.Tok { return kit.S(false) }},
	}
	callReceivers = []receiver{
		{"F()", func(i int) stmt.Expression { return stmt.NewCall("F") }, func(i int) []kit.Tok { return kit.R("F()") }},
		{"F(a)", func(i int) stmt.Expression { return stmt.NewCall("F", lk.Condition("a")) }, func(i int) []kit.Tok { return kit.Cat(kit.R("F"), kit.Paren(kit.I("a"))) }},
		{"F(1, x, NULL)", func(i int) stmt.Expression {
			return stmt.NewCall("pg_catalog.f", stmt.NewExpression(i), lk.Raw("x"), stmt.NewExpression(nil))
		}, func(i int) []kit.Tok {
			return kit.Cat(kit.R("pg_catalog.f"), kit.Paren(kit.List(kit.S(i), kit.R("x"), kit.R("NULL"))))
		}},
		{"F(G(1))", func(i int) stmt.Expression {
			return stmt.NewCall("F", stmt.NewCall("G", stmt.NewExpression(i)))
		}, func(i int) []kit.Tok { return kit.Cat(kit.R("F"), kit.Paren(kit.R("G"), kit.Paren(kit.S(i)))) }},
	}
)

// condPlaces put a condition in a statement.
var condPlaces = subPlaces

// inPlace verifies a condition in a place.
func inPlace(x *engine.X, g *kit.Gen, what string, p subPlace, c func() (stmt.Expression, []kit.Tok)) {
	var h kit.H
	must(x, "operator", what, func() {
		e, t := c()
		h = p.f(g, e, t)
	})
	verify(x, h, kit.FAll, "operator", what+", "+p.name)
	x.State(h.M.Key())
}

// c22Methods: every method with every receiver and operand.
func c22Methods(x *engine.X) {
	family := x.Pick(3, "family")
	methods := [][]method{identifierMethods, valueMethods, callMethods}[family]
	receivers := [][]receiver{idReceivers, valueReceivers, callReceivers}[family]
	m := methods[x.Pick(len(methods), "method")]
	r := receivers[x.Pick(len(receivers), "receiver")]
	o := operands[x.Pick(len(operands), "operand")]
	p := condPlaces[x.Pick(len(condPlaces), "place")]
	shape := x.Pick(5, "shape")
	what := fmt.Sprintf("%s.%s(%s)", r.name, m.name, o.name)
	x.Op("%s", what)
	inPlace(x, &kit.Gen{C: x}, what, p, func() (stmt.Expression, []kit.Tok) {
		v, tv := o.make(3)
		e, t := m.call(r.expr(1), v), kit.Binary(r.toks(1), m.op, tv)
		return shaped(shape, e, t)
	})
}

// shaped puts a condition along with others.
func shaped(shape int, e stmt.Expression, t []kit.Tok) (stmt.Expression, []kit.Tok) {
	other, to := lk.Condition("z").Equal(9), kit.Binary(kit.I("z"), "=", kit.S(9))
	switch shape {
	case 1:
		return lk.And(other, e), kit.Binary(to, "AND", t)
	case 2:
		return lk.Or(e, other), kit.Binary(t, "OR", to)
	case 3:
		if i, ok := e.(stmt.InfixExpression); ok {
			return i.And(other).Or(e), kit.Binary(kit.Binary(t, "AND", to), "OR", t)
		}
		return lk.Or(lk.And(e, other), e), kit.Binary(kit.Binary(t, "AND", to), "OR", t)
	case 4:
		return other.And(lk.Or(e, e)), kit.Binary(to, "AND", kit.Binary(t, "OR", t))
	}
	return e, t
}

// c22Between: both bounds of every kind.
func c22Between(x *engine.X) {
	r := idReceivers[x.Pick(len(idReceivers), "receiver")]
	from := operands[x.Pick(len(operands), "from")]
	to := operands[x.Pick(len(operands), "to")]
	not := x.PickBool("not")
	shape := x.Pick(5, "shape")
	p := condPlaces[x.Pick(tier(x, 2, len(condPlaces)), "place")]
	name, op := "Between", "BETWEEN"
	if not {
		name, op = "NotBetween", "NOT BETWEEN"
	}
	what := fmt.Sprintf("%s.%s(%s, %s)", r.name, name, from.name, to.name)
	x.Op("%s", what)
	inPlace(x, &kit.Gen{C: x}, what, p, func() (stmt.Expression, []kit.Tok) {
		f, tf := from.make(3)
		l, tl := to.make(4)
		var e stmt.Expression
		id := r.expr(0).(stmt.Identifier)
		if not {
			e = id.NotBetween(f, l)
		} else {
			e = id.Between(f, l)
		}
		t := kit.Paren(r.toks(0), kit.R(op), tf, kit.R("AND"), tl)
		return shaped(shape, e, t)
	})
}

// c22In: IN and NOT IN on every receiver, with one or several operands.
func c22In(x *engine.X) {
	k := x.Pick(len(idReceivers)+len(callReceivers), "receiver")
	n := 1 + x.Pick(tier(x, 2, 3), "operands")
	not := x.PickBool("not")
	var rec receiver
	isCall := k >= len(idReceivers)
	if isCall {
		rec = callReceivers[k-len(idReceivers)]
	} else {
		rec = idReceivers[k]
	}
	var os []operand
	name := ""
	for i := 0; i < n; i++ {
		o := operands[x.Pick(len(operands), "operand")]
		os = append(os, o)
		name += o.name + " "
	}
	op := "IN"
	if not {
		op = "NOT IN"
	}
	shape := x.Pick(tier(x, 2, 5), "shape")
	what := fmt.Sprintf("%s %s (%s)", rec.name, op, name)
	x.Op("%s", what)
	inPlace(x, &kit.Gen{C: x}, what, condPlaces[0], func() (stmt.Expression, []kit.Tok) {
		var args []interface{}
		var toks [][]kit.Tok
		for i, o := range os {
			v, t := o.make(i + 3)
			args = append(args, v)
			switch {
			case n > 1:
			case o.name == "nil" || o.name == "empty list":
				t = nil
			case o.name == "[]string":
				l := v.([]string)
				t = kit.List(kit.S(l[0]), kit.S(l[1]))
			case o.name == "[]int64":
				l := v.([]int64)
				t = kit.List(kit.S(l[0]), kit.S(l[1]))
			case o.name == "subquery" || o.name == "subquery statement" || o.name == "commented subquery":
				t = t[1 : len(t)-1]
			case o.name == "EXISTS" || o.name == "NOT EXISTS":
				t = t[1 : len(t)-1]
			}
			toks = append(toks, t)
		}
		var e stmt.Expression
		switch {
		case isCall && not:
			e = stmt.NewNotIn(rec.expr(1), stmt.NewArrayExpression(args...))
		case isCall:
			e = rec.expr(1).(stmt.Call).In(args...)
		case not:
			e = rec.expr(1).(stmt.Identifier).NotIn(args...)
		default:
			e = rec.expr(1).(stmt.Identifier).In(args...)
		}
		return shaped(shape, e, kit.Paren(rec.toks(1), kit.R(op), kit.Paren(kit.List(toks...))))
	})
}

// c22Null: IsNull and its likes.
func c22Null(x *engine.X) {
	r := idReceivers[x.Pick(len(idReceivers), "receiver")]
	p := condPlaces[x.Pick(len(condPlaces), "place")]
	shape := x.Pick(5, "shape")
	k := x.Pick(9, "method")
	id := r.expr(0).(stmt.Identifier)
	forms := []struct {
		name string
		e    stmt.Expression
		op   string
		v    []kit.Tok
	}{
		{"IsNull(true)", id.IsNull(true), "IS", kit.R("NULL")},
		{"IsNull(false)", id.IsNull(false), "IS NOT", kit.R("NULL")},
		{"Is(nil)", id.Is(nil), "IS", kit.R("NULL")},
		{"IsNot(nil)", id.IsNot(nil), "IS NOT", kit.R("NULL")},
		{"Is(Raw(TRUE))", id.Is(lk.Raw("TRUE")), "IS", kit.R("TRUE")},
		{"IsNot(Raw(UNKNOWN))", id.IsNot(lk.Raw("UNKNOWN")), "IS NOT", kit.R("UNKNOWN")},
		{"IsDistinctFrom(nil)", id.IsDistinctFrom(nil), "IS DISTINCT FROM", kit.R("NULL")},
		{"IsNotDistinctFrom(nil)", id.IsNotDistinctFrom(nil), "IS NOT DISTINCT FROM", kit.R("NULL")},
		{"IsNotDistinctFrom(false)", id.IsNotDistinctFrom(false), "IS NOT DISTINCT FROM", kit.S(false)},
	}
	f := forms[k]
	x.Op("%s.%s", r.name, f.name)
	inPlace(x, &kit.Gen{C: x}, r.name+"."+f.name, p, func() (stmt.Expression, []kit.Tok) {
		return shaped(shape, f.e, kit.Binary(r.toks(0), f.op, f.v))
	})
}

// c22Nested: comparisons of comparisons of comparisons.
func c22Nested(x *engine.X) {
	depth := tier(x, 2, 3)
	n := 0
	var build func(d int) (interface{}, []kit.Tok)
	build = func(d int) (interface{}, []kit.Tok) {
		if d == 0 {
			n++
			return n, kit.S(n)
		}
		family := x.Pick(3, "family")
		methods := [][]method{identifierMethods, valueMethods, callMethods}[family]
		m := methods[x.Pick(len(methods), "method")]
		n++
		i := n
		r := [][]receiver{idReceivers, valueReceivers, callReceivers}[family][family]
		v, tv := build(d - 1)
		return m.call(r.expr(i), v), kit.Binary(r.toks(i), m.op, tv)
	}
	e, t := build(depth)
	x.Op("%s", kit.Text(t))
	h := kit.H{S: lk.Select("a").From("f").Where(e.(stmt.Expression)), M: whereModel(t)}
	verify(x, h, kit.FAll, "nested", "nested comparisons")
	x.State(h.M.Key())
}

func init() {
	register("C22", func() engine.Check {
		return engine.Check{ID: "C22", Scenarios: []engine.Scenario{
			{Name: "methods", Fn: c22Methods, Bounds: fmt.Sprintf("%d methods x 4 or 5 receivers x %d operands x %d places x 5 shapes", len(identifierMethods)+len(valueMethods)+len(callMethods), len(operands), len(condPlaces))},
			{Name: "between", Fn: c22Between, Bounds: fmt.Sprintf("4 receivers x %d x %d bounds x NOT x 5 shapes x 2 (thorough %d) places", len(operands), len(operands), len(condPlaces))},
			{Name: "in", Fn: c22In, Bounds: fmt.Sprintf("8 receivers x NOT x 1 or 2 (thorough 3) of %d operands x 2 (thorough 5) shapes", len(operands))},
			{Name: "null", Fn: c22Null, Bounds: "4 receivers x 9 forms x 7 places x 5 shapes"},
			{Name: "nested", Fn: c22Nested, Bounds: "comparisons nested 2 (thorough 3) times, every method at every level"},
		}, Assumptions: []string{
			"EXISTS as the only item of a list may stand without its own parentheses",
		}}
	})
}
