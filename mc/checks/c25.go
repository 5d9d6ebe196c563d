package checks

import (
	"fmt"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
)

// C25: a statement lacking something is refused, never rendered malformed.
//
// The first exploration puts every kind of hole (an item that is nothing) at
// every position of every list or operand of the API, in a bare or a full
// statement, itself alone or inside another one; it must be refused at the
// call or by the three renderings. The second takes every subset of the parts
// of a statement, given, left out or called without argument, and compares
// with the model: an incomplete one is refused by each of the renderings, in
// any order, and renders once the missing part is given.

type hole struct {
	name string
	make func() interface{}
	// alone: stands for the whole list.
	alone bool
	// list: an empty list, which IN accepts.
	list bool
}

func holeOf(name string, v interface{}) hole {
	return hole{name: name, make: func() interface{} { return v }}
}

// emptyList is nothing, unless it is the list of an IN.
func emptyList(name string, v interface{}) hole {
	return hole{name: name, make: func() interface{} { return v }, list: true}
}

func holeList(name string, v interface{}) hole {
	return hole{name: name, make: func() interface{} { return v }, alone: true}
}

var columnHoles = []hole{
	holeOf(`""`, ""),
	holeOf(`" "`, " "),
	holeOf(`","`, ","),
	holeOf(`"a,"`, "a,"),
	holeOf(`",a"`, ",a"),
	holeOf(`"a, ,b"`, "a, ,b"),
	holeOf(`tab`, "\t"),
	holeOf(`"a,\n"`, "a,\n"),
	holeOf(`Column("")`, lk.Column("")),
	holeOf(`Column("").As`, lk.Column("").As("x")),
	holeOf("Column{}", stmt.Column{}),
	holeOf("nil", nil),
	holeList(`[]string{""}`, []string{""}),
	holeList(`[]string{a, ""}`, []string{"a", ""}),
	holeList(`[]string{"", a}`, []string{"", "a"}),
	holeList(`[]Column{""}`, []stmt.Column{lk.Column("")}),
	holeList(`[]Column{a, ""}`, []stmt.Column{lk.Column("a"), {}}),
	holeList(`[]Column{"", a}`, []stmt.Column{lk.Column("").As("x"), lk.Column("a")}),
}

var exprHoles = append(append([]hole(nil), columnHoles...),
	holeOf(`Raw("")`, lk.Raw("")),
	holeOf("Raw{}", stmt.Raw{}),
	holeOf(`Count("")`, lk.Count("")),
	holeOf(`Count("").As`, lk.Count("").As("n")),
	holeOf(`Count("").Distinct`, lk.Count("").Distinct(true)),
	holeOf(`Max("")`, lk.Max("")),
	holeOf(`Max("").As`, lk.Max("").As("n")),
	holeOf(`Min("")`, lk.Min("")),
	holeOf(`Min("").As`, lk.Min("").As("n")),
	holeOf(`Sum("")`, lk.Sum("")),
	holeOf(`Sum("").As`, lk.Sum("").As("n")),
	holeOf("Exists{}", stmt.Exists{}),
	holeOf("Exists(nil)", lk.Exists(nil)),
	holeOf(`Exists(Raw(""))`, lk.Exists(lk.Raw(""))),
	holeOf("NotExists(nil)", lk.NotExists(nil)),
	holeOf(`NotExists(NewSelect())`, lk.NotExists(stmt.NewSelect())),
	holeList("[]SelectExpression{nil}", []stmt.SelectExpression{nil}),
	holeList("[]SelectExpression{a, nil}", []stmt.SelectExpression{lk.Column("a"), nil}),
	holeList(`[]SelectExpression{Raw(""), a}`, []stmt.SelectExpression{lk.Raw(""), lk.Column("a")}),
	holeList(`[]SelectExpression{Count("")}`, []stmt.SelectExpression{lk.Count("")}),
)

var tableHoles = []hole{
	holeOf(`""`, ""),
	holeOf(`Table("")`, lk.Table("")),
	holeOf(`Table("").As`, lk.Table("").As("x")),
	holeOf(`Table("").Only`, lk.Table("").Only()),
	holeOf("Table{}", stmt.Table{}),
	holeOf(`Raw("")`, lk.Raw("")),
	holeList("From{}", stmt.From{}),
	holeList("NewFrom(nil)", stmt.NewFrom(nil)),
	holeOf("NewFrom([nil])", stmt.NewFrom([]stmt.Statement{nil})),
	holeOf(`NewFrom([a, ""])`, stmt.NewFrom([]stmt.Statement{lk.Table("a"), lk.Table("")})),
	holeOf(`NewFrom([Raw(""), a])`, stmt.NewFrom([]stmt.Statement{lk.Raw(""), lk.Table("a")})),
	holeOf("Into{}", stmt.Into{}),
	holeOf(`NewInto("")`, stmt.NewInto(lk.Table(""))),
	holeOf("nil", nil),
}

var orderHoles = []hole{
	holeOf(`Order("")`, lk.Order("")),
	holeOf(`Order("", Desc)`, lk.Order("", lk.Desc)),
	holeOf("Order{}", stmt.Order{}),
	holeOf("Order{Desc}", stmt.Order{Type: types.Desc}),
	holeOf(`Column("").Asc`, lk.Column("").Asc()),
	holeOf(`Column("").Desc`, lk.Column("").Desc()),
}

var withHoles = []hole{
	holeOf("WithQuery{}", stmt.WithQuery{}),
	holeOf("WithQuery{name}", stmt.WithQuery{Name: "w"}),
	holeOf(`With("", select)`, lk.With("", lk.Select("a").From("b"))),
	holeOf(`With("", raw)`, lk.With("", lk.Raw("SELECT 1"))),
	holeOf("With(w, nil)", lk.With("w", nil)),
	holeOf(`With(w, Raw(""))`, lk.With("w", lk.Raw(""))),
	holeOf("With(w, stmt.Select{})", lk.With("w", stmt.Select{})),
	holeOf("With(w, NewSelect())", lk.With("w", builder.NewSelect())),
	holeOf("With(w, NewSelect() with clauses)", lk.With("w", builder.NewSelect().From("t").Where(lk.Condition("a").Equal(1)).Limit(3))),
}

// valueHoles are expressions that are nothing, where nil is NULL.
var valueHoles = []hole{
	holeOf(`Raw("")`, lk.Raw("")),
	holeOf(`Condition("")`, lk.Condition("")),
	holeOf(`Condition(nil)`, lk.Condition(nil)),
	holeOf(`Condition(Raw(""))`, lk.Condition(lk.Raw(""))),
	holeOf("stmt.Select{}", stmt.Select{}),
	holeOf("NewSelect()", builder.NewSelect()),
	holeOf("NewSelect() with clauses", builder.NewSelect().From("t").Comment("c")),
	holeOf("select of an empty list", lk.Select([]string{}).From("t")),
	holeOf("encoder of NewSelect()", stmtEnc{stmt.NewSelect()}),
	holeOf(`NewCall("")`, stmt.NewCall("")),
	holeOf(`NewCall("", x)`, stmt.NewCall("", lk.Raw("x"))),
	holeOf(`NewCall(f, Raw(""))`, stmt.NewCall("f", lk.Raw(""))),
	holeOf(`NewCall(f, x, nil)`, stmt.NewCall("f", lk.Raw("x"), nil)),
	holeOf(`NewCall(f, nil, x)`, stmt.NewCall("f", nil, lk.Raw("x"))),
	holeOf(`NewCall(f, NewSelect())`, stmt.NewCall("f", stmt.NewSelect())),
	holeOf(`NewCall(f, NewCall(""))`, stmt.NewCall("f", stmt.NewCall(""))),
	holeOf("Exists(nil)", lk.Exists(nil)),
	holeOf(`Exists(Raw(""))`, lk.Exists(lk.Raw(""))),
	holeOf("Exists(NewSelect())", lk.Exists(builder.NewSelect())),
	holeOf("NotExists(nil)", lk.NotExists(nil)),
	holeOf("NotExists(stmt.Select{})", lk.NotExists(stmt.Select{})),
	holeOf("And(nil, x)", stmt.NewInfixExpression(nil, stmt.NewAndOperator(), lk.Raw("x"))),
	holeOf("Or(x, nil)", stmt.NewInfixExpression(lk.Raw("x"), stmt.NewOrOperator(), nil)),
	holeOf(`a = Raw("")`, lk.Condition("a").Equal(lk.Raw(""))),
	holeOf(`a IN (1, Raw(""))`, lk.Condition("a").In(1, lk.Raw(""))),
	holeOf(`a BETWEEN Raw("")`, lk.Condition("a").Between(1, lk.Raw(""))),
	holeOf("In{}", stmt.In{}),
	holeOf("Between{}", stmt.Between{}),
	holeOf("InfixExpression{}", stmt.InfixExpression{}),
	holeOf("OnClause{}", stmt.OnClause{}),
	holeOf("Wrapper{}", stmt.Wrapper{}),
	{name: "Condition(1).Equal", make: func() interface{} { return lk.Condition(1).Equal(1) }},
	{name: "Condition([]string).Equal", make: func() interface{} { return lk.Condition([]string{"a"}).Equal(1) }},
	emptyList("Array{}", stmt.Array{}),
	emptyList("ArrayList{}", stmt.ArrayList{}),
	emptyList("NewArrayExpression()", stmt.NewArrayExpression()),
	emptyList("list of no string", stmt.NewArrayExpression([]string{})),
}

var condHoles = append(append([]hole(nil), valueHoles...), holeOf("nil", nil))

var onHoles = []hole{
	holeOf("OnClause{}", stmt.OnClause{}),
	holeOf(`On("", b)`, lk.On("", "b")),
	holeOf(`On(a, "")`, lk.On("a", "")),
	holeOf("InfixOnExpression{}", stmt.InfixOnExpression{}),
	holeOf(`AndOn(On("", b), ok)`, lk.AndOn(lk.On("", "b"), lk.On("a", "b"))),
	holeOf(`OrOn(ok, On(a, ""))`, lk.OrOn(lk.On("a", "b"), lk.On("a", ""))),
	holeOf("AndOn(ok, nil)", lk.AndOn(lk.On("a", "b"), stmt.OnClause{})),
	holeOf("ok.And(nil)", lk.On("a", "b").And(nil)),
	holeOf("ok.Or(OrOn(ok, {}))", lk.On("a", "b").Or(lk.OrOn(lk.On("a", "b"), stmt.OnClause{}))),
	holeOf("no operator", stmt.NewInfixOnExpression(lk.On("a", "b"), stmt.LogicalOperator{}, lk.On("a", "b"))),
	holeOf("nil", nil),
	holeOf(`""`, ""),
	holeOf(`" "`, " "),
	holeOf(`"ON"`, "ON"),
	holeOf(`"a ="`, "a ="),
	holeOf(`"ON = b"`, "ON = b"),
	holeOf(`"ON a = b AND"`, "ON a = b AND"),
	holeOf(`"j ON"`, "j ON"),
}

var joinHoles = []hole{
	holeOf(`""`, ""),
	holeOf(`" "`, " "),
	holeOf(`";"`, ";"),
	holeOf(`"j"`, "j"),
	holeOf(`"ON"`, "ON"),
	holeOf(`"j ON"`, "j ON"),
	holeOf(`"j ON a ="`, "j ON a ="),
	holeOf(`"ON a = b"`, "ON a = b"),
	holeOf(`"LEFT JOIN ON a = b"`, "LEFT JOIN ON a = b"),
	holeOf(`"j ON a = b OR"`, "j ON a = b OR"),
	holeOf("Join{}", stmt.Join{}),
	holeOf(`NewInnerJoin("", ok)`, stmt.NewInnerJoin(lk.Table(""), lk.On("a", "b"))),
	holeOf(`NewLeftJoin(j, {})`, stmt.NewLeftJoin(lk.Table("j"), stmt.OnClause{})),
	holeOf(`NewRightJoin(j, Raw(""))`, stmt.NewRightJoin(lk.Table("j"), lk.Raw(""))),
	holeOf("NewInnerJoin(j, nil)", stmt.NewInnerJoin(lk.Table("j"), nil)),
	holeOf(`NewJoin("", j, ok)`, stmt.NewJoin("", lk.Table("j"), lk.On("a", "b"))),
	holeOf("nil", nil),
}

var pairHoles = []hole{
	holeOf(`Pair("", 1)`, lk.Pair("", 1)),
	holeOf(`Pair(" ", 1)`, lk.Pair(" ", 1)),
	holeOf(`Pair(Column(""), 1)`, lk.Pair(lk.Column(""), 1)),
	holeOf("Pair(nil, 1)", lk.Pair(nil, 1)),
	holeOf("Pair{}", types.Pair{}),
	holeOf(`Map{"": 1}`, lk.Map{"": 1}),
	holeOf(`Map{Column(""): 1}`, lk.Map{lk.Column(""): 1}),
	holeOf(`Map{a: 1, "": 2}`, lk.Map{"a": 1, "": 2}),
	holeOf(`map{"": 1}`, map[string]interface{}{"": 1}),
	holeOf(`map{a: 1, "": nil}`, map[string]interface{}{"a": 1, "": nil}),
	holeOf("nil", nil),
}

// holePlace is a list, or an operand, of a statement.
type holePlace struct {
	name  string
	kind  int
	max   int // items at most
	good  func(i int) interface{}
	holes []hole
	call  func(h kit.H, l []interface{}) kit.H
	// starts: the place is where the statement starts.
	starts bool
	// also: other items that mean nothing.
	also []hole
	// empty: no item at all must be refused too.
	empty bool
}

func goodColumn(i int) interface{} {
	switch i % 3 {
	case 0:
		return fmt.Sprintf("c%d", i)
	case 1:
		return lk.Column(fmt.Sprintf("c%d", i))
	default:
		return fmt.Sprintf("c%d, d%d", i, i)
	}
}

func goodExpr(i int) interface{} {
	if i%3 == 1 {
		return lk.Count("*").As(fmt.Sprintf("n%d", i))
	}
	return goodColumn(i)
}

func goodTable(i int) interface{} {
	if i%2 == 1 {
		return lk.Table(fmt.Sprintf("t%d", i)).As("x")
	}
	return fmt.Sprintf("t%d", i)
}

func goodValue(i int) interface{} { return []interface{}{1, "v", nil, lk.Raw("now()")}[i%4] }

func goodPair(i int) interface{} {
	if i%2 == 1 {
		return lk.Map{fmt.Sprintf("k%d", i): i}
	}
	return lk.Pair(fmt.Sprintf("k%d", i), goodValue(i))
}

// pairsOf are assignments of values that are nothing.
func pairsOf(values []hole) []hole {
	var out []hole
	for _, v := range values {
		v := v
		out = append(out,
			hole{name: "Pair(k, " + v.name + ")", make: func() interface{} { return lk.Pair("k", v.make()) }},
			hole{name: "Map{k: " + v.name + "}", make: func() interface{} { return lk.Map{"k": v.make()} }},
			hole{name: "map{l: 1, k: " + v.name + "}", make: func() interface{} { return map[string]interface{}{"l": 1, "k": v.make()} }})
	}
	return out
}

func asExpr(v interface{}) stmt.Expression {
	if v == nil {
		return nil
	}
	return v.(stmt.Expression)
}

// conditionsOf turns operands into conditions, for the places taking one; the
// encoder and the builder have to be operands.
func conditionsOf(values []hole) []hole {
	var out []hole
	for _, v := range values {
		v := v
		if _, ok := v.make().(stmt.Expression); !ok && v.name != "nil" {
			continue
		}
		out = append(out, v)
	}
	return out
}

var holePlaces = func() []holePlace {
	var out []holePlace
	add := func(p holePlace) { out = append(out, p) }
	cond := func(i int) interface{} { return lk.Condition("w").Equal(i) }
	conds := conditionsOf(condHoles)
	list := func(name string, f func(l []interface{}) stmt.Expression) {
		for kind := 0; kind < kit.NKinds; kind++ {
			if kind == kit.Insert {
				continue
			}
			add(holePlace{name: name, kind: kind, max: 3, good: goodValue, holes: valueHoles, call: func(h kit.H, l []interface{}) kit.H {
				return whereOf(h, f(l))
			}})
		}
	}

	// SELECT.
	add(holePlace{name: "Select", kind: kit.Select, max: 3, good: goodExpr, holes: exprHoles, starts: true,
		also: []hole{holeList("[]string{}", []string{}), holeList("[]Column{}", []stmt.Column{}), holeList("[]SelectExpression{}", []stmt.SelectExpression{})},
		call: func(h kit.H, l []interface{}) kit.H { h.S = lk.Select(l...).From("t"); return h }})
	add(holePlace{name: "Columns", kind: kit.Select, max: 3, good: goodExpr, holes: exprHoles,
		also: []hole{holeList("[]string{}", []string{}), holeList("[]Column{}", []stmt.Column{}), holeList("[]SelectExpression{}", []stmt.SelectExpression{})},
		call: func(h kit.H, l []interface{}) kit.H { h.S = h.S.Columns(l...); return h }})
	add(holePlace{name: "DistinctOn", kind: kit.Select, max: 3, good: goodColumn, holes: exprHoles, empty: true,
		also: []hole{holeList("[]string{}", []string{}), holeList("[]Column{}", []stmt.Column{})},
		call: func(h kit.H, l []interface{}) kit.H { h.S = h.S.DistinctOn(l...); return h }})
	add(holePlace{name: "From", kind: kit.Select, max: 3, good: goodTable, holes: tableHoles, starts: true, empty: true,
		call: func(h kit.H, l []interface{}) kit.H { h.S = lk.Select("a").From(l...); return h }})
	add(holePlace{name: "GroupBy", kind: kit.Select, max: 3, good: goodColumn, holes: exprHoles, empty: true,
		also: []hole{holeList("[]string{}", []string{}), holeList("[]Column{}", []stmt.Column{})},
		call: func(h kit.H, l []interface{}) kit.H { h.S = h.S.GroupBy(l...); return h }})
	add(holePlace{name: "OrderBy", kind: kit.Select, max: 3, good: func(i int) interface{} { return lk.Order(fmt.Sprintf("o%d", i)) }, holes: orderHoles,
		call: func(h kit.H, l []interface{}) kit.H {
			var o []stmt.Order
			for _, v := range l {
				o = append(o, v.(stmt.Order))
			}
			h.S = h.S.OrderBy(o...)
			return h
		}})
	for _, kind := range []int{kit.Select, kit.Update} {
		add(holePlace{name: "With", kind: kind, max: 3, good: func(i int) interface{} { return lk.With(fmt.Sprintf("w%d", i), lk.Raw("SELECT 1")) }, holes: withHoles,
			call: func(h kit.H, l []interface{}) kit.H {
				var w []stmt.WithQuery
				for _, v := range l {
					w = append(w, v.(stmt.WithQuery))
				}
				if h.M.Kind == kit.Select {
					h.S = h.S.With(w...)
				} else {
					h.U = h.U.With(w...)
				}
				return h
			}})
	}
	add(holePlace{name: "Join(one)", kind: kit.Select, max: 3, good: func(i int) interface{} { return fmt.Sprintf("j%d ON a = b", i) }, holes: joinHoles,
		call: func(h kit.H, l []interface{}) kit.H {
			for _, j := range l {
				h.S = h.S.Join(j)
			}
			return h
		}})
	add(holePlace{name: "Join(table, ok)", kind: kit.Select, max: 3, good: goodTable, holes: tableHoles,
		call: func(h kit.H, l []interface{}) kit.H {
			for _, t := range l {
				h.S = h.S.Join(t, lk.On("a", "b"))
			}
			return h
		}})
	add(holePlace{name: "Join(table, text, kind)", kind: kit.Select, max: 3, good: goodTable, holes: tableHoles,
		call: func(h kit.H, l []interface{}) kit.H {
			for _, t := range l {
				h.S = h.S.Join(t, "a = b", lk.RightJoin)
			}
			return h
		}})
	on := func(i int) interface{} {
		if i%2 == 1 {
			return "a = b"
		}
		return lk.On("a", "b")
	}
	add(holePlace{name: "Join(ok, condition)", kind: kit.Select, max: 3, good: on, holes: onHoles,
		call: func(h kit.H, l []interface{}) kit.H {
			for _, c := range l {
				h.S = h.S.Join("j", c)
			}
			return h
		}})
	add(holePlace{name: "Join(ok, condition, kind)", kind: kit.Select, max: 3, good: on, holes: onHoles,
		call: func(h kit.H, l []interface{}) kit.H {
			for _, c := range l {
				h.S = h.S.Join(lk.Table("j").As("x"), c, lk.LeftJoin)
			}
			return h
		}})
	add(holePlace{name: "Join(ok, ok, kind)", kind: kit.Select, max: 3, good: func(int) interface{} { return lk.LeftJoin },
		holes: []hole{holeOf("no kind", types.JoinType("")), holeOf("nil", nil), holeOf(`""`, "")},
		call: func(h kit.H, l []interface{}) kit.H {
			for _, k := range l {
				h.S = h.S.Join("j", lk.On("a", "b"), k)
			}
			return h
		}})
	add(holePlace{name: "Having", kind: kit.Select, max: 1, good: cond, holes: conds,
		call: func(h kit.H, l []interface{}) kit.H { h.S = h.S.Having(asExpr(l[0])); return h }})
	add(holePlace{name: "Suffix", kind: kit.Select, max: 1, good: func(int) interface{} { return "FOR UPDATE" },
		holes: []hole{holeOf(`""`, ""), holeOf("Suffix{}", stmt.Suffix{}), holeOf("nil", nil)},
		call:  func(h kit.H, l []interface{}) kit.H { h.S = h.S.Suffix(l[0]); return h }})
	add(holePlace{name: "Prefix", kind: kit.Select, max: 1, good: func(int) interface{} { return "EXPLAIN" },
		holes: []hole{holeOf(`""`, ""), holeOf("Prefix{}", stmt.Prefix{}), holeOf("nil", nil)},
		call:  func(h kit.H, l []interface{}) kit.H { h.S = h.S.Prefix(l[0]); return h }})
	add(holePlace{name: "Limit", kind: kit.Select, max: 1, good: func(int) interface{} { return 3 },
		holes: []hole{holeOf(`""`, ""), holeOf("Limit{}", stmt.Limit{}), holeOf("nil", nil), holeOf(`" "`, " ")},
		call:  func(h kit.H, l []interface{}) kit.H { h.S = h.S.Limit(l[0]); return h }})
	add(holePlace{name: "Offset", kind: kit.Select, max: 1, good: func(int) interface{} { return 3 },
		holes: []hole{holeOf(`""`, ""), holeOf("nil", nil), holeOf(`" "`, " ")},
		call:  func(h kit.H, l []interface{}) kit.H { h.S = h.S.Offset(l[0]); return h }})

	// Conditions.
	for _, kind := range []int{kit.Select, kit.Update, kit.Delete} {
		add(holePlace{name: "Where", kind: kind, max: 3, good: cond, holes: conds,
			call: func(h kit.H, l []interface{}) kit.H {
				for _, c := range l {
					h = whereOf(h, asExpr(c))
				}
				return h
			}})
		add(holePlace{name: "Where/Or", kind: kind, max: 3, good: cond, holes: conds,
			call: func(h kit.H, l []interface{}) kit.H {
				h = whereOf(h, asExpr(l[0]))
				for _, c := range l[1:] {
					switch h.M.Kind {
					case kit.Select:
						h.S = h.S.Or(asExpr(c))
					case kit.Update:
						h.U = h.U.Or(asExpr(c))
					default:
						h.D = h.D.Or(asExpr(c))
					}
				}
				return h
			}})
		add(holePlace{name: "Where/And", kind: kind, max: 3, good: cond, holes: conds,
			call: func(h kit.H, l []interface{}) kit.H {
				h = whereOf(h, asExpr(l[0]))
				for _, c := range l[1:] {
					switch h.M.Kind {
					case kit.Select:
						h.S = h.S.And(asExpr(c))
					case kit.Update:
						h.U = h.U.And(asExpr(c))
					default:
						h.D = h.D.And(asExpr(c))
					}
				}
				return h
			}})
	}
	list("In", func(l []interface{}) stmt.Expression { return lk.Condition("w").In(l...) })
	list("NotIn slice", func(l []interface{}) stmt.Expression {
		return lk.Condition("w").NotIn(append([]interface{}(nil), l...))
	})
	list("Call", func(l []interface{}) stmt.Expression {
		var e []stmt.Expression
		for _, v := range l {
			e = append(e, stmt.NewExpression(v))
		}
		return stmt.NewCall("f", e...).Equal(1)
	})
	list("Equal", func(l []interface{}) stmt.Expression {
		c := lk.Condition("w").Equal(l[0])
		for _, v := range l[1:] {
			c = c.Or(stmt.NewCall("f").GreaterThan(v))
		}
		return c
	})
	list("Between", func(l []interface{}) stmt.Expression {
		switch len(l) {
		case 1:
			return lk.Condition("w").Between(l[0], 1)
		case 2:
			return lk.Condition("w").NotBetween(l[0], l[1])
		default:
			return lk.And(lk.Condition("w").Between(l[0], l[1]), lk.Condition("w").Between(1, l[2]))
		}
	})

	// INSERT.
	add(holePlace{name: "Insert", kind: kit.Insert, max: 1, good: goodTable, holes: tableHoles, starts: true,
		call: func(h kit.H, l []interface{}) kit.H { h.N = lk.Insert(l[0]).Values(1); return h }})
	add(holePlace{name: "Into", kind: kit.Insert, max: 1, good: goodTable, holes: tableHoles, starts: true,
		call: func(h kit.H, l []interface{}) kit.H { h.N = builder.NewInsert().Into(l[0]).Values(1); return h }})
	add(holePlace{name: "Columns", kind: kit.Insert, max: 3, good: goodColumn, holes: exprHoles,
		call: func(h kit.H, l []interface{}) kit.H { h.N = h.N.Columns(l...).Values(1, 2, 3); return h }})
	add(holePlace{name: "Values", kind: kit.Insert, max: 3, good: goodValue, holes: valueHoles, empty: true,
		call: func(h kit.H, l []interface{}) kit.H { h.N = h.N.Values(l...); return h }})
	add(holePlace{name: "Values(slice)", kind: kit.Insert, max: 3, good: goodValue, holes: valueHoles, empty: true,
		call: func(h kit.H, l []interface{}) kit.H { h.N = h.N.Values(l); return h }})
	add(holePlace{name: "Values(rows of one)", kind: kit.Insert, max: 3, good: goodValue, holes: valueHoles, empty: true,
		call: func(h kit.H, l []interface{}) kit.H {
			var rows [][]interface{}
			for _, v := range l {
				rows = append(rows, []interface{}{v})
			}
			h.N = h.N.Values(rows)
			return h
		}})
	add(holePlace{name: "Values(rows of two)", kind: kit.Insert, max: 3, good: goodValue, holes: valueHoles, empty: true,
		call: func(h kit.H, l []interface{}) kit.H {
			var rows [][]interface{}
			for i, v := range l {
				if i%2 == 0 {
					rows = append(rows, []interface{}{v, 1})
				} else {
					rows = append(rows, []interface{}{1, v})
				}
			}
			h.N = h.N.Values(rows)
			return h
		}})
	add(holePlace{name: "Values(rows)", kind: kit.Insert, max: 3, good: func(i int) interface{} { return []interface{}{goodValue(i)} }, empty: true,
		holes: []hole{{name: "row without cell", make: func() interface{} { return []interface{}{} }}, {name: "nil row", make: func() interface{} { return []interface{}(nil) }}},
		call: func(h kit.H, l []interface{}) kit.H {
			var rows [][]interface{}
			for _, v := range l {
				rows = append(rows, v.([]interface{}))
			}
			h.N = h.N.Values(rows)
			return h
		}})
	add(holePlace{name: "Set", kind: kit.Insert, max: 3, good: goodPair, holes: append(append([]hole(nil), pairHoles...), pairsOf(valueHoles)...), empty: true,
		also: []hole{holeList("Map{}", lk.Map{}), holeList("map{}", map[string]interface{}{})},
		call: func(h kit.H, l []interface{}) kit.H { h.N = h.N.Set(l...); return h }})
	add(holePlace{name: "OnConflict target", kind: kit.Insert, max: 3, good: func(i int) interface{} { return fmt.Sprintf("u%d", i) }, holes: []hole{columnHoles[0], columnHoles[1], columnHoles[6], columnHoles[8], columnHoles[9], columnHoles[10], columnHoles[11]}, empty: true,
		call: func(h kit.H, l []interface{}) kit.H {
			h.N = h.N.Values(1).OnConflict(append(append([]interface{}(nil), l...), lk.DoUpdate(lk.Pair("x", 1)))...)
			return h
		}})
	add(holePlace{name: "DoUpdate", kind: kit.Insert, max: 3, good: goodPair, holes: append(append([]hole(nil), pairHoles...), pairsOf(valueHoles)...), empty: true,
		also: []hole{holeList("Map{}", lk.Map{}), holeList("map{}", map[string]interface{}{})},
		call: func(h kit.H, l []interface{}) kit.H {
			h.N = h.N.Values(1).OnConflict("u", lk.DoUpdate(l...))
			return h
		}})
	add(holePlace{name: "Returning", kind: kit.Insert, max: 3, good: goodExpr, holes: exprHoles,
		call: func(h kit.H, l []interface{}) kit.H { h.N = h.N.Values(1).Returning(l...); return h }})

	// UPDATE.
	add(holePlace{name: "Update", kind: kit.Update, max: 1, good: goodTable, holes: tableHoles, starts: true,
		call: func(h kit.H, l []interface{}) kit.H { h.U = lk.Update(l[0]).Set(lk.Pair("z", 1)); return h }})
	add(holePlace{name: "From", kind: kit.Update, max: 1, good: goodTable, holes: tableHoles,
		call: func(h kit.H, l []interface{}) kit.H { h.U = h.U.From(l[0]); return h }})
	add(holePlace{name: "Set", kind: kit.Update, max: 3, good: goodPair, holes: append(append([]hole(nil), pairHoles...), pairsOf(valueHoles)...), starts: true, empty: true,
		also: []hole{holeList("Map{}", lk.Map{}), holeList("map{}", map[string]interface{}{})},
		call: func(h kit.H, l []interface{}) kit.H { h.U = lk.Update("t").Set(l...); return h }})
	add(holePlace{name: "Set twice", kind: kit.Update, max: 3, good: goodPair, holes: append(append([]hole(nil), pairHoles...), pairsOf(valueHoles)...),
		call: func(h kit.H, l []interface{}) kit.H {
			for _, p := range l {
				h.U = h.U.Set(p)
			}
			return h
		}})
	add(holePlace{name: "Set(columns)", kind: kit.Update, max: 3, good: goodColumn, holes: exprHoles, starts: true, empty: true,
		call: func(h kit.H, l []interface{}) kit.H {
			h.U = lk.Update("t").Set(l...).Using(lk.Raw("ROW(1)"))
			return h
		}})
	add(holePlace{name: "Using", kind: kit.Update, max: 3, good: goodValue, holes: valueHoles, starts: true, empty: true,
		call: func(h kit.H, l []interface{}) kit.H {
			h.U = lk.Update("t").Set("a, b").Using(l...)
			return h
		}})
	add(holePlace{name: "Using twice", kind: kit.Update, max: 3, good: goodValue, holes: valueHoles, starts: true, empty: true,
		call: func(h kit.H, l []interface{}) kit.H {
			h.U = lk.Update("t").Set("a", "b")
			for _, v := range l {
				h.U = h.U.Using(v)
			}
			return h
		}})
	add(holePlace{name: "Returning", kind: kit.Update, max: 3, good: goodExpr, holes: exprHoles,
		call: func(h kit.H, l []interface{}) kit.H { h.U = h.U.Returning(l...); return h }})

	// DELETE.
	add(holePlace{name: "Delete", kind: kit.Delete, max: 1, good: goodTable, holes: tableHoles, starts: true,
		call: func(h kit.H, l []interface{}) kit.H { h.D = lk.Delete(l[0]); return h }})
	add(holePlace{name: "From", kind: kit.Delete, max: 3, good: goodTable, holes: tableHoles, starts: true, empty: true,
		call: func(h kit.H, l []interface{}) kit.H { h.D = builder.NewDelete().From(l...); return h }})
	add(holePlace{name: "Using", kind: kit.Delete, max: 3, good: goodTable, holes: tableHoles,
		call: func(h kit.H, l []interface{}) kit.H { h.D = h.D.Using(l...); return h }})
	add(holePlace{name: "Returning", kind: kit.Delete, max: 3, good: goodExpr, holes: exprHoles,
		call: func(h kit.H, l []interface{}) kit.H { h.D = h.D.Returning(l...); return h }})
	return out
}()

func whereOf(h kit.H, c stmt.Expression) kit.H {
	switch h.M.Kind {
	case kit.Select:
		h.S = h.S.Where(c)
	case kit.Update:
		h.U = h.U.Where(c)
	default:
		h.D = h.D.Where(c)
	}
	return h
}

// around are statements around a select.
var around = []struct {
	name string
	wrap func(s interface{}) builder.Builder
}{
	{"itself", nil},
	{"in EXISTS of a delete", func(s interface{}) builder.Builder { return lk.Delete("o").Where(lk.Exists(s)) }},
	{"in a with of an update", func(s interface{}) builder.Builder {
		return lk.Update("o").With(lk.With("w", s)).Set(lk.Pair("k", 1))
	}},
	{"in IN of a select", func(s interface{}) builder.Builder {
		return lk.Select("o").From("p").Where(lk.Condition("q").In(s)).Limit(1)
	}},
	{"in a row of an insert", func(s interface{}) builder.Builder { return lk.Insert("o").Values(1, s) }},
	{"in SET of an update", func(s interface{}) builder.Builder { return lk.Update("o").Set(lk.Pair("k", s)) }},
	{"in USING of an update", func(s interface{}) builder.Builder { return lk.Update("o").Set("a", "b").Using(s) }},
	{"in an assignment of an insert", func(s interface{}) builder.Builder { return lk.Insert("o").Set(lk.Map{"k": s}) }},
	{"in DO UPDATE", func(s interface{}) builder.Builder {
		return lk.Insert("o").Values(1).OnConflict("u", lk.DoUpdate(lk.Pair("k", s)))
	}},
	{"in BETWEEN", func(s interface{}) builder.Builder {
		return lk.Delete("o").Where(lk.Condition("q").Between(1, s))
	}},
	{"in a list", func(s interface{}) builder.Builder {
		return lk.Delete("o").Where(lk.Condition("q").NotIn(s, 1))
	}},
	{"in a call", func(s interface{}) builder.Builder {
		return lk.Select("o").Where(stmt.NewCall("f", stmt.NewExpression(s)))
	}},
	{"in EXISTS in a with", func(s interface{}) builder.Builder {
		return lk.Select("o").With(lk.With("w", lk.Select("i").Where(lk.Exists(s))))
	}},
	{"as a column", func(s interface{}) builder.Builder { return lk.Select("o", lk.NotExists(s)) }},
}

// refusedEverywhere runs f, which must refuse at the call, or build something
// each rendering refuses.
func refusedEverywhere(x *engine.X, key, what string, f func() builder.Builder) {
	x.Checked()
	var b builder.Builder
	if p, _ := x.Try(func() { b = f() }); p {
		return
	}
	forms := [3]func() string{
		func() string { return b.String() },
		func() string { q, _ := b.Query(); return q },
		func() string { q, _ := b.NamedQuery(); return q },
	}
	for i, name := range []string{"String", "Query", "NamedQuery"} {
		got := ""
		if p, _ := x.Try(func() { got = forms[i]() }); !p {
			x.Fail(key, "%s was not refused by %s: %s", what, name, got)
		}
	}
}

// c25Frame gives a statement with nothing more than it needs, or with every
// other clause, for the place.
func c25Frame(kind int, full bool, place string) kit.H {
	h := kit.Start(kind)
	if kind == kit.Update {
		h.U = h.U.Set(lk.Pair("z", 1))
	}
	if !full {
		return h
	}
	return c25Fill(h, place)
}

// c25Fill adds the clauses the place does not define.
func c25Fill(h kit.H, place string) kit.H {
	c := lk.Condition("f").Equal(9)
	switch h.M.Kind {
	case kit.Select:
		h.S = h.S.With(lk.With("wf", lk.Select("x").From("y"))).Join("jf ON a = b").OrderBy(lk.Order("of")).Where(c).Comment("note")
		for name, f := range map[string]func(){
			"GroupBy": func() { h.S = h.S.GroupBy("gf") },
			"Having":  func() { h.S = h.S.Having(c) },
			"Limit":   func() { h.S = h.S.Limit(7) },
			"Offset":  func() { h.S = h.S.Offset(8) },
			"Suffix":  func() { h.S = h.S.Suffix("FOR UPDATE") },
			"Prefix":  func() { h.S = h.S.Prefix("EXPLAIN") },
		} {
			if name != place {
				f()
			}
		}
	case kit.Insert:
		// Columns, Values and the conflict are set by the places.
		if place != "Returning" {
			h.N = h.N.Returning("rf")
		}
		h.N = h.N.Comment("note")
	case kit.Update:
		h.U = h.U.With(lk.With("wf", lk.Select("x").From("y"))).Only().Where(c).Comment("note")
		if place != "From" {
			h.U = h.U.From("ff")
		}
		if place != "Returning" {
			h.U = h.U.Returning("rf")
		}
	case kit.Delete:
		h.D = h.D.Where(c).Comment("note")
		if place != "Using" {
			h.D = h.D.Using("uf")
		}
		if place != "Returning" {
			h.D = h.D.Returning("rf")
		}
	}
	return h
}

// c25Holes: every hole everywhere.
func c25Holes(x *engine.X) {
	p := holePlaces[x.Pick(len(holePlaces), "place")]
	max := p.max
	if max > 1 && x.Thorough && p.name != "Between" {
		max = 4
	}
	n := 1 + x.Pick(max, "items")
	at := x.Pick(n, "hole at")
	holes := append(append([]hole(nil), p.holes...), p.also...)
	hl := holes[x.Pick(len(holes), "hole")]
	if hl.alone && n > 1 || hl.list && n == 1 && (p.name == "In" || p.name == "NotIn slice" || p.name == "Call") {
		return
	}
	full := x.Pick(2, "full") == 1
	// A second hole, in the thorough tier.
	second := -1
	if x.Thorough && n > 1 {
		second = x.Pick(n, "another") // at itself: none
	}
	nest := 0
	if p.kind == kit.Select {
		nest = x.Pick(len(around), "around")
	}
	asStmt := nest > 0 && x.Pick(2, "as a statement") == 1
	what := fmt.Sprintf("%s of a %s with %s as item %d of %d, %s", p.name, kit.KindNames[p.kind], hl.name, at+1, n, around[nest].name)
	x.Op("%s of a %s", p.name, kit.KindNames[p.kind])
	build := func(withHole bool) builder.Builder {
		var l []interface{}
		for i := 0; i < n; i++ {
			switch {
			case withHole && i == at:
				l = append(l, hl.make())
			case withHole && i == second:
				l = append(l, p.holes[(at+n)%len(p.holes)].make())
			default:
				l = append(l, p.good(i))
			}
		}
		h := p.call(c25Frame(p.kind, full && !p.starts, p.name), l)
		if full && p.starts {
			h = c25Fill(h, p.name)
		}
		if nest == 0 {
			return h.B()
		}
		if asStmt {
			return around[nest].wrap(h.S.Statement())
		}
		return around[nest].wrap(h.S)
	}
	refusedEverywhere(x, "hole", what, func() builder.Builder { return build(true) })
	if hl.name == p.holes[0].name {
		// Without the hole it is accepted.
		good := fmt.Sprintf("%s of a %s with %d good items, %s", p.name, kit.KindNames[p.kind], n, around[nest].name)
		must(x, "good", good, func() {
			b := build(false)
			_ = b.String()
			_, _ = b.Query()
			_, _ = b.NamedQuery()
		})
	}
	x.State(what)
}

// c25Long: a hole anywhere in a longer list.
func c25Long(x *engine.X) {
	var places []holePlace
	for _, p := range holePlaces {
		if p.max > 2 && p.name != "Between" {
			places = append(places, p)
		}
	}
	p := places[x.Pick(len(places), "place")]
	n := []int{6, 9, 17, 33, 100, 257}[x.Pick(6, "items")]
	var at int
	if n <= 17 {
		at = x.Pick(n, "hole at")
	} else {
		at = []int{0, 1, 15, 16, 17, n/2 - 1, n - 2, n - 1}[x.Pick(8, "hole at")]
	}
	var holes []hole
	for _, h := range p.holes {
		if !h.alone {
			holes = append(holes, h)
		}
	}
	hl := holes[x.Pick(len(holes), "hole")]
	what := fmt.Sprintf("%s of a %s with %s as item %d of %d", p.name, kit.KindNames[p.kind], hl.name, at+1, n)
	x.Op("%s of a %s", p.name, kit.KindNames[p.kind])
	build := func(withHole bool) builder.Builder {
		var l []interface{}
		for i := 0; i < n; i++ {
			if withHole && i == at {
				l = append(l, hl.make())
			} else {
				l = append(l, p.good(i))
			}
		}
		return p.call(c25Frame(p.kind, false, p.name), l).B()
	}
	refusedEverywhere(x, "hole", what, func() builder.Builder { return build(true) })
	if hl.name == p.holes[0].name {
		must(x, "good", fmt.Sprintf("%s of a %s with %d good items", p.name, kit.KindNames[p.kind], n), func() {
			b := build(false)
			_ = b.String()
			_, _ = b.Query()
			_, _ = b.NamedQuery()
		})
	}
	x.State(what)
}

// c25Empty: lists without any item that define a clause are refused.
func c25Empty(x *engine.X) {
	var places []holePlace
	for _, p := range holePlaces {
		if p.empty {
			places = append(places, p)
		}
	}
	p := places[x.Pick(len(places), "place")]
	full := x.Pick(2, "full") == 1
	nest := 0
	if p.kind == kit.Select {
		nest = x.Pick(len(around), "around")
	}
	what := fmt.Sprintf("%s of a %s without item, %s", p.name, kit.KindNames[p.kind], around[nest].name)
	x.Op("%s", what)
	refusedEverywhere(x, "empty", what, func() builder.Builder {
		h := p.call(c25Frame(p.kind, full && !p.starts, p.name), nil)
		if full && p.starts {
			h = c25Fill(h, p.name)
		}
		if nest == 0 {
			return h.B()
		}
		return around[nest].wrap(h.S)
	})
	x.State(what)
}

// c25Part is a part of a statement: its ways of being given. A nil way is
// leaving it out.
type c25Part struct {
	name string
	ways []func(h kit.H) kit.H
}

var c25Parts = func() [][]c25Part {
	out := make([][]c25Part, kit.NKinds)
	part := func(kind int, name string, ways ...func(h kit.H) kit.H) {
		out[kind] = append(out[kind], c25Part{name, append([]func(h kit.H) kit.H{nil}, ways...)})
	}
	type f = func(h kit.H) kit.H
	cond, condToks := lk.Condition("w").Equal(1), kit.Binary(kit.I("w"), "=", kit.S(1))
	sub := kit.Paren(kit.Cat(kit.R("SELECT"), kit.I("x")))

	k := kit.Select
	part(k, "Columns",
		func(h kit.H) kit.H {
			h.S, h.M.Exprs = h.S.Columns("a", "b"), kit.List(kit.I("a"), kit.I("b"))
			return h
		},
		func(h kit.H) kit.H { h.S, h.M.Exprs = h.S.Columns(), kit.R("*"); return h })
	part(k, "From", func(h kit.H) kit.H { h.S, h.M.From = h.S.From("t"), kit.I("t"); return h })
	part(k, "Join", func(h kit.H) kit.H {
		h.S, h.M.Joins = h.S.Join("j ON a = b"), kit.AddList(h.M.Joins, kit.Cat(kit.R("INNER JOIN"), kit.I("j"), kit.R("ON"), kit.I("a"), kit.R("="), kit.I("b")))
		return h
	})
	part(k, "Where", func(h kit.H) kit.H { h.S, h.M.Where = h.S.Where(cond), condToks; return h })
	part(k, "GroupBy", func(h kit.H) kit.H { h.S, h.M.GroupBy = h.S.GroupBy("g"), kit.I("g"); return h })
	part(k, "Having", func(h kit.H) kit.H { h.S, h.M.Having = h.S.Having(cond), condToks; return h })
	part(k, "OrderBy",
		func(h kit.H) kit.H {
			h.S, h.M.Orders = h.S.OrderBy(lk.Order("o")), kit.AddList(h.M.Orders, kit.R("o ASC"))
			return h
		},
		func(h kit.H) kit.H { h.S = h.S.OrderBy(); return h })
	part(k, "With",
		func(h kit.H) kit.H {
			h.S, h.M.With = h.S.With(lk.With("w", lk.Select("x"))), kit.AddList(h.M.With, kit.Cat(kit.R("w AS"), sub))
			return h
		},
		func(h kit.H) kit.H { h.S = h.S.With(); return h })
	part(k, "Limit", func(h kit.H) kit.H { h.S, h.M.Limit = h.S.Limit(3), kit.R("3"); return h })
	part(k, "Offset",
		func(h kit.H) kit.H { h.S, h.M.Offset = h.S.Offset(4), kit.R("4"); return h },
		func(h kit.H) kit.H { h.S = h.S.Offset(0); return h })
	part(k, "Suffix", func(h kit.H) kit.H { h.S, h.M.Suffix = h.S.Suffix("FOR UPDATE"), kit.R("FOR UPDATE"); return h })
	part(k, "Prefix", func(h kit.H) kit.H { h.S, h.M.Prefix = h.S.Prefix("EXPLAIN"), kit.R("EXPLAIN"); return h })
	part(k, "Distinct",
		func(h kit.H) kit.H { h.S, h.M.Distinct = h.S.Distinct(), true; return h },
		func(h kit.H) kit.H { h.S, h.M.DistinctOn = h.S.DistinctOn("d"), kit.I("d"); return h })
	part(k, "Comment", func(h kit.H) kit.H { h.S, h.M.Comment = h.S.Comment("c"), "c"; return h })

	k = kit.Insert
	part(k, "Into", func(h kit.H) kit.H { h.N, h.M.Into = h.N.Into("t"), kit.I("t"); return h })
	part(k, "Columns",
		func(h kit.H) kit.H {
			h.N, h.M.Columns = h.N.Columns("a", "b"), kit.List(kit.I("a"), kit.I("b"))
			return h
		},
		func(h kit.H) kit.H { h.N = h.N.Columns(); return h })
	part(k, "Values",
		func(h kit.H) kit.H {
			h.N, h.M.Values = h.N.Values(1, nil), kit.Paren(kit.List(kit.S(1), kit.R("NULL")))
			return h
		},
		func(h kit.H) kit.H {
			h.N, h.M.Values = h.N.Values([][]interface{}{{1, 2}, {3, 4}}), kit.List(kit.Paren(kit.List(kit.S(1), kit.S(2))), kit.Paren(kit.List(kit.S(3), kit.S(4))))
			return h
		})
	part(k, "OnConflict",
		func(h kit.H) kit.H { h.N, h.M.Conflict = h.N.OnConflict(lk.DoNothing()), kit.R("DO NOTHING"); return h },
		func(h kit.H) kit.H {
			h.N, h.M.Conflict = h.N.OnConflict("u", lk.DoUpdate(lk.Pair("x", 5))), kit.Cat(kit.Paren(kit.I("u")), kit.R("DO UPDATE SET"), set1("x", kit.S(5)))
			return h
		})
	part(k, "Returning",
		func(h kit.H) kit.H { h.N, h.M.Returning = h.N.Returning("r"), kit.I("r"); return h },
		func(h kit.H) kit.H { h.N = h.N.Returning(); return h })
	part(k, "Comment", func(h kit.H) kit.H { h.N, h.M.Comment = h.N.Comment("c"), "c"; return h })

	k = kit.Update
	part(k, "Set",
		func(h kit.H) kit.H { h.U = h.U.Set(lk.Pair("k", 1)); h.M = h.M.SetPair("k", kit.S(1)); return h },
		func(h kit.H) kit.H { h.U = h.U.Set(lk.Map{}); return h },
		func(h kit.H) kit.H { h.U = h.U.Set(map[string]interface{}{}, lk.Map{}); return h },
		func(h kit.H) kit.H { h.U, h.M.SetCols = h.U.Set("a, b"), []string{"a", "b"}; return h },
		func(h kit.H) kit.H {
			h.U, h.M.SetCols, h.M.SetExprs = h.U.Set("a, b").Using(1, 2), []string{"a", "b"}, kit.AddList(nil, kit.S(1), kit.S(2))
			return h
		},
		func(h kit.H) kit.H {
			h.U = h.U.Set(lk.Map{}, lk.Pair("k", 2))
			h.M = h.M.SetPair("k", kit.S(2))
			return h
		})
	part(k, "With",
		func(h kit.H) kit.H {
			h.U, h.M.With = h.U.With(lk.With("w", lk.Select("x"))), kit.AddList(h.M.With, kit.Cat(kit.R("w AS"), sub))
			return h
		},
		func(h kit.H) kit.H { h.U = h.U.With(); return h })
	part(k, "From", func(h kit.H) kit.H { h.U, h.M.From = h.U.From("f"), kit.I("f"); return h })
	part(k, "Where", func(h kit.H) kit.H { h.U, h.M.Where = h.U.Where(cond), condToks; return h })
	part(k, "Only", func(h kit.H) kit.H { h.U, h.M.Only = h.U.Only(), true; return h })
	part(k, "Returning",
		func(h kit.H) kit.H { h.U, h.M.Returning = h.U.Returning("r"), kit.I("r"); return h },
		func(h kit.H) kit.H { h.U = h.U.Returning(); return h })
	part(k, "Comment", func(h kit.H) kit.H { h.U, h.M.Comment = h.U.Comment("c"), "c"; return h })

	k = kit.Delete
	part(k, "From", func(h kit.H) kit.H { h.D, h.M.From = h.D.From("t"), kit.I("t"); return h })
	part(k, "Using",
		func(h kit.H) kit.H { h.D, h.M.Using = h.D.Using("u"), kit.I("u"); return h },
		func(h kit.H) kit.H { h.D = h.D.Using(); return h })
	part(k, "Where", func(h kit.H) kit.H { h.D, h.M.Where = h.D.Where(cond), condToks; return h })
	part(k, "Returning",
		func(h kit.H) kit.H { h.D, h.M.Returning = h.D.Returning("r"), kit.I("r"); return h },
		func(h kit.H) kit.H { h.D = h.D.Returning(); return h })
	part(k, "Comment", func(h kit.H) kit.H { h.D, h.M.Comment = h.D.Comment("c"), "c"; return h })
	var _ f
	return out
}()

// c25Subsets: every subset of the parts.
func c25Subsets(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	parts := c25Parts[kind]
	ways := make([]int, len(parts))
	for i, p := range parts {
		ways[i] = x.Pick(len(p.ways), p.name)
	}
	order := x.Pick(2, "order")
	first := x.Pick(3, "first rendering")
	h := undefined(kind)
	what := kit.KindNames[kind]
	for i := range parts {
		j := i
		if order == 1 {
			j = len(parts) - 1 - i
		}
		w := ways[j]
		if w == 0 {
			continue
		}
		what += fmt.Sprintf(" %s:%d", parts[j].name, w)
		must(x, "subset", what, func() { h = parts[j].ways[w](h) })
	}
	x.Op("%s", what)
	// The three renderings, starting with any of them.
	_, complete := h.M.Toks()
	forms := []kit.Forms{kit.FString, kit.FQuery, kit.FNamed}
	for i := range forms {
		form := forms[(first+i)%3]
		if complete {
			verify(x, h, form, "subset", what)
			continue
		}
		x.Checked()
		panicked, _ := x.Try(func() {
			switch form {
			case kit.FString:
				_ = h.B().String()
			case kit.FQuery:
				_, _ = h.B().Query()
			default:
				_, _ = h.B().NamedQuery()
			}
		})
		if !panicked {
			x.Fail("subset", "an incomplete statement was rendered: %s\n  %s", what, h.B().String())
		}
	}
	// What was refused renders once completed.
	if !complete && kind != kit.Update {
		must(x, "completed", what+" completed", func() { h = parts[0].ways[1](h) })
		verify(x, h, kit.FAll, "completed", what+" completed")
	}
	if !complete && kind == kit.Update {
		if h.M.SetCols == nil {
			h.U = h.U.Set(lk.Pair("k", 1))
			h.M = h.M.SetPair("k", kit.S(1))
		} else {
			h.U, h.M.SetExprs = h.U.Using(7), kit.AddList(nil, kit.S(7))
		}
		verify(x, h, kit.FAll, "completed", what+" completed")
	}
	x.State(h.M.Key())
}

// c25Sequences: incomplete statements through every sequence of calls, in
// the three renderings.
func c25Sequences(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	h := undefined(kind)
	n := []int{2, 3, 3, 3}[kind]
	if x.Thorough {
		n++
	}
	for i := 1; i <= n; i++ {
		o := c08Ops(kind, i)
		h, _ = apply(x, h, o[x.Pick(len(o), "operation")], "sequence")
		if i < n {
			verify(x, h, kit.FString, "sequence", "statement on the way")
		}
	}
	verify(x, h, kit.FAll, "sequence", "statement")
	x.State(h.M.Key())
}

func init() {
	register("C25", func() engine.Check {
		return engine.Check{ID: "C25", Scenarios: []engine.Scenario{
			{Name: "holes", Fn: c25Holes,
				Bounds: fmt.Sprintf("%d places x lists of 1-3 (thorough 4, with a second hole) items x the hole at every position among 6-130 kinds x bare or full statement x, for a select, itself or in 13 places of another statement, as a builder or a statement; and the same lists without hole", len(holePlaces))},
			{Name: "empty", Fn: c25Empty,
				Bounds: "every place that needs an item, without any"},
			{Name: "long lists", Fn: c25Long,
				Bounds: "every place with a list x 6, 9, 17 items (a hole at every position), 33, 100, 257 items (at 8 positions) x every kind of hole"},
			{Name: "subsets", Fn: c25Subsets,
				Bounds: "every subset of the parts of the four kinds, given in 1-6 ways, left out or called without argument x 2 orders x 3 renderings first; the incomplete ones then completed"},
			{Name: "sequences", Fn: c25Sequences,
				Bounds: "every sequence of 2-3 (thorough 3-4) calls from nothing, the four kinds, rendered at every step"},
		}}
	})
}
