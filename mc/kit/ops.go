package kit

import (
	"fmt"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// Start gives a fresh builder of a kind with its model. Complete ones render.
func Start(kind int) H {
	var h H
	h.M.Kind = kind
	switch kind {
	case Select:
		h.S = lk.Select("id").From("t")
		h.M.Exprs, h.M.From = I("id"), I("t")
	case Insert:
		h.N = lk.Insert("t")
		h.M.Into = I("t")
	case Update:
		h.U = lk.Update("t")
		h.M.Table = I("t")
	case Delete:
		h.D = lk.Delete("t")
		h.M.From = I("t")
	}
	return h
}

// Bare gives a select builder with nothing defined (the other kinds start
// with their table).
func Bare(kind int) H {
	if kind != Select {
		return Start(kind)
	}
	var h H
	h.M.Kind = Select
	return h
}

// Apply runs an operation on the implementation and on the model. refused
// tells whether both refused it; it is an error when they disagree.
func Apply(h H, op Op) (next H, refused bool, err error) {
	m, ok := op.Mod(h.M)
	next = h
	panicked, val := protect(func() { op.Real(&next) })
	if panicked && ok {
		return h, false, fmt.Errorf("%s was refused: %v", op.Name, val)
	}
	if !panicked && !ok {
		return h, false, fmt.Errorf("%s should have been refused", op.Name)
	}
	if panicked {
		return h, true, nil
	}
	next.M = m
	return next, false, nil
}

func protect(f func()) (panicked bool, value interface{}) {
	defer func() {
		if r := recover(); r != nil {
			panicked, value = true, r
		}
	}()
	f()
	return
}

// Protect runs f and reports whether it panicked.
func Protect(f func()) (panicked bool, value interface{}) { return protect(f) }

func always(f func(m Model) Model) func(m Model) (Model, bool) {
	return func(m Model) (Model, bool) { return f(m), true }
}

// condition with a value slot
func condEq(col string, v interface{}) (stmt.Expression, []Tok) {
	return lk.Condition(col).Equal(v), Binary(I(col), "=", S(v))
}

func subSelect(v interface{}) (stmt.Expression, []Tok) {
	b := lk.Select("sid").From("sub").Where(lk.Condition("sv").Equal(v))
	return b.Statement().(stmt.Expression), Cat(R("SELECT"), I("sid"), R("FROM"), I("sub"), R("WHERE"), Binary(I("sv"), "=", S(v)))
}

// SelectOps are operations on select builders; n makes their names and values
// distinct.
func SelectOps(n int) []Op {
	k := fmt.Sprint(n)
	var ops []Op
	add := func(name string, real func(h *H), mod func(m Model) (Model, bool)) {
		ops = append(ops, Op{name + "#" + k, real, mod})
	}
	add("OrderBy(1)", func(h *H) { h.S = h.S.OrderBy(lk.Order("o" + k)) },
		always(func(m Model) Model { m.Orders = AddList(m.Orders, R("o"+k+" ASC")); return m }))
	add("Join(text)", func(h *H) { h.S = h.S.Join("j" + k + " ON j" + k + ".a = t.b") },
		always(func(m Model) Model {
			m.Joins = AddList(m.Joins, Cat(R("INNER JOIN"), I("j"+k), R("ON"), I("j"+k+".a"), R("="), I("t.b")))
			return m
		}))
	add("With(1)", func(h *H) {
		h.S = h.S.With(lk.With("w"+k, lk.Select("id").From("u").Where(lk.Condition("w").Equal("wv"+k))))
	}, always(func(m Model) Model {
		m.With = AddList(m.With, Cat(R("w"+k+" AS"), Paren(R("SELECT"), I("id"), R("FROM"), I("u"), R("WHERE"), Binary(I("w"), "=", S("wv"+k)))))
		return m
	}))
	add("Where", func(h *H) { c, _ := condEq("c"+k, "v"+k); h.S = h.S.Where(c) },
		func(m Model) (Model, bool) { _, t := condEq("c"+k, "v"+k); return m.AddWhere("", t) })
	add("And", func(h *H) { c, _ := condEq("a"+k, n); h.S = h.S.And(c) },
		func(m Model) (Model, bool) { _, t := condEq("a"+k, n); return m.AddWhere("AND", t) })
	add("Or", func(h *H) { h.S = h.S.Or(lk.Condition("r"+k).In(n, n+1)) },
		func(m Model) (Model, bool) {
			return m.AddWhere("OR", Paren(I("r"+k), R("IN"), Paren(List(S(n), S(n+1)))))
		})
	add("OrderBy(2)", func(h *H) { h.S = h.S.OrderBy(lk.Column("p"+k).Desc(), lk.Order("q"+k, lk.Asc)) },
		always(func(m Model) Model { m.Orders = AddList(m.Orders, R("p"+k+" DESC"), R("q"+k+" ASC")); return m }))
	add("Join(on)", func(h *H) { h.S = h.S.Join(lk.Table("k"+k).As("x"), lk.On("x.a", "t.c"+k), lk.LeftJoin) },
		always(func(m Model) Model {
			m.Joins = AddList(m.Joins, Cat(R("LEFT JOIN"), I("k"+k), R("AS"), I("x"), R("ON"), I("x.a"), R("="), I("t.c"+k)))
			return m
		}))
	add("With(2)", func(h *H) {
		h.S = h.S.With(lk.With("x"+k, lk.Raw("SELECT 1")), lk.With("y"+k, lk.Raw("SELECT 2")))
	}, always(func(m Model) Model {
		m.With = AddList(m.With, Cat(R("x"+k+" AS"), Paren(R("SELECT 1"))), Cat(R("y"+k+" AS"), Paren(R("SELECT 2"))))
		return m
	}))
	add("Limit", func(h *H) { h.S = h.S.Limit(n + 10) },
		func(m Model) (Model, bool) {
			if m.Limit != nil {
				return m, false
			}
			m.Limit = R(fmt.Sprint(n + 10))
			return m, true
		})
	add("Offset", func(h *H) { h.S = h.S.Offset(lk.Offset(int64(n + 20))) },
		func(m Model) (Model, bool) {
			if m.Offset != nil {
				return m, false
			}
			m.Offset = R(fmt.Sprint(n + 20))
			return m, true
		})
	add("GroupBy", func(h *H) { h.S = h.S.GroupBy("g"+k, "h"+k) },
		func(m Model) (Model, bool) {
			if m.GroupBy != nil {
				return m, false
			}
			m.GroupBy = List(I("g"+k), I("h"+k))
			return m, true
		})
	add("Having", func(h *H) { h.S = h.S.Having(stmt.NewCall("COUNT", lk.Raw("id")).GreaterThan(n)) },
		func(m Model) (Model, bool) {
			if m.Having != nil {
				return m, false
			}
			m.Having = Binary(R("COUNT(id)"), ">", S(n))
			return m, true
		})
	add("Columns", func(h *H) { h.S = h.S.Columns("z"+k, lk.Column("id").As("al"+k)) },
		always(func(m Model) Model { m.Exprs = List(I("z"+k), Cat(I("id"), R("AS"), I("al"+k))); return m }))
	add("Distinct", func(h *H) { h.S = h.S.Distinct() },
		always(func(m Model) Model { m.Distinct = true; return m }))
	add("DistinctOn", func(h *H) { h.S = h.S.DistinctOn("d" + k) },
		func(m Model) (Model, bool) {
			if m.DistinctOn != nil {
				return m, false
			}
			m.DistinctOn = I("d" + k)
			return m, true
		})
	add("Prefix", func(h *H) { h.S = h.S.Prefix("EXPLAIN p" + k) },
		func(m Model) (Model, bool) {
			if m.Prefix != nil {
				return m, false
			}
			m.Prefix = R("EXPLAIN p" + k)
			return m, true
		})
	add("Suffix", func(h *H) { h.S = h.S.Suffix("FOR UPDATE s" + k) },
		func(m Model) (Model, bool) {
			if m.Suffix != nil {
				return m, false
			}
			m.Suffix = R("FOR UPDATE s" + k)
			return m, true
		})
	add("Comment", func(h *H) { h.S = h.S.Comment("note" + k) },
		always(func(m Model) Model { m.Comment = "note" + k; return m }))
	add("From", func(h *H) { h.S = h.S.From("f"+k, lk.Table("g").As("g"+k)) },
		func(m Model) (Model, bool) {
			if m.From != nil {
				return m, false
			}
			m.From = List(I("f"+k), Cat(I("g"), R("AS"), I("g"+k)))
			return m, true
		})
	// Refused calls.
	add("bad With", func(h *H) {
		h.S = h.S.With(lk.With("b"+k, lk.Raw("SELECT 3")), stmt.WithQuery{})
	}, func(m Model) (Model, bool) { return m, false })
	add("bad OrderBy", func(h *H) { h.S = h.S.OrderBy(lk.Order("ok"+k), lk.Order("")) },
		func(m Model) (Model, bool) { return m, false })
	add("bad Join", func(h *H) { h.S = h.S.Join("j ON a = b", 3) },
		func(m Model) (Model, bool) { return m, false })
	return ops
}

// UpdateOps are operations on update builders.
func UpdateOps(n int) []Op {
	k := fmt.Sprint(n)
	var ops []Op
	add := func(name string, real func(h *H), mod func(m Model) (Model, bool)) {
		ops = append(ops, Op{name + "#" + k, real, mod})
	}
	setPairs := func(pairs ...Assign) func(m Model) (Model, bool) {
		return func(m Model) (Model, bool) {
			if len(m.SetCols) > 0 {
				return m, false
			}
			for _, p := range pairs {
				m = m.SetPair(p.Col, p.Toks)
			}
			return m, true
		}
	}
	add("Set(pair)", func(h *H) { h.U = h.U.Set(lk.Pair("s"+k, "sv"+k)) }, setPairs(Assign{"s" + k, S("sv" + k)}))
	add("Set(same)", func(h *H) { h.U = h.U.Set(lk.Pair("same", n)) }, setPairs(Assign{"same", S(n)}))
	add("Set(map)", func(h *H) { h.U = h.U.Set(lk.Map{"m" + k: n}, lk.Pair("same", "m"+k)) },
		setPairs(Assign{"m" + k, S(n)}, Assign{"same", S("m" + k)}))
	add("Set(zz)", func(h *H) {
		h.U = h.U.Set(lk.Pair(lk.Column("zz"+k), lk.Raw("NOW()")), map[string]interface{}{"a" + k: nil})
	},
		setPairs(Assign{"zz" + k, R("NOW()")}, Assign{"a" + k, S(nil)}))
	add("Set(cols)", func(h *H) { h.U = h.U.Set("l"+k, lk.Column("k"+k)) },
		func(m Model) (Model, bool) {
			if len(m.Assoc) > 0 {
				return m, false
			}
			m.SetCols = append(append([]string{}, m.SetCols...), "l"+k, "k"+k)
			return m, true
		})
	add("Using", func(h *H) { h.U = h.U.Using("u"+k, lk.Raw("DEFAULT")) },
		func(m Model) (Model, bool) {
			if len(m.SetCols) == 0 {
				return m, false
			}
			m.SetExprs = AddList(m.SetExprs, S("u"+k), R("DEFAULT"))
			return m, true
		})
	add("Where", func(h *H) { c, _ := condEq("c"+k, "v"+k); h.U = h.U.Where(c) },
		func(m Model) (Model, bool) { _, t := condEq("c"+k, "v"+k); return m.AddWhere("", t) })
	add("And", func(h *H) { c, _ := condEq("a"+k, n); h.U = h.U.And(c) },
		func(m Model) (Model, bool) { _, t := condEq("a"+k, n); return m.AddWhere("AND", t) })
	add("Or", func(h *H) { h.U = h.U.Or(lk.Condition("r" + k).IsNull(true)) },
		func(m Model) (Model, bool) { return m.AddWhere("OR", Binary(I("r"+k), "IS", R("NULL"))) })
	add("With(1)", func(h *H) { h.U = h.U.With(lk.With("w"+k, lk.Select("id").From("u").Limit(n+1))) },
		always(func(m Model) Model {
			m.With = AddList(m.With, Cat(R("w"+k+" AS"), Paren(R("SELECT"), I("id"), R("FROM"), I("u"), R("LIMIT"), R(fmt.Sprint(n+1)))))
			return m
		}))
	add("From", func(h *H) { h.U = h.U.From("f" + k) },
		func(m Model) (Model, bool) {
			if m.From != nil {
				return m, false
			}
			m.From = I("f" + k)
			return m, true
		})
	add("Returning", func(h *H) { h.U = h.U.Returning("e"+k, lk.Count("*")) },
		func(m Model) (Model, bool) {
			if m.Returning != nil {
				return m, false
			}
			m.Returning = List(I("e"+k), R("COUNT(*)"))
			return m, true
		})
	add("Only", func(h *H) { h.U = h.U.Only() }, always(func(m Model) Model { m.Only = true; return m }))
	add("Comment", func(h *H) { h.U = h.U.Comment("note" + k) },
		always(func(m Model) Model { m.Comment = "note" + k; return m }))
	// Refused half-way: the first argument is valid.
	add("bad Set", func(h *H) { h.U = h.U.Set(lk.Pair("same", "bad"+k), lk.Pair("bad"+k, 1), 42) },
		func(m Model) (Model, bool) { return m, false })
	add("bad Set(cols)", func(h *H) { h.U = h.U.Set("bad"+k, lk.Pair("bad"+k, 1)) },
		func(m Model) (Model, bool) { return m, false })
	add("bad Using", func(h *H) { h.U = h.U.Using("bad"+k, make(chan int)) },
		func(m Model) (Model, bool) { return m, false })
	return ops
}

// InsertOps are operations on insert builders.
func InsertOps(n int) []Op {
	k := fmt.Sprint(n)
	var ops []Op
	add := func(name string, real func(h *H), mod func(m Model) (Model, bool)) {
		ops = append(ops, Op{name + "#" + k, real, mod})
	}
	add("Columns", func(h *H) { h.N = h.N.Columns("a"+k, lk.Column("b"+k)) },
		func(m Model) (Model, bool) {
			if m.Columns != nil {
				return m, false
			}
			m.Columns = List(I("a"+k), I("b"+k))
			return m, true
		})
	add("Values", func(h *H) { h.N = h.N.Values("v"+k, n) },
		func(m Model) (Model, bool) {
			if m.Values != nil {
				return m, false
			}
			m.Values = Paren(List(S("v"+k), S(n)))
			return m, true
		})
	add("Set", func(h *H) { h.N = h.N.Set(lk.Map{"y" + k: n}, lk.Pair("x"+k, "x"+k)) },
		func(m Model) (Model, bool) {
			if m.Columns != nil || m.Values != nil {
				return m, false
			}
			m.Columns, m.Values = List(I("x"+k), I("y"+k)), Paren(List(S("x"+k), S(n)))
			return m, true
		})
	add("OnConflict(update)", func(h *H) { h.N = h.N.OnConflict("a"+k, lk.Column("b"+k), lk.DoUpdate(lk.Pair("q"+k, "u"+k))) },
		func(m Model) (Model, bool) {
			if m.Conflict != nil {
				return m, false
			}
			m.Conflict = Cat(Paren(List(I("a"+k), I("b"+k))), R("DO UPDATE SET"), I("q"+k), R("="), S("u"+k))
			return m, true
		})
	add("OnConflict(nothing)", func(h *H) { h.N = h.N.OnConflict(lk.DoNothing()) },
		func(m Model) (Model, bool) {
			if m.Conflict != nil {
				return m, false
			}
			m.Conflict = R("DO NOTHING")
			return m, true
		})
	add("Returning", func(h *H) { h.N = h.N.Returning("r"+k, lk.Column("i").As("j"+k)) },
		func(m Model) (Model, bool) {
			if m.Returning != nil {
				return m, false
			}
			m.Returning = List(I("r"+k), Cat(I("i"), R("AS"), I("j"+k)))
			return m, true
		})
	add("Comment", func(h *H) { h.N = h.N.Comment("note" + k) },
		always(func(m Model) Model { m.Comment = "note" + k; return m }))
	add("bad Into", func(h *H) { h.N = h.N.Into("other" + k) },
		func(m Model) (Model, bool) { return m, false })
	add("bad OnConflict", func(h *H) { h.N = h.N.OnConflict("bad"+k, "bad") },
		func(m Model) (Model, bool) { return m, false })
	add("bad Set", func(h *H) { h.N = h.N.Set(lk.Pair("bad"+k, 1), 42) },
		func(m Model) (Model, bool) { return m, false })
	return ops
}

// DeleteOps are operations on delete builders.
func DeleteOps(n int) []Op {
	k := fmt.Sprint(n)
	var ops []Op
	add := func(name string, real func(h *H), mod func(m Model) (Model, bool)) {
		ops = append(ops, Op{name + "#" + k, real, mod})
	}
	add("Where", func(h *H) { c, _ := condEq("c"+k, "v"+k); h.D = h.D.Where(c) },
		func(m Model) (Model, bool) { _, t := condEq("c"+k, "v"+k); return m.AddWhere("", t) })
	add("And", func(h *H) { c, _ := condEq("a"+k, n); h.D = h.D.And(c) },
		func(m Model) (Model, bool) { _, t := condEq("a"+k, n); return m.AddWhere("AND", t) })
	add("Or", func(h *H) { e, _ := subSelect("s" + k); h.D = h.D.Or(lk.Condition("r" + k).In(e)) },
		func(m Model) (Model, bool) {
			_, t := subSelect("s" + k)
			return m.AddWhere("OR", Paren(I("r"+k), R("IN"), Paren(t)))
		})
	add("Using", func(h *H) { h.D = h.D.Using("u"+k, lk.Table("x").As("x"+k)) },
		func(m Model) (Model, bool) {
			if m.Using != nil {
				return m, false
			}
			m.Using = List(I("u"+k), Cat(I("x"), R("AS"), I("x"+k)))
			return m, true
		})
	add("Returning", func(h *H) { h.D = h.D.Returning("e"+k, lk.Raw("r"+k)) },
		func(m Model) (Model, bool) {
			if m.Returning != nil {
				return m, false
			}
			m.Returning = List(I("e"+k), R("r"+k))
			return m, true
		})
	add("Comment", func(h *H) { h.D = h.D.Comment("note" + k) },
		always(func(m Model) Model { m.Comment = "note" + k; return m }))
	add("bad From", func(h *H) { h.D = h.D.From("other" + k) },
		func(m Model) (Model, bool) { return m, false })
	add("bad Where", func(h *H) { h.D = h.D.Where(nil) },
		func(m Model) (Model, bool) { return m, false })
	return ops
}

// Ops are the operations of a kind of builder.
func Ops(kind, n int) []Op {
	switch kind {
	case Select:
		return SelectOps(n)
	case Insert:
		return InsertOps(n)
	case Update:
		return UpdateOps(n)
	default:
		return DeleteOps(n)
	}
}

var _ = types.And
