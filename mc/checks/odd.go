package checks

import (
	"fmt"
	"reflect"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// oddConds are conditions of unusual contents: constants, comparisons of an
// operand with itself, empty and NULL lists, lone operands.
func oddConds() (out []oddCond) {
	add := func(e stmt.Expression, t []kit.Tok) { out = append(out, oddCond{e, t}) }
	a := lk.Condition("a")
	I, R, S, P, Bin, Cat := kit.I("a"), kit.R, kit.S, kit.Paren, kit.Binary, kit.Cat
	add(a.Equal(1), Bin(I, "=", S(1)))
	for _, s := range []string{"TRUE", "true", "FALSE", "false", "NULL", "1 = 1", "1 = 0", "a", `"a" = "a"`, "0", "1", "''"} {
		if s == "1 = 1" || s == "1 = 0" || s == `"a" = "a"` {
			add(lk.Raw(s), R(s))
			continue
		}
		add(lk.Raw(s), R(s))
		add(a.Equal(lk.Raw(s)), Bin(I, "=", R(s)))
	}
	add(a, I)
	add(a.Equal(a), Bin(I, "=", I))
	add(a.NotEqual(a), Bin(I, "!=", I))
	add(a.Equal(lk.Condition("A")), Bin(I, "=", kit.I("A")))
	add(a.In(), P(I, R("IN"), P()))
	add(a.NotIn(), P(I, R("NOT IN"), P()))
	add(a.In([]int{}), P(I, R("IN"), P()))
	add(a.In(nil), P(I, R("IN"), P()))
	add(a.NotIn(nil, nil), P(I, R("NOT IN"), P(kit.List(R("NULL"), R("NULL")))))
	add(a.In(a), P(I, R("IN"), P(I)))
	add(a.In(1, 1), P(I, R("IN"), P(kit.List(S(1), S(1)))))
	add(a.In(2, 1), P(I, R("IN"), P(kit.List(S(2), S(1)))))
	add(a.Between(2, 1), P(I, R("BETWEEN"), S(2), R("AND"), S(1)))
	add(a.Between(1, 1), P(I, R("BETWEEN"), S(1), R("AND"), S(1)))
	add(a.NotBetween(nil, nil), P(I, R("NOT BETWEEN"), R("NULL"), R("AND"), R("NULL")))
	add(a.Between(a, a), P(I, R("BETWEEN"), I, R("AND"), I))
	add(a.Equal(nil), Bin(I, "=", R("NULL")))
	add(a.IsNull(true), Bin(I, "IS", R("NULL")))
	add(a.IsNull(false), Bin(I, "IS NOT", R("NULL")))
	add(a.IsDistinctFrom(nil), Bin(I, "IS DISTINCT FROM", R("NULL")))
	for _, v := range []interface{}{true, false, 0, "", "a", "NULL", "%"} {
		add(lk.Value(v), S(v))
		add(a.Equal(v), Bin(I, "=", S(v)))
		add(lk.Value(v).Equal(v), Bin(S(v), "=", S(v)))
	}
	add(a.Like("%"), Bin(I, "LIKE", S("%")))
	add(a.NotLike(""), Bin(I, "NOT LIKE", S("")))
	add(stmt.NewCall("a"), Cat(R("a"), P()))
	add(stmt.NewCall("a", lk.Value(nil)).Equal(nil), Bin(Cat(R("a"), P(R("NULL"))), "=", R("NULL")))
	add(stmt.NewCall("NOT", lk.Raw("TRUE")), Cat(R("NOT"), P(R("TRUE"))))
	sub := lk.Select("a").From("a")
	ts := Cat(R("SELECT"), I, R("FROM"), I)
	add(a.In(sub), P(I, R("IN"), P(ts)))
	add(a.Equal(sub), Bin(I, "=", P(ts)))
	add(lk.Exists(sub), Cat(R("EXISTS"), P(ts)))
	add(lk.NotExists(sub), Cat(R("NOT EXISTS"), P(ts)))
	add(lk.Exists(sub.Limit(1)), Cat(R("EXISTS"), P(Cat(ts, R("LIMIT 1")))))
	return out
}

type oddCond struct {
	e stmt.Expression
	t []kit.Tok
}

const nOddConds = 73

// oddGiven builds a statement of two or three of the unusual conditions.
func oddGiven(x *engine.X) (h kit.H, clause string) {
	kind := []int{kit.Select, kit.Update, kit.Delete}[x.Pick(3, "kind")]
	h = kit.Start(kind)
	if kind == kit.Update {
		h.U = h.U.Set(lk.Pair("set", 1))
		h.M.Assoc = []kit.Assign{{Col: "set", Toks: kit.S(1)}}
	}
	var conds []oddCond
	must(x, "odd", "conditions", func() { conds = oddConds() })
	if len(conds) != nOddConds {
		panic(fmt.Sprint(len(conds), " conditions"))
	}
	c, d := conds[x.Pick(nOddConds, "first")], conds[x.Pick(nOddConds, "second")]
	l, tl, r, tr := c.e, c.t, d.e, d.t
	ops := []string{"AND", "OR"}
	op := x.Pick(2, "operator")
	join := func(l stmt.Expression, op int, r stmt.Expression) stmt.Expression {
		if op == 1 {
			return lk.Or(l, r)
		}
		return lk.And(l, r)
	}
	both := kit.Binary(tl, ops[op], tr)
	where := func(call int, c stmt.Expression) {
		switch kind {
		case kit.Select:
			h.S = []func(stmt.Expression) lkSelect{h.S.Where, h.S.And, h.S.Or}[call](c)
		case kit.Update:
			h.U = []func(stmt.Expression) lkUpdate{h.U.Where, h.U.And, h.U.Or}[call](c)
		default:
			h.D = []func(stmt.Expression) lkDelete{h.D.Where, h.D.And, h.D.Or}[call](c)
		}
	}
	routes := 5
	if kind == kit.Select {
		routes = 8
	}
	switch x.Pick(routes, "route") {
	case 0:
		where(0, l)
		where(1+op, r)
		h.M.Where = both
	case 1:
		where(0, join(l, op, r))
		h.M.Where = both
	case 2: // by the methods of the left operand
		switch c := l.(type) {
		case stmt.InfixExpression:
			l = []func(stmt.Expression) stmt.InfixExpression{c.And, c.Or}[op](r)
		case stmt.In:
			l = []func(stmt.Expression) stmt.InfixExpression{c.And, c.Or}[op](r)
		default:
			x.Skip()
		}
		where(0, l)
		h.M.Where = both
	case 3: // a third one, alike the first
		where(0, join(l, op, r))
		where(2-op, l)
		h.M.Where = kit.Binary(both, ops[1-op], tl)
	case 4:
		where(0, r)
		where(1+op, join(l, 1-op, r))
		h.M.Where = kit.Binary(tr, ops[op], kit.Binary(tl, ops[1-op], tr))
	case 5:
		h.S = h.S.GroupBy("g").Having(join(l, op, r))
		h.M.GroupBy, h.M.Having = kit.I("g"), both
		return h, "HAVING"
	case 6:
		h.S = h.S.Join(stmt.NewLeftJoin(lk.Table("j"), join(l, op, r)))
		h.M.Joins = [][]kit.Tok{kit.Cat(kit.R("LEFT JOIN"), kit.I("j"), kit.R("ON"), both)}
		return h, "ON"
	case 7:
		h.S = h.S.Where(l)
		if op == 1 {
			h.S = h.S.Where(r)
		}
		h.S = h.S.Where(r)
		h.M.Where = kit.Binary(tl, "AND", tr)
		if op == 1 {
			h.M.Where = kit.Binary(h.M.Where, "AND", tr)
		}
	}
	return h, "WHERE"
}

// permute reorders a typed list and its tokens: reversed, shuffled or all the
// same element.
func permute(order int, l interface{}, t [][]kit.Tok) (interface{}, [][]kit.Tok) {
	n := len(t)
	if order == 0 || n < 2 {
		return l, t
	}
	src := reflect.ValueOf(l)
	dst := reflect.MakeSlice(src.Type(), n, n)
	toks := make([][]kit.Tok, n)
	for i := 0; i < n; i++ {
		k := n - 1 - i
		switch order {
		case 2:
			k = i * 7 % n
			if n%7 == 0 {
				k = i * 5 % n
			}
			if n%35 == 0 {
				k = i * 3 % n
			}
		case 3:
			k = n / 2
		}
		dst.Index(i).Set(src.Index(k))
		toks[i] = t[k]
	}
	return dst.Interface(), toks
}

type oddCell struct {
	v interface{}
	t []kit.Tok
}

const nOddCells = 26

// oddCells are values of unusual contents to assign to a column.
func oddCells(col string) (out []oddCell) {
	add := func(v interface{}, t []kit.Tok) { out = append(out, oddCell{v, t}) }
	add("v", kit.S("v"))
	for _, s := range []string{"DEFAULT", "default", "NULL", col, `"` + col + `"`, "EXCLUDED." + col, "t." + col, col + " + 1", "now()", "''", "0"} {
		add(lk.Raw(s), kit.R(s))
	}
	for _, v := range []interface{}{"", 0, false, true, "DEFAULT", "NULL", col, []byte{}, 0.0} {
		add(v, kit.S(v))
	}
	add(nil, kit.R("NULL"))
	add(lk.Condition(col), kit.I(col))
	add(lk.Value(col), kit.S(col))
	add(stmt.NewCall(col), kit.Cat(kit.R(col), kit.Paren()))
	add(lk.Select(col).From("t"), kit.Paren(kit.R("SELECT"), kit.I(col), kit.R("FROM"), kit.I("t")))
	if len(out) != nOddCells {
		panic(fmt.Sprint(len(out), " values"))
	}
	return out
}
