package checks

import (
	"fmt"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// genStmt builds the statement of an execution.
func genStmt(x *engine.X, g *kit.Gen, key string) kit.H {
	kind := x.Pick(kit.NKinds, "kind")
	var h kit.H
	must(x, key, "building a statement", func() { h = g.Stmt(kind) })
	x.Op("build a statement of %d values", g.Values())
	x.Logf("%s", h.M.Key())
	return h
}

var valueModes = []struct {
	name string
	v    func(i int) interface{}
}{
	{"distinct values", kit.DefaultValue},
	{"equal values", func(int) interface{} { return 7 }},
	{"equal strings", func(int) interface{} { return "same" }},
	{"zero values", func(i int) interface{} { return []interface{}{0, "", false, 0.0, []byte{}}[i%5] }},
	{"alternating nil", func(i int) interface{} {
		if i%2 == 0 {
			return nil
		}
		return i
	}},
	{"mostly nil", func(i int) interface{} {
		if i%3 != 2 {
			return nil
		}
		return "x"
	}},
	{"descending values", func(i int) interface{} { return 1000 - i }},
}

func c02Statements(x *engine.X) {
	g := &kit.Gen{C: x, Depth: 2}
	g.V = valueModes[x.Pick(len(valueModes), "values")].v
	h := genStmt(x, g, "statement")
	verify(x, h, kit.FQuery|kit.FNamed, "statement", "statement")
	x.State(h.M.Key())
}

const manyPlaces = 9

// manyValues builds a statement with n values in some place.
func manyValues(x *engine.X, place, n int, equal bool) (h kit.H) {
	val := func(i int) interface{} {
		if equal {
			return "same"
		}
		return kit.DefaultValue(i)
	}
	var vals []interface{}
	var slots [][]kit.Tok
	for i := 0; i < n; i++ {
		vals, slots = append(vals, val(i)), append(slots, kit.S(val(i)))
	}
	deep := n > 1100
	switch place {
	case 0: // IN list, variadic
		h = kit.Start(kit.Delete)
		h.D = h.D.Where(lk.Condition("c").In(vals...))
		h.M.Where = kit.Paren(kit.I("c"), kit.R("IN"), kit.Paren(kit.List(slots...)))
		if n == 1 {
			if _, ok := vals[0].([]byte); ok {
				x.Skip()
			}
		}
	case 1: // NOT IN list, slice
		h = kit.Start(kit.Select)
		h.S = h.S.Where(lk.Condition("c").NotIn(vals)).And(lk.Condition("d").Equal("last"))
		h.M.Where = kit.Binary(kit.Paren(kit.I("c"), kit.R("NOT IN"), kit.Paren(kit.List(slots...))), "AND", kit.Binary(kit.I("d"), "=", kit.S("last")))
	case 2: // one row
		if n == 0 {
			x.Skip()
		}
		h = kit.Start(kit.Insert)
		h.N = h.N.Values(vals)
		h.M.Values = kit.Paren(kit.List(slots...))
	case 3: // rows of 3 cells and the rest
		if n == 0 {
			x.Skip()
		}
		h = kit.Start(kit.Insert)
		var rows [][]interface{}
		var toks [][]kit.Tok
		for i := 0; i < n; i += 3 {
			e := i + 3
			if e > n {
				e = n
			}
			rows = append(rows, vals[i:e])
			toks = append(toks, kit.Paren(kit.List(slots[i:e]...)))
		}
		h.N = h.N.Values(rows)
		h.M.Values = kit.List(toks...)
	case 4: // chain of conditions
		if deep || n == 0 {
			x.Skip()
		}
		h = kit.Start(kit.Delete)
		for i := range vals {
			c := lk.Condition("c").Equal(vals[i])
			t := kit.Binary(kit.I("c"), "=", slots[i])
			if i%2 == 1 {
				h.D = h.D.Or(c)
				h.M.Where = kit.Binary(h.M.Where, "OR", t)
			} else {
				h.D = h.D.Where(c)
				h.M, _ = h.M.AddWhere("", t)
			}
		}
	case 5: // assignments
		if n == 0 {
			x.Skip()
		}
		h = kit.Start(kit.Update)
		m := lk.Map{}
		for i := range vals {
			c := fmt.Sprintf("c%06d", i)
			m[c] = vals[i]
			h.M.Assoc = append(h.M.Assoc, kit.Assign{Col: c, Toks: slots[i]})
		}
		h.U = h.U.Set(m).Where(lk.Condition("d").Equal("last"))
		h.M.Where = kit.Binary(kit.I("d"), "=", kit.S("last"))
	case 6: // column list
		if n == 0 {
			x.Skip()
		}
		h = kit.Start(kit.Update)
		h.U = h.U.Set("a", "b").Using(vals...)
		h.M.SetCols, h.M.SetExprs = []string{"a", "b"}, slots
	case 7: // arguments of a call
		var args []stmt.Expression
		for i := range vals {
			args = append(args, lk.Value(vals[i]))
		}
		h = kit.Start(kit.Select)
		h.S = h.S.Where(stmt.NewCall("F", args...).Equal("last"))
		h.M.Where = kit.Binary(kit.Cat(kit.R("F"), kit.Paren(kit.List(slots...))), "=", kit.S("last"))
	case 8: // nested subqueries, one value each
		if deep || n > 130 || n == 0 {
			x.Skip()
		}
		h = kit.Start(kit.Select)
		s := lk.Select("id").From("t").Where(lk.Condition("c").Equal(vals[0]))
		t := kit.Binary(kit.I("c"), "=", slots[0])
		for i := 1; i < n; i++ {
			sub := kit.Cat(kit.R("SELECT"), kit.I("id"), kit.R("FROM"), kit.I("t"), kit.R("WHERE"), t)
			s = lk.Select("id").From("t").Where(lk.Condition("c").In(s)).And(lk.Condition("c").Equal(vals[i]))
			t = kit.Binary(kit.Paren(kit.I("c"), kit.R("IN"), kit.Paren(sub)), "AND", kit.Binary(kit.I("c"), "=", slots[i]))
		}
		h.S = s
		h.M.Where = t
	}
	return h
}

// c02Many: n values in one statement, for every kind of list.
func c02Many(x *engine.X) {
	sizes := []int{0, 1, 2, 3, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 65537}
	if x.Thorough {
		sizes = append(sizes, 99999, 100000, 131073, 262145)
	}
	n := sizes[x.Pick(len(sizes), "size")]
	equal := x.PickBool("equal values")
	place := x.Pick(manyPlaces, "place")
	h := manyValues(x, place, n, equal)
	x.Op("statement with %d values", n)
	verify(x, h, kit.FQuery|kit.FNamed, "many", fmt.Sprintf("%d values", n))
	x.State(fmt.Sprint(place, n, equal))
}

// c02Product: every combination of the variants of all the clauses.
func c02Product(x *engine.X) {
	g := &kit.Gen{C: x, Free: true}
	g.V = valueModes[x.Pick(2, "values")].v
	h := genStmt(x, g, "product")
	verify(x, h, kit.FQuery|kit.FNamed, "product", "statement")
	x.State(h.M.Key())
}

func init() {
	register("C02", func() engine.Check {
		return engine.Check{ID: "C02", Scenarios: []engine.Scenario{
			{Name: "statements", Fn: c02Statements, Quick: 3, Thorough: 4,
				Bounds: "4 kinds x 7 value patterns (distinct, equal, descending, zero, nil) x every combination of 3 (thorough 4) non-default variants over all clauses, condition forms, cells, subqueries (nesting 2) and names (distinct or alike)"},
			{Name: "product", Fn: c02Product,
				Bounds: "every combination of the variants of all the clauses at once, with distinct names and calls in grammar order, or names alike and calls reversed; distinct or equal values"},
			{Name: "many values", Fn: c02Many,
				Bounds: "0 to 65537 (thorough 262145) values at the sizes around the powers of 2 and 10, in 9 kinds of lists, equal or distinct"},
		}}
	})
}
