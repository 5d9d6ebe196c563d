package checks

import (
	"fmt"
	"sort"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
)

// conflictArg is an argument of OnConflict.
type conflictArg struct {
	name string
	arg  func() interface{}
	col  []kit.Tok // a column
	act  []kit.Tok // an action
	// neither: refused wherever it is.
}

func colArg(name string, v interface{}, toks []kit.Tok) conflictArg {
	return conflictArg{name: name, arg: func() interface{} { return v }, col: toks}
}

func set1(col string, v []kit.Tok) []kit.Tok { return kit.Cat(kit.I(col), kit.R("="), v) }

func conflictArgs(full bool) []conflictArg {
	bad := func(name string, f func() interface{}) conflictArg { return conflictArg{name: name, arg: f} }
	out := []conflictArg{
		colArg("a", "a", kit.I("a")),
		colArg("Column(b)", lk.Column("b"), kit.I("b")),
		colArg("s.c", "s.c", kit.I("s.c")),
		{name: "DoNothing()", arg: func() interface{} { return lk.DoNothing() }, act: kit.R("DO NOTHING")},
		{name: "DoUpdate(pair)", arg: func() interface{} { return lk.DoUpdate(lk.Pair("x", 7)) }, act: kit.Cat(kit.R("DO UPDATE SET"), set1("x", kit.S(7)))},
		{name: "DoUpdate(map, pair)", arg: func() interface{} {
			return lk.DoUpdate(lk.Map{"z": "zz", "y": nil}, lk.Pair("x", int64(7)))
		}, act: kit.Cat(kit.R("DO UPDATE SET"), kit.List(set1("x", kit.S(int64(7))), set1("y", kit.R("NULL")), set1("z", kit.S("zz"))))},
		bad("DoUpdate()", func() interface{} { return lk.DoUpdate() }),
		bad("nil", func() interface{} { return nil }),
		bad(`""`, func() interface{} { return "" }),
		bad("Column()", func() interface{} { return lk.Column("") }),
		bad("zero update", func() interface{} { return stmt.ConflictUpdateAction{} }),
	}
	if !full {
		return out
	}
	return append(out,
		conflictArg{name: "zero nothing", arg: func() interface{} { return stmt.ConflictNoAction{} }, act: kit.R("DO NOTHING")},
		colArg("quoted", `d"d`, kit.I(`d"d`)),
		bad("DoUpdate(map{})", func() interface{} { return lk.DoUpdate(lk.Map{}) }),
		bad("DoUpdate(nil)", func() interface{} { return lk.DoUpdate(nil) }),
		bad("DoUpdate(column)", func() interface{} { return lk.DoUpdate("x") }),
		bad("DoUpdate(pair, column)", func() interface{} { return lk.DoUpdate(lk.Pair("x", 1), "y") }),
		bad("DoUpdate(empty key)", func() interface{} { return lk.DoUpdate(lk.Pair("", 1)) }),
		bad("DoUpdate(undefined)", func() interface{} { return lk.DoUpdate(lk.Pair("x", lk.Raw(""))) }),
		bad("42", func() interface{} { return 42 }),
		bad("blank", func() interface{} { return " " }),
		bad("[]string", func() interface{} { return []string{"a", "b"} }),
		bad("[]Column", func() interface{} { return []stmt.Column{lk.Column("a")} }),
		bad("Raw", func() interface{} { return lk.Raw("a") }),
		bad("Table", func() interface{} { return lk.Table("a") }),
		bad("*update", func() interface{} { u := lk.DoUpdate(lk.Pair("x", 1)); return &u }),
		bad("OnConflict", func() interface{} { return stmt.NewOnConflict(stmt.NewConflictTarget(nil), lk.DoNothing()) }),
		bad("target", func() interface{} { return stmt.NewConflictTarget([]stmt.Column{lk.Column("a")}) }),
		bad("Pair", func() interface{} { return lk.Pair("a", 1) }),
		bad("Map", func() interface{} { return lk.Map{"a": 1} }),
		bad("[]interface{}", func() interface{} { return []interface{}{"a", lk.DoNothing()} }),
	)
}

// c21Args: every list of arguments.
func c21Args(full bool, quick, thorough int) func(x *engine.X) {
	args := conflictArgs(full)
	return func(x *engine.X) {
		n := x.Pick(tier(x, quick, thorough)+1, "arguments")
		var list []conflictArg
		for i := 0; i < n; i++ {
			list = append(list, args[x.Pick(len(args), "argument")])
		}
		name := ""
		var cols [][]kit.Tok
		ok := n > 0
		var act []kit.Tok
		update := false
		for i, a := range list {
			name += a.name + " "
			switch {
			case a.col != nil:
				cols = append(cols, a.col)
				if i == n-1 {
					ok = false
				}
			case a.act != nil:
				act = a.act
				update = act[1].S == "UPDATE"
				if i != n-1 {
					ok = false
				}
			default:
				ok = false
			}
		}
		if update && len(cols) == 0 {
			ok = false
		}
		x.Op("OnConflict(%s)", name)
		base := kit.H{N: lk.Insert("t").Columns("k").Values("v"), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.I("k"), Values: kit.Paren(kit.S("v"))}}
		h := base
		call := func() {
			l := []interface{}{}
			for _, a := range list {
				l = append(l, a.arg())
			}
			h.N = base.N.OnConflict(l...)
		}
		what := fmt.Sprintf("OnConflict(%s)", name)
		if !ok {
			mustRefuse(x, "incomplete", what, func() {
				call()
				_, _ = h.N.Query()
			})
			verify(x, base, kit.FQuery, "incomplete", "the insert after the refusal of "+what)
			// A refused clause is not half defined.
			h.N = base.N.OnConflict("q", lk.DoNothing())
			h.M.Conflict = kit.Cat(kit.Paren(kit.I("q")), kit.R("DO NOTHING"))
			verify(x, h, kit.FQuery, "incomplete", "another clause after the refusal of "+what)
			return
		}
		must(x, "accepted", what, call)
		h.M.Conflict = act
		if len(cols) > 0 {
			h.M.Conflict = kit.Cat(kit.Paren(kit.List(cols...)), act)
		}
		verify(x, h, kit.FAll, "accepted", what)
		// A second one is refused.
		for _, second := range [][]interface{}{{lk.DoNothing()}, {"a", lk.DoNothing()}, {"a", lk.DoUpdate(lk.Pair("x", 1))}, {}} {
			mustRefuse(x, "second", what+" then another one", func() { h.N.OnConflict(second...) })
		}
		// Before RETURNING.
		h.N, h.M.Returning = h.N.Returning("r", lk.Raw("now()")), kit.Cat(kit.I("r"), kit.R(", now()"))
		verify(x, h, kit.FAll, "accepted", what+" with RETURNING")
		verify(x, base, kit.FQuery, "accepted", "the insert before "+what)
		x.State(h.M.Key())
	}
}

// c21Updates: every list of assignments.
func c21Updates(x *engine.X) {
	type asg struct {
		col string
		v   interface{}
		t   []kit.Tok
	}
	n := 1 + x.Pick(tier(x, 4, 5), "assignments")
	names := []string{"b", "a", "s.a", "B", "a\"", "é"}
	seen := map[string]bool{}
	var list []asg
	for i := 0; i < n; i++ {
		c := names[x.Choose(len(names), "column")+0]
		if i < len(names) && seen[c] {
			// A new column by default.
			for _, m := range names {
				if !seen[m] {
					c = m
					break
				}
			}
		}
		seen[c] = true
		v, t := cellForm(x.Choose(nCellForms, "value"), i)
		list = append(list, asg{c, v, t})
	}
	if x.Choose(2, "a column again") == 1 {
		v, t := cellForm(x.Choose(nCellForms, "value"), n+3)
		list = append(list, asg{list[0].col, v, t})
	}
	// Pairs, maps or a mix.
	form := x.Pick(6, "form")
	var args []interface{}
	m := lk.Map{}
	for i, a := range list {
		switch {
		case form == 0:
			args = append(args, lk.Pair(a.col, a.v))
		case form == 1:
			args = append(args, lk.Pair(lk.Column(a.col), a.v))
		case form == 2:
			m[a.col] = a.v
		case form == 3:
			args = append(args, map[string]interface{}{a.col: a.v})
		case form == 4 && i < len(list)/2:
			args = append(args, types.Pair{Key: a.col, Value: a.v})
		case form == 4:
			m[a.col] = a.v
		case form == 5 && i%2 == 0:
			args = append(args, lk.Map{a.col: a.v})
		default:
			args = append(args, lk.Pair(a.col, a.v))
		}
	}
	if len(m) > 0 {
		args = append(args, m)
	}
	last := map[string][]kit.Tok{}
	for _, a := range list {
		last[a.col] = a.t
	}
	var cols []string
	for c := range last {
		cols = append(cols, c)
	}
	sort.Strings(cols)
	var items [][]kit.Tok
	for _, c := range cols {
		items = append(items, set1(c, last[c]))
	}
	target := []string{"k", list[0].col, list[len(list)-1].col}[x.Pick(3, "target")]
	want := kit.Cat(kit.Paren(kit.I(target)), kit.R("DO UPDATE SET"), kit.List(items...))
	x.Op("DoUpdate(%v)", args)
	for i, build := range []func(l lkInsert) lkInsert{
		func(l lkInsert) lkInsert { return l.OnConflict(target, lk.DoUpdate(args...)) },
		func(l lkInsert) lkInsert { return l.OnConflict(lk.Column(target), lk.DoUpdate(args...)).Returning("r") },
	} {
		h := kit.H{M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.List(kit.Paren(kit.S("v")), kit.Paren(kit.S("w"))), Conflict: want}}
		must(x, "update", "DoUpdate", func() { h.N = build(lk.Insert("t").Values([][]string{{"v"}, {"w"}})) })
		if i == 1 {
			h.M.Returning = kit.I("r")
		}
		verify(x, h, kit.FAll, "update", fmt.Sprintf("DoUpdate(%v)", args))
		x.State(h.M.Key())
	}
}

// c21Contents: targets and assignments that coincide, of unusual contents.
func c21Contents(x *engine.X) {
	targets := [][]string{{"a"}, {"b", "a"}, {"a", "b"}, {"a", "a"}, {"t", "a"}}[x.Pick(5, "targets")]
	cols := [][]string{{"a"}, {"a", "b"}, {"a", "t"}, {"a", "b", "c"}}[x.Pick(4, "columns")]
	var args, to []interface{}
	var items, tt [][]kit.Tok
	for i, col := range cols {
		k := 0
		if i < 2 {
			k = x.Pick(nOddCells, "value")
		}
		must(x, "contents", "value", func() {
			c := oddCells(col)[k]
			args, items = append(args, lk.Pair(col, c.v)), append(items, set1(col, c.t))
		})
	}
	for _, t := range targets {
		to, tt = append(to, t), append(tt, kit.I(t))
	}
	h := kit.H{M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.List(kit.I("a"), kit.I("b")), Values: kit.Paren(kit.List(kit.S(1), kit.S(2))),
		Conflict: kit.Cat(kit.Paren(kit.List(tt...)), kit.R("DO UPDATE SET"), kit.List(items...))}}
	x.Op("OnConflict(%v, DoUpdate(%v))", targets, args)
	must(x, "contents", "OnConflict", func() {
		h.N = lk.Insert("t").Columns("a", "b").Values(1, 2).OnConflict(append(to, lk.DoUpdate(args...))...)
	})
	verify(x, h, kit.FQuery|kit.FString, "contents", "DoUpdate")
	x.State(h.M.Key())
}

// c21Place: the clause is at its place in every insert, whatever the calls.
func c21Place(x *engine.X) {
	g := &kit.Gen{C: x, Depth: tier(x, 1, 2)}
	h := g.InsertStmt()
	x.Op("%s", h.M.Key())
	if h.M.Conflict == nil {
		a, ta := g.Val()
		act := x.Pick(3, "action")
		must(x, "place", "OnConflict", func() {
			switch act {
			case 0:
				h.N, h.M.Conflict = h.N.OnConflict(lk.DoNothing()), kit.R("DO NOTHING")
			case 1:
				h.N = h.N.OnConflict("p", "q", lk.DoUpdate(lk.Pair("u", a)))
				h.M.Conflict = kit.Cat(kit.Paren(kit.List(kit.I("p"), kit.I("q"))), kit.R("DO UPDATE SET"), set1("u", ta))
			case 2:
				h.N, h.M.Conflict = h.N.OnConflict(lk.Column("p"), lk.DoNothing()), kit.Cat(kit.Paren(kit.I("p")), kit.R("DO NOTHING"))
			}
		})
	}
	verify(x, h, kit.FAll, "place", "insert with ON CONFLICT")
	mustRefuse(x, "second", "a second OnConflict", func() { h.N.OnConflict(lk.DoNothing()) })
	x.State(h.M.Key())
}

// c21Many: many assignments of DO UPDATE, in every form.
func c21Many(x *engine.X) {
	sizes := []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 128, 129, 257, 1001, 4097}
	n := sizes[x.Pick(len(sizes), "assignments")]
	form := x.Pick(5, "form")
	again := x.PickBool("columns again")
	perm := x.Pick(3, "order")
	m := lk.Map{}
	var args []interface{}
	var items [][]kit.Tok
	name := func(i int) string { return fmt.Sprintf("c%05d", i) }
	for i := 0; i < n; i++ {
		k := []int{i, n - 1 - i, (i*2)%n + (i*2)/n}[perm]
		if perm == 2 && n%2 == 1 {
			k = i * 2 % n
		}
		if again && k%3 == 0 {
			args = append(args, lk.Pair(name(k), "previous"))
		}
		switch form {
		case 0:
			args = append(args, lk.Pair(name(k), k))
		case 1:
			args = append(args, lk.Pair(lk.Column(name(k)), k))
		case 2:
			m[name(k)] = k
		case 3:
			args = append(args, map[string]interface{}{name(k): k})
		case 4:
			if i%2 == 0 {
				m[lk.Column(name(k))] = k
			} else {
				args = append(args, lk.Pair(name(k), k))
			}
		}
	}
	if len(m) > 0 {
		args = append(args, m)
	}
	for i := 0; i < n; i++ {
		items = append(items, set1(name(i), kit.S(i)))
	}
	h := kit.H{M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.Paren(kit.S("v")), Returning: kit.I("r"),
		Conflict: kit.Cat(kit.Paren(kit.I("k")), kit.R("DO UPDATE SET"), kit.List(items...))}}
	x.Op("%d assignments, form %d", n, form)
	must(x, "many", "DoUpdate", func() { h.N = lk.Insert("t").Values("v").OnConflict("k", lk.DoUpdate(args...)).Returning("r") })
	verify(x, h, kit.FAll, "many", fmt.Sprintf("DoUpdate of %d assignments", n))
	x.State(fmt.Sprint(n, form, again, perm))
}

// c21Targets: long lists of targets.
func c21Targets(x *engine.X) {
	sizes := []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 64, 100, 257, 1001, 4097, 65537}
	n := sizes[x.Pick(len(sizes), "columns")]
	update := x.PickBool("update")
	var args []interface{}
	var toks [][]kit.Tok
	for i := 0; i < n; i++ {
		c := fmt.Sprintf("c%d", (i*7)%n)
		if i%2 == 0 {
			args = append(args, c)
		} else {
			args = append(args, lk.Column(c))
		}
		toks = append(toks, kit.I(c))
	}
	h := kit.H{M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.Paren(kit.S(1))}}
	if update {
		args = append(args, lk.DoUpdate(lk.Pair("z", 2)))
		h.M.Conflict = kit.Cat(kit.Paren(kit.List(toks...)), kit.R("DO UPDATE SET"), set1("z", kit.S(2)))
	} else {
		args = append(args, lk.DoNothing())
		h.M.Conflict = kit.Cat(kit.Paren(kit.List(toks...)), kit.R("DO NOTHING"))
	}
	x.Op("%d columns", n)
	must(x, "targets", "OnConflict", func() { h.N = lk.Insert("t").Values(1).OnConflict(args...) })
	verify(x, h, kit.FAll, "targets", fmt.Sprintf("OnConflict of %d columns", n))
	x.State(h.M.Key())
}

// c21Names: targets whose names look alike stay as given.
func c21Names(x *engine.X) {
	n := 2 + x.Pick(2, "targets")
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, c09Confusing[x.Pick(len(c09Confusing), "target")])
	}
	form := x.Pick(3, "form")
	update := x.PickBool("update")
	set := c09Confusing[0]
	if update {
		set = append(names, "z")[x.Pick(n+1, "assigned")]
	}
	var args, columns []interface{}
	var toks [][]kit.Tok
	for i, c := range names {
		columns = append(columns, lk.Column(c))
		if form == 0 || form == 2 && i%2 == 1 {
			args = append(args, c)
		} else {
			args = append(args, lk.Column(c))
		}
		toks = append(toks, kit.I(c))
	}
	h := kit.H{M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.List(toks...), Values: kit.Paren(kit.List(kit.S(1), kit.S(2)))}}
	x.Op("OnConflict(%q)", names)
	must(x, "names", "OnConflict", func() {
		h.N = lk.Insert("t").Columns(columns...).Values(1, 2)
		if update {
			h.N = h.N.OnConflict(append(args[:n:n], lk.DoUpdate(lk.Pair(set, 3)))...)
			h.M.Conflict = kit.Cat(kit.Paren(kit.List(toks...)), kit.R("DO UPDATE SET"), set1(set, kit.S(3)))
		} else {
			h.N = h.N.OnConflict(append(args[:n:n], lk.DoNothing())...)
			h.M.Conflict = kit.Cat(kit.Paren(kit.List(toks...)), kit.R("DO NOTHING"))
		}
	})
	verify(x, h, kit.FQuery, "names", "OnConflict")
	x.State(h.M.Key())
}

func init() {
	register("C21", func() engine.Check {
		return engine.Check{ID: "C21", Scenarios: []engine.Scenario{
			{Name: "arguments", Fn: c21Args(false, 4, 5), Bounds: fmt.Sprintf("every list of 0 to 4 (thorough 5) of %d arguments: columns, actions and what is neither", len(conflictArgs(false)))},
			{Name: "more arguments", Fn: c21Args(true, 3, 4), Bounds: fmt.Sprintf("every list of 0 to 3 (thorough 4) of %d arguments", len(conflictArgs(true)))},
			{Name: "updates", Fn: c21Updates, Quick: 2, Thorough: 3, Bounds: "1 to 4 (thorough 5) assignments and one repeated column, in 6 forms, at most 2 (thorough 3) other columns or values of 16 forms, the target being another column, the first or the last one assigned"},
			{Name: "contents", Fn: c21Contents, Bounds: fmt.Sprintf("5 lists of targets x 1 to 3 assignments, of target columns or not, the first two of any of %d values of unusual contents", nOddCells)},
			{Name: "names", Fn: c21Names, Bounds: fmt.Sprintf("2 or 3 targets of %d names which look alike, as strings, columns or both, with DO NOTHING or DO UPDATE of one of them or of another column", len(c09Confusing))},
			{Name: "place", Fn: c21Place, Quick: 2, Thorough: 3, Bounds: "every insert of the grammar with at most 2 (thorough 3) variants"},
			{Name: "many updates", Fn: c21Many, Bounds: "24 sizes from 5 to 4097 assignments x 5 forms x 3 orders x a third of the columns given twice or not"},
			{Name: "targets", Fn: c21Targets, Bounds: "1 to 65537 columns"},
		}, Assumptions: []string{"target and assigned columns have no alias"}}
	})
}
