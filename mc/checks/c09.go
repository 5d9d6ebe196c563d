package checks

import (
	"fmt"
	"sort"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// Column names chosen so that insertion, byte and alphabetical orders differ.
var c09Cols = []string{"m", "b", "B", "a.z", "zz", "é", "b_", "aa", "10", "9", "order"}

type assigned struct {
	col string
	v   interface{}
	t   []kit.Tok
}

// carry turns assignments into arguments: each one is a pair with a string or
// a column as key, or an item of a map that is either new or the previous one.
func carry(x *engine.X, as []assigned, free bool) (args []interface{}) {
	pick := x.Choose
	if free {
		pick = x.Pick
	}
	has := func(m map[string]bool, c string) bool { return m[c] }
	var inMap map[string]bool
	for _, a := range as {
		form := pick(6, "form of "+a.col)
		var last interface{}
		if len(args) > 0 {
			last = args[len(args)-1]
		}
		switch form {
		case 0:
			args = append(args, lk.Pair(a.col, a.v))
		case 1:
			args = append(args, lk.Pair(lk.Column(a.col), a.v))
		case 2: // a string map
			if m, ok := last.(map[string]interface{}); ok && !has(inMap, a.col) {
				m[a.col] = a.v
				inMap[a.col] = true
				continue
			}
			args = append(args, map[string]interface{}{a.col: a.v})
			inMap = map[string]bool{a.col: true}
		case 3: // a map with strings as keys
			if m, ok := last.(lk.Map); ok && !has(inMap, a.col) {
				m[a.col] = a.v
				inMap[a.col] = true
				continue
			}
			args = append(args, lk.Map{a.col: a.v})
			inMap = map[string]bool{a.col: true}
		case 4: // a map with columns as keys
			if m, ok := last.(lk.Map); ok && !has(inMap, a.col) {
				m[lk.Column(a.col)] = a.v
				inMap[a.col] = true
				continue
			}
			args = append(args, lk.Map{lk.Column(a.col): a.v})
			inMap = map[string]bool{a.col: true}
		case 5: // always a new map
			args = append(args, lk.Map{a.col: a.v})
			inMap = map[string]bool{a.col: true}
		}
	}
	return args
}

func lastWrites(as []assigned) []kit.Assign {
	var m kit.Model
	for _, a := range as {
		m = m.SetPair(a.col, a.t)
	}
	return m.Assoc
}

// c09Expect gives the expected statement.
func c09Model(place int, as []assigned) kit.Model {
	pairs := lastWrites(as)
	switch place {
	case 0:
		return kit.Model{Kind: kit.Update, Table: kit.I("t"), Assoc: pairs}
	case 1:
		sort.Slice(pairs, func(i, j int) bool { return pairs[i].Col < pairs[j].Col })
		var cols, vals [][]kit.Tok
		for _, p := range pairs {
			cols, vals = append(cols, kit.I(p.Col)), append(vals, p.Toks)
		}
		return kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.List(cols...), Values: kit.Paren(kit.List(vals...))}
	default:
		return kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.I("c"), Values: kit.Paren(kit.S(1)),
			Conflict: kit.Cat(kit.Paren(kit.I("c")), kit.R("DO UPDATE SET"), kit.AssocToks(pairs))}
	}
}

var c09Places = []string{"Update.Set", "Insert.Set", "DoUpdate"}

func c09Build(x *engine.X, place int, as []assigned, cuts func(i int) bool, free bool) kit.H {
	h := kit.H{M: c09Model(place, as)}
	switch place {
	case 0:
		h.U = lk.Update("t")
		from := 0
		for i := 1; i <= len(as); i++ {
			if i == len(as) || cuts(i) {
				args := carry(x, as[from:i], free)
				must(x, "assignments", "Set", func() { h.U = h.U.Set(args...) })
				x.Op("Set(%+v)", args)
				from = i
			}
		}
	case 1:
		args := carry(x, as, free)
		must(x, "assignments", "Set", func() { h.N = lk.Insert("t").Set(args...) })
		x.Op("Insert.Set(%+v)", args)
	default:
		args := carry(x, as, free)
		must(x, "assignments", "DoUpdate", func() {
			h.N = lk.Insert("t").Columns("c").Values(1).OnConflict("c", lk.DoUpdate(args...))
		})
		x.Op("DoUpdate(%+v)", args)
	}
	return h
}

// c09Groupings: every sequence of assignments over a few columns, every
// grouping of them in calls, every form.
func c09Groupings(x *engine.X) {
	place := x.Pick(3, "place")
	n := 1 + x.Pick(tier(x, 4, 5), "assignments")
	var as []assigned
	used := 0
	for i := 0; i < n; i++ {
		// Columns are taken in order, up to renaming.
		c := x.Pick(used+1, "column")
		if c == used {
			used++
		}
		as = append(as, assigned{c09Cols[c], fmt.Sprintf("v%d", i), kit.S(fmt.Sprintf("v%d", i))})
	}
	if x.Choose(2, "other names") == 1 {
		for i := range as {
			for k, c := range c09Cols {
				if as[i].col == c {
					as[i].col = c09Cols[len(c09Cols)-1-k]
					break
				}
			}
		}
	}
	h := c09Build(x, place, as, func(int) bool { return x.PickBool("another call") }, n <= 3)
	x.State(h.M.Key())
	verify(x, h, kit.FQuery|kit.FNamed, "assignments", c09Places[place])
}

// c09Confusing are names easily taken for one another.
var c09Confusing = []string{"a", "A", "b", "a.b", "b.a", "a b", "ab", "a_b", "a,b", `"a"`, "`a`", "é", "É", "e\u0301", "t.a", "a.", "0", "00", "ａ"}

// c09Names: assignments to columns whose names look alike, of values which may
// be equal.
func c09Names(x *engine.X) {
	place := x.Pick(3, "place")
	n := 2 + x.Pick(2, "assignments")
	same := x.Pick(3, "values")
	var as []assigned
	for i := 0; i < n; i++ {
		var v interface{} = i
		t := kit.S(i)
		switch same {
		case 1:
			v, t = "same", kit.S("same")
		case 2:
			v, t = nil, kit.R("NULL")
		}
		as = append(as, assigned{c09Confusing[x.Pick(len(c09Confusing), "column")], v, t})
	}
	h := c09Build(x, place, as, func(int) bool { return x.Choose(2, "another call") == 1 }, false)
	x.State(h.M.Key())
	verify(x, h, kit.FQuery, "names", c09Places[place])
}

// c09Cells: what is assigned, over a few columns.
func c09Cells(x *engine.X) {
	place := x.Pick(3, "place")
	n := 2 + x.Pick(2, "assignments")
	g := &kit.Gen{C: x, Depth: 1, NoComment: true}
	var as []assigned
	for i := 0; i < n; i++ {
		v, t := g.Cell()
		as = append(as, assigned{c09Cols[x.Pick(3, "column")], v, t})
	}
	h := c09Build(x, place, as, func(int) bool { return x.Choose(2, "another call") == 1 }, false)
	x.State(h.M.Key())
	verify(x, h, kit.FAll, "assigned values", c09Places[place])
}

// c09Contents: an assignment is kept whatever is assigned, the column itself,
// DEFAULT, NULL or an empty value, and the last one wins whatever it is.
func c09Contents(x *engine.X) {
	place := x.Pick(3, "place")
	cols := [][]string{{"a"}, {"a", "b"}, {"c", "a"}, {"a", "a"}, {"c", "c"}, {"a", "b", "a"}}[x.Pick(6, "columns")]
	var as []assigned
	for _, col := range cols {
		k := x.Pick(nOddCells, "value")
		must(x, "contents", "value", func() {
			c := oddCells(col)[k]
			as = append(as, assigned{col, c.v, c.t})
		})
	}
	h := c09Build(x, place, as, func(int) bool { return x.Choose(2, "another call") == 1 }, false)
	x.State(fmt.Sprint(place), h.M.Key())
	verify(x, h, kit.FQuery, "contents", c09Places[place])
}

// c09Wide: many columns, in several orders, in maps or pairs; maps are walked
// in every order that the runtime happens to choose over several builds.
var c09Sizes = []int{100, 257, 1001}

func c09Wide(x *engine.X) {
	place := x.Pick(3, "place")
	ns := tier(x, 24, 70)
	n := 1 + x.Pick(ns+len(c09Sizes), "columns")
	if n > ns {
		n = c09Sizes[n-ns-1]
	}
	order := x.Pick(4, "order")
	form := x.Pick(5, "form")
	over := x.Pick(4, "written again")
	var as []assigned
	for i := 0; i < n; i++ {
		k := i
		switch order {
		case 1:
			k = n - 1 - i
		case 2:
			k = i * 7 % n
			if n%7 == 0 {
				k = i
			}
		case 3:
			k = (i ^ 1) % n
			if n%2 == 1 && i == n-1 {
				k = i
			}
		}
		as = append(as, assigned{fmt.Sprintf("c%d", k), k, kit.S(k)})
	}
	m := []assigned{}
	switch over {
	case 1:
		m = append(m, assigned{as[0].col, "again", kit.S("again")})
	case 2:
		m = append(m, assigned{as[n-1].col, "again", kit.S("again")})
	case 3:
		for i := range as {
			m = append(m, assigned{as[n-1-i].col, i + 1000, kit.S(i + 1000)})
		}
	}
	toArgs := func(as []assigned) []interface{} {
		var args []interface{}
		mi, ms := lk.Map{}, map[string]interface{}{}
		for i, a := range as {
			switch form {
			case 0:
				args = append(args, lk.Pair(a.col, a.v))
			case 1:
				mi[a.col] = a.v
			case 2:
				ms[a.col] = a.v
			case 3:
				mi[lk.Column(a.col)] = a.v
			case 4:
				if i%2 == 0 {
					mi[a.col] = a.v
				} else {
					ms[a.col] = a.v
				}
			}
		}
		if len(ms) > 0 {
			args = append(args, ms)
		}
		if len(mi) > 0 {
			args = append(args, mi)
		}
		return args
	}
	for run := 0; run < 3; run++ {
		args := toArgs(as)
		if len(m) > 0 {
			args = append(args, toArgs(m)...)
		}
		h := kit.H{M: c09Model(place, append(append([]assigned{}, as...), m...))}
		must(x, "wide", "assignments", func() {
			switch place {
			case 0:
				h.U = lk.Update("t").Set(args...)
			case 1:
				h.N = lk.Insert("t").Set(args...)
			default:
				h.N = lk.Insert("t").Columns("c").Values(1).OnConflict("c", lk.DoUpdate(args...))
			}
		})
		x.Op("%d assignments", len(as)+len(m))
		if run == 0 {
			x.State(h.M.Key())
		}
		verify(x, h, kit.FQuery, "wide", c09Places[place])
	}
}

// c09Orders: every order in which the maps may be walked, wherever the library
// walks one.
func c09Orders(x *engine.X) {
	place := x.Pick(3, "place")
	n := 2 + x.Pick(tier(x, 2, 3), "columns")
	walks := 0
	setOrder(func(n int) []int {
		walks++
		fact := 1
		for i := 2; i <= n; i++ {
			fact *= i
		}
		k := x.Pick(fact, "order of a map")
		rest := make([]int, n)
		for i := range rest {
			rest[i] = i
		}
		var perm []int
		for i := n; i > 0; i-- {
			fact /= i
			perm = append(perm, rest[k/fact])
			rest = append(rest[:k/fact], rest[k/fact+1:]...)
			k %= fact
		}
		return perm
	})
	defer setOrder(nil)
	// Where each column goes: one of two maps, around a pair that is written
	// between them; the names are such that no two orders agree.
	names := []string{"m", "b", "zz", "B", "aa"}
	var as []assigned
	maps := []int{}
	form := x.Pick(3, "form of the maps")
	put := func(m interface{}, col string, v interface{}) {
		switch m := m.(type) {
		case lk.Map:
			if form == 1 {
				m[lk.Column(col)] = v
			} else {
				m[col] = v
			}
		case map[string]interface{}:
			m[col] = v
		}
	}
	fresh := func() interface{} {
		if form == 2 {
			return map[string]interface{}{}
		}
		return lk.Map{}
	}
	first, second := fresh(), fresh()
	firstN, secondN := 0, 0
	for i := 0; i < n; i++ {
		where := x.Pick(3, "map of "+names[i])
		if where != 1 {
			put(first, names[i], i)
			firstN++
			as = append(as, assigned{names[i], i, kit.S(i)})
		}
		if where != 0 {
			put(second, names[i], i+100)
			secondN++
		}
		maps = append(maps, where)
	}
	pair := x.Pick(n+1, "pair between")
	if pair < n {
		as = append(as, assigned{names[pair], "pair", kit.S("pair")})
	}
	for i := 0; i < n; i++ {
		if maps[i] != 0 {
			as = append(as, assigned{names[i], i + 100, kit.S(i + 100)})
		}
	}
	var args []interface{}
	if firstN > 0 {
		args = append(args, first)
	}
	if pair < n {
		args = append(args, lk.Pair(names[pair], "pair"))
	}
	cut := len(args)
	if secondN > 0 {
		args = append(args, second)
	}
	h := kit.H{M: c09Model(place, as)}
	key := "map orders"
	switch place {
	case 0:
		h.U = lk.Update("t")
		if cut > 0 && cut < len(args) && x.PickBool("another call") {
			must(x, key, "Set", func() { h.U = h.U.Set(args[:cut]...).Set(args[cut:]...) })
		} else {
			must(x, key, "Set", func() { h.U = h.U.Set(args...) })
		}
	case 1:
		must(x, key, "Set", func() { h.N = lk.Insert("t").Set(args...) })
	default:
		must(x, key, "DoUpdate", func() { h.N = lk.Insert("t").Columns("c").Values(1).OnConflict("c", lk.DoUpdate(args...)) })
	}
	x.Op("%s(%v) over %d maps walked", c09Places[place], args, walks)
	x.State(fmt.Sprint(h.M.Key(), walks))
	verify(x, h, kit.FQuery|kit.FNamed, key, c09Places[place])
}

// c09List: the column-list form keeps the order of the columns and of the
// expressions, over any calls.
func c09List(x *engine.X) {
	n := 1 + x.Pick(tier(x, 4, 5), "columns")
	perm := x.Pick(3, "order")
	var cols []string
	for i := 0; i < n; i++ {
		k := i
		if perm == 1 {
			k = n - 1 - i
		} else if perm == 2 {
			k = (i + n/2) % n
		}
		cols = append(cols, c09Cols[k])
	}
	h := kit.Start(kit.Update)
	h.M.SetCols = cols
	form := x.Pick(3, "form")
	var args []interface{}
	flush := func() {
		if len(args) == 0 {
			return
		}
		if form == 2 && len(args) > 1 {
			ss := make([]string, len(args))
			for i := range args {
				ss[i] = args[i].(string)
			}
			args = []interface{}{strings.Join(ss, ", ")}
		}
		must(x, "column list", "Set", func() { h.U = h.U.Set(args...) })
		x.Op("Set(%+v)", args)
		args = nil
	}
	for i, c := range cols {
		if form == 1 && i%2 == 0 {
			args = append(args, lk.Column(c))
		} else {
			args = append(args, c)
		}
		if x.PickBool("another call") {
			flush()
		}
	}
	flush()
	g := &kit.Gen{C: x, Depth: 1, NoComment: true}
	var exprs []interface{}
	flushE := func() {
		if len(exprs) == 0 {
			return
		}
		must(x, "column list", "Using", func() { h.U = h.U.Using(exprs...) })
		x.Op("Using(%d expressions)", len(exprs))
		exprs = nil
	}
	for range cols {
		v, t := g.Cell()
		if len(t) > 0 && t[0].S == "(" && n == 1 {
			x.Skip() // a lone subquery is the row itself (another shape)
		}
		h.M.SetExprs = kit.AddList(h.M.SetExprs, t)
		exprs = append(exprs, v)
		if x.PickBool("another call") {
			flushE()
		}
	}
	flushE()
	x.State(h.M.Key())
	verify(x, h, kit.FQuery|kit.FNamed, "column list", "column list")
}

// c09Calls: mixing the two forms is refused and changes nothing.
func c09Calls(x *engine.X) {
	type call struct {
		name string
		real func(u lkUpdate) lkUpdate
		mod  func(m kit.Model) (kit.Model, bool)
	}
	pair := func(as ...kit.Assign) func(m kit.Model) (kit.Model, bool) {
		return func(m kit.Model) (kit.Model, bool) {
			if len(m.SetCols) > 0 {
				return m, false
			}
			for _, a := range as {
				m = m.SetPair(a.Col, a.Toks)
			}
			return m, true
		}
	}
	refuse := func(m kit.Model) (kit.Model, bool) { return m, false }
	mk := func(i int) []call {
		v := fmt.Sprintf("v%d", i)
		return []call{
			{"Set(a)", func(u lkUpdate) lkUpdate { return u.Set(lk.Pair("a", v)) }, pair(kit.Assign{Col: "a", Toks: kit.S(v)})},
			{"Set(b)", func(u lkUpdate) lkUpdate { return u.Set(lk.Map{"b": v}) }, pair(kit.Assign{Col: "b", Toks: kit.S(v)})},
			{"Set(b, a)", func(u lkUpdate) lkUpdate {
				return u.Set(map[string]interface{}{"b": i, "a": nil})
			}, pair(kit.Assign{Col: "b", Toks: kit.S(i)}, kit.Assign{Col: "a", Toks: kit.S(nil)})},
			{"Set(cols)", func(u lkUpdate) lkUpdate { return u.Set("x"+v, "y"+v) }, func(m kit.Model) (kit.Model, bool) {
				if len(m.Assoc) > 0 {
					return m, false
				}
				m.SetCols = append(append([]string{}, m.SetCols...), "x"+v, "y"+v)
				return m, true
			}},
			{"Using", func(u lkUpdate) lkUpdate { return u.Using(v, nil) }, func(m kit.Model) (kit.Model, bool) {
				if len(m.SetCols) == 0 {
					return m, false
				}
				m.SetExprs = kit.AddList(m.SetExprs, kit.S(v), kit.S(nil))
				return m, true
			}},
			{"Set()", func(u lkUpdate) lkUpdate { return u.Set() }, refuse},
			{"Set(pair, bad)", func(u lkUpdate) lkUpdate { return u.Set(lk.Pair("a", v), 1) }, refuse},
			{"Set(pair, col)", func(u lkUpdate) lkUpdate { return u.Set(lk.Pair("c", v), "d") }, refuse},
			{"Set(col, pair)", func(u lkUpdate) lkUpdate { return u.Set("d", lk.Pair("c", v)) }, refuse},
			{`Set(pair "")`, func(u lkUpdate) lkUpdate { return u.Set(lk.Pair("a", v), lk.Pair("", v)) }, refuse},
			{"Set(pair 1)", func(u lkUpdate) lkUpdate { return u.Set(lk.Pair(1, v)) }, refuse},
		}
	}
	h := kit.Start(kit.Update)
	for i := 0; i < tier(x, 4, 5); i++ {
		cs := mk(i)
		c := cs[x.Pick(len(cs), "call")]
		h, _ = apply(x, h, kit.Op{Name: c.name, Real: func(h *kit.H) { h.U = c.real(h.U) }, Mod: c.mod}, "calls")
	}
	x.State(h.M.Key())
	verify(x, h, kit.FQuery, "calls", "update")
	_ = stmt.Update{}
}

func init() {
	register("C09", func() engine.Check {
		return engine.Check{ID: "C09", NeedsHooks: true, Scenarios: []engine.Scenario{
			{Name: "map orders", Fn: c09Orders, Bounds: "2 or 3 (thorough 4) columns over two maps (in three forms) and a pair between them x every order of every walk of a map by the library, enumerated by an instrumented build"},
			{Name: "names", Fn: c09Names, Quick: 1, Thorough: 2, Bounds: fmt.Sprintf("2 or 3 assignments over %d names which look alike, of distinct or equal values, 1 (thorough 2) deviations among forms and calls", len(c09Confusing))},
			{Name: "contents", Fn: c09Contents, Quick: 1, Thorough: 2, Bounds: fmt.Sprintf("1 to 3 assignments to distinct or equal columns (the conflict target among them) x every combination of %d values of unusual contents (DEFAULT, NULL, the column itself, empty and zero values, subqueries, calls), 1 (thorough 2) deviations among forms and calls", nOddCells)},
			{Name: "wide", Fn: c09Wide, Bounds: "1 to 24 (thorough 70) columns and 3 sizes up to 1001 x 4 orders x pairs or maps (5 forms) x columns written again, for Update.Set, Insert.Set and DoUpdate, each built 3 times"},
			{Name: "column list", Fn: c09List, Quick: 2, Thorough: 2, Bounds: "1 to 4 (thorough 5) columns in 3 orders and 3 forms x every grouping of columns and of expressions in calls, 2 expressions of another form"},
			{Name: "assigned values", Fn: c09Cells, Quick: 3, Thorough: 4, Bounds: "2 or 3 assignments over 3 columns x 3 (thorough 4) deviations among values, forms and calls"},
			{Name: "calls", Fn: c09Calls, Bounds: "every sequence of 4 (thorough 5) calls among 11, refused ones included"},
			{Name: "groupings", Fn: c09Groupings, Quick: 2, Thorough: 2,
				Bounds: "every sequence of up to 4 (thorough 5) assignments over columns up to renaming x every grouping in calls x 6 forms (all of them up to 3 assignments, 2 deviations above)"},
		}, Assumptions: []string{"no map has two keys that denote the same column, and assigned columns have no alias"}}
	})
}
