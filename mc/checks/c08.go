package checks

import (
	"fmt"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// undefined gives a builder with nothing defined.
func undefined(kind int) kit.H {
	var h kit.H
	h.M.Kind = kind
	switch kind {
	case kit.Select:
		h.S = builder.NewSelect()
	case kit.Insert:
		h.N = builder.NewInsert()
	case kit.Update:
		return kit.Start(kit.Update)
	case kit.Delete:
		h.D = builder.NewDelete()
	}
	return h
}

var c08Cache = map[[2]int][]kit.Op{}

// c08Ops are the operations that define clauses, with other spellings of the
// same definitions.
func c08Ops(kind, n int) []kit.Op {
	opsMu.Lock()
	defer opsMu.Unlock()
	if o, ok := c08Cache[[2]int{kind, n}]; ok {
		return o
	}
	var out []kit.Op
	for _, o := range kit.Ops(kind, n) {
		if !strings.HasPrefix(o.Name, "bad Into") && !(kind == kit.Delete && strings.HasPrefix(o.Name, "bad From")) {
			out = append(out, o)
		}
	}
	k := fmt.Sprint(n)
	add := func(name string, real func(h *kit.H), mod func(m kit.Model) (kit.Model, bool)) {
		out = append(out, kit.Op{Name: name + "#" + k, Real: real, Mod: mod})
	}
	once := func(field func(m *kit.Model) *[]kit.Tok, t []kit.Tok) func(m kit.Model) (kit.Model, bool) {
		return func(m kit.Model) (kit.Model, bool) {
			f := field(&m)
			if *f != nil {
				return m, false
			}
			*f = t
			return m, true
		}
	}
	switch kind {
	case kit.Insert:
		add("Into(name)", func(h *kit.H) { h.N = h.N.Into("t" + k) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Into }, kit.I("t"+k)))
		add("Into(table)", func(h *kit.H) { h.N = h.N.Into(lk.Table("t" + k).As("x")) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Into }, kit.Cat(kit.I("t"+k), kit.R("AS"), kit.I("x"))))
		add("Into(stmt)", func(h *kit.H) { h.N = h.N.Into(stmt.NewInto(lk.Table("t" + k))) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Into }, kit.I("t"+k)))
		add("Values(rows)", func(h *kit.H) { h.N = h.N.Values([][]interface{}{{n}, {nil}}) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Values }, kit.List(kit.Paren(kit.S(n)), kit.R("(NULL)"))))
	case kit.Delete:
		add("From(name)", func(h *kit.H) { h.D = h.D.From("t" + k) }, once(func(m *kit.Model) *[]kit.Tok { return &m.From }, kit.I("t"+k)))
		add("From(table)", func(h *kit.H) { h.D = h.D.From(lk.Table("t" + k).Only()) }, once(func(m *kit.Model) *[]kit.Tok { return &m.From }, kit.Cat(kit.R("ONLY"), kit.I("t"+k))))
		add("Using(1)", func(h *kit.H) { h.D = h.D.Using("o" + k) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Using }, kit.I("o"+k)))
		add("Returning(1)", func(h *kit.H) { h.D = h.D.Returning("o" + k) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Returning }, kit.I("o"+k)))
	case kit.Update:
		add("From(table)", func(h *kit.H) { h.U = h.U.From(lk.Table("f" + k).As("z")) }, once(func(m *kit.Model) *[]kit.Tok { return &m.From }, kit.Cat(kit.I("f"+k), kit.R("AS"), kit.I("z"))))
		add("Returning(1)", func(h *kit.H) { h.U = h.U.Returning("o" + k) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Returning }, kit.I("o"+k)))
	case kit.Select:
		add("From(1)", func(h *kit.H) { h.S = h.S.From("f" + k) }, once(func(m *kit.Model) *[]kit.Tok { return &m.From }, kit.I("f"+k)))
		add("From(stmt)", func(h *kit.H) { h.S = h.S.From(stmt.NewFrom([]stmt.Statement{lk.Table("f" + k)})) }, once(func(m *kit.Model) *[]kit.Tok { return &m.From }, kit.I("f"+k)))
		add("GroupBy(1)", func(h *kit.H) { h.S = h.S.GroupBy(lk.Column("g" + k)) }, once(func(m *kit.Model) *[]kit.Tok { return &m.GroupBy }, kit.I("g"+k)))
		add("Limit(stmt)", func(h *kit.H) { h.S = h.S.Limit(lk.Limit(int64(n + 10))) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Limit }, kit.R(fmt.Sprint(n+10))))
		add("Offset(text)", func(h *kit.H) { h.S = h.S.Offset(fmt.Sprint(n + 20)) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Offset }, kit.R(fmt.Sprint(n+20))))
		add("Suffix(stmt)", func(h *kit.H) { h.S = h.S.Suffix(stmt.NewSuffix("FOR SHARE")) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Suffix }, kit.R("FOR SHARE")))
		add("Prefix(stmt)", func(h *kit.H) { h.S = h.S.Prefix(stmt.NewPrefix("EXPLAIN ANALYZE")) }, once(func(m *kit.Model) *[]kit.Tok { return &m.Prefix }, kit.R("EXPLAIN ANALYZE")))
	}
	c08Cache[[2]int{kind, n}] = out
	return out
}

// c08Forms are the operations with every clause in every form that it takes.
func c08Forms(kind, n int) []kit.Op {
	opsMu.Lock()
	o, ok := c08FormCache[[2]int{kind, n}]
	opsMu.Unlock()
	if ok {
		return o
	}
	out := append([]kit.Op(nil), c08Ops(kind, n)...)
	k := fmt.Sprint(n)
	form := func(clause, name string, field func(m *kit.Model) *[]kit.Tok, real func(h *kit.H), t []kit.Tok) {
		out = append(out, kit.Op{Name: clause + "(" + name + ")#" + k, Real: real, Mod: func(m kit.Model) (kit.Model, bool) {
			f := field(&m)
			if *f != nil {
				return m, false
			}
			*f = t
			return m, true
		}})
	}
	a, b := "a"+k, "b"+k
	sub, subT := kit.H{S: lk.Select(a).From("u")}, kit.Cat(kit.R("SELECT"), kit.I(a), kit.R("FROM"), kit.I("u"))
	as := func(n, alias string) []kit.Tok { return kit.Cat(kit.I(n), kit.R("AS"), kit.I(alias)) }
	// Lists of columns, of select expressions, of tables.
	columns := []struct {
		name string
		args []interface{}
		t    []kit.Tok
	}{
		{"name", []interface{}{a}, kit.I(a)},
		{"column", []interface{}{lk.Column(a)}, kit.I(a)},
		{"text", []interface{}{a + ", " + b}, kit.List(kit.I(a), kit.I(b))},
		{"[]string", []interface{}{[]string{a, b}}, kit.List(kit.I(a), kit.I(b))},
		{"[]Column", []interface{}{[]stmt.Column{lk.Column(a)}}, kit.I(a)},
	}
	exprs := append(columns[:len(columns):len(columns)], []struct {
		name string
		args []interface{}
		t    []kit.Tok
	}{
		{"alias", []interface{}{lk.Column(a).As(b)}, as(a, b)},
		{"raw", []interface{}{lk.Raw(a)}, kit.R(a)},
		{"raws", []interface{}{lk.Raw(a), lk.Raw("1")}, kit.List(kit.R(a), kit.R("1"))},
		{"count", []interface{}{lk.Count(a)}, kit.R("COUNT(" + a + ")")},
		{"exists", []interface{}{lk.Exists(sub.S)}, kit.Cat(kit.R("EXISTS"), kit.Paren(subT))},
		{"[]SelectExpression", []interface{}{[]stmt.SelectExpression{lk.Max(a), lk.Raw(b)}}, kit.List(kit.R("MAX("+a+")"), kit.R(b))},
	}...)
	tables := []struct {
		name string
		args []interface{}
		t    []kit.Tok
	}{
		{"name", []interface{}{a}, kit.I(a)},
		{"table", []interface{}{lk.Table(a)}, kit.I(a)},
		{"alias", []interface{}{lk.Table(a).As(b)}, as(a, b)},
		{"only", []interface{}{lk.Table(a).Only()}, kit.Cat(kit.R("ONLY"), kit.I(a))},
	}
	froms := append(tables[:len(tables):len(tables)], []struct {
		name string
		args []interface{}
		t    []kit.Tok
	}{
		{"raw", []interface{}{lk.Raw(a)}, kit.R(a)},
		{"From of a raw", []interface{}{stmt.NewFrom([]stmt.Statement{lk.Raw(a)})}, kit.R(a)},
		{"From of two", []interface{}{stmt.NewFrom([]stmt.Statement{lk.Raw(a), lk.Table(b)})}, kit.List(kit.R(a), kit.I(b))},
	}...)
	returning := func(m *kit.Model) *[]kit.Tok { return &m.Returning }
	from := func(m *kit.Model) *[]kit.Tok { return &m.From }
	switch kind {
	case kit.Select:
		for _, f := range froms {
			f := f
			form("From", f.name, from, func(h *kit.H) { h.S = h.S.From(f.args...) }, f.t)
		}
		form("From", "raw, table", from, func(h *kit.H) { h.S = h.S.From(lk.Raw(a), b) }, kit.List(kit.R(a), kit.I(b)))
		for _, c := range columns {
			c := c
			form("GroupBy", c.name, func(m *kit.Model) *[]kit.Tok { return &m.GroupBy }, func(h *kit.H) { h.S = h.S.GroupBy(c.args...) }, c.t)
			form("DistinctOn", c.name, func(m *kit.Model) *[]kit.Tok { return &m.DistinctOn }, func(h *kit.H) { h.S = h.S.DistinctOn(c.args...) }, c.t)
		}
		having := func(name string, e func() stmt.Expression, t []kit.Tok) {
			form("Having", name, func(m *kit.Model) *[]kit.Tok { return &m.Having }, func(h *kit.H) { h.S = h.S.Having(e()) }, t)
		}
		having("raw", func() stmt.Expression { return lk.Raw(a) }, kit.R(a))
		having("infix", func() stmt.Expression { return lk.Condition(a).Equal(n) }, kit.Binary(kit.I(a), "=", kit.S(n)))
		having("in", func() stmt.Expression { return lk.Condition(a).In(n, 2) }, kit.Paren(kit.I(a), kit.R("IN"), kit.Paren(kit.List(kit.S(n), kit.S(2)))))
		having("between", func() stmt.Expression { return lk.Condition(a).Between(n, 2) }, kit.Paren(kit.I(a), kit.R("BETWEEN"), kit.S(n), kit.R("AND"), kit.S(2)))
		having("exists", func() stmt.Expression { return lk.Exists(sub.S) }, kit.Paren(kit.R("EXISTS"), kit.Paren(subT)))
		having("subquery", func() stmt.Expression { return sub.S.Statement().(stmt.Expression) }, kit.Paren(subT))
		having("value", func() stmt.Expression { return stmt.NewValue(n) }, kit.S(n))
		having("call", func() stmt.Expression { return stmt.NewCall("f", lk.Raw(a)) }, kit.R("f("+a+")"))
		for i, v := range []interface{}{int8(n), int64(n), uint(n), uint64(n), fmt.Sprint(n), lk.Limit(int64(n))} {
			v := v
			form("Limit", fmt.Sprint("form ", i), func(m *kit.Model) *[]kit.Tok { return &m.Limit }, func(h *kit.H) { h.S = h.S.Limit(v) }, kit.R(fmt.Sprint(n)))
		}
		for i, v := range []interface{}{int8(n), int64(n), uint(n), uint64(n), fmt.Sprint(n), lk.Offset(int64(n))} {
			v := v
			form("Offset", fmt.Sprint("form ", i), func(m *kit.Model) *[]kit.Tok { return &m.Offset }, func(h *kit.H) { h.S = h.S.Offset(v) }, kit.R(fmt.Sprint(n)))
		}
	case kit.Insert:
		for _, c := range columns {
			c := c
			form("Columns", c.name, func(m *kit.Model) *[]kit.Tok { return &m.Columns }, func(h *kit.H) { h.N = h.N.Columns(c.args...) }, c.t)
		}
		into := func(m *kit.Model) *[]kit.Tok { return &m.Into }
		for _, f := range tables {
			f := f
			form("Into", f.name, into, func(h *kit.H) { h.N = h.N.Into(f.args[0]) }, f.t)
		}
		values := func(name string, t []kit.Tok, args ...interface{}) {
			form("Values", name, func(m *kit.Model) *[]kit.Tok { return &m.Values }, func(h *kit.H) { h.N = h.N.Values(args...) }, t)
		}
		values("nil", kit.Paren(kit.S(nil)), nil)
		values("nils", kit.Paren(kit.List(kit.S(nil), kit.S(nil))), nil, nil)
		values("raw", kit.Paren(kit.R("DEFAULT")), lk.Raw("DEFAULT"))
		values("zero", kit.Paren(kit.S(0)), 0)
		values("empty text", kit.Paren(kit.S("")), "")
		values("subquery", kit.Paren(kit.Paren(subT)), sub.S)
		values("[]int", kit.Paren(kit.List(kit.S(n), kit.S(2))), []int{n, 2})
		values("[][]string", kit.Paren(kit.S(a)), [][]string{{a}})
		conflict := func(name string, t []kit.Tok, args ...interface{}) {
			form("OnConflict", name, func(m *kit.Model) *[]kit.Tok { return &m.Conflict }, func(h *kit.H) { h.N = h.N.OnConflict(args...) }, t)
		}
		conflict("target, nothing", kit.Cat(kit.Paren(kit.I(a)), kit.R("DO NOTHING")), a, lk.DoNothing())
		conflict("column, update", kit.Cat(kit.Paren(kit.I(a)), kit.R("DO UPDATE SET"), kit.I(b), kit.R("="), kit.R("NULL")), lk.Column(a), lk.DoUpdate(lk.Map{b: nil}))
		for _, e := range exprs {
			e := e
			form("Returning", e.name, returning, func(h *kit.H) { h.N = h.N.Returning(e.args...) }, e.t)
		}
	case kit.Update:
		for _, f := range froms {
			f := f
			form("From", f.name, from, func(h *kit.H) { h.U = h.U.From(f.args[0]) }, f.t)
		}
		for _, e := range exprs {
			e := e
			form("Returning", e.name, returning, func(h *kit.H) { h.U = h.U.Returning(e.args...) }, e.t)
		}
	case kit.Delete:
		for _, f := range froms {
			f := f
			form("From", f.name, from, func(h *kit.H) { h.D = h.D.From(f.args...) }, f.t)
		}
		for _, f := range tables {
			f := f
			form("Using", f.name, func(m *kit.Model) *[]kit.Tok { return &m.Using }, func(h *kit.H) { h.D = h.D.Using(f.args...) }, f.t)
		}
		for _, e := range exprs {
			e := e
			form("Returning", e.name, returning, func(h *kit.H) { h.D = h.D.Returning(e.args...) }, e.t)
		}
	}
	opsMu.Lock()
	c08FormCache[[2]int{kind, n}] = out
	opsMu.Unlock()
	return out
}

var c08FormCache = map[[2]int][]kit.Op{}

// c08Sequences: all the sequences of calls.
func c08Sequences(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	n := []int{3, 5, 4, 5}[kind]
	if x.Thorough {
		n++
	}
	h := undefined(kind)
	// One call may be made with the same arguments as the first one.
	again := x.Choose(2, "same arguments")
	for i := 1; i <= n; i++ {
		id := i
		if again == 1 {
			id = 1
		}
		o := c08Ops(kind, id)
		op := o[x.Pick(len(o), "operation")]
		h, _ = apply(x, h, op, "sequence")
	}
	verify(x, h, kit.FQuery, "sequence", "statement")
	x.State(h.M.Key())
}

// c08Clauses names one definition of every clause, in grammar order.
var c08Clauses = [][]string{
	kit.Select: {"Prefix", "With(1)", "DistinctOn", "Columns", "From(1)", "Join(text)", "Where", "GroupBy", "Having", "OrderBy(1)", "Limit", "Offset", "Suffix", "Comment"},
	kit.Insert: {"Into(name)", "Columns", "Values", "OnConflict(update)", "Returning", "Comment"},
	kit.Update: {"With(1)", "Only", "Set(pair)", "From", "Where", "Returning", "Comment"},
	kit.Delete: {"From(name)", "Using", "Where", "Returning", "Comment"},
}

func c08Op(kind, id int, name string) kit.Op {
	for _, o := range c08Ops(kind, id) {
		if o.Name == fmt.Sprintf("%s#%d", name, id) {
			return o
		}
	}
	panic("checks: no operation " + name)
}

// c08Orders: all the clauses at once, in every order (for a select, in every
// order obtained by moving two clauses anywhere, from the grammar order, its
// reverse or the order of the README), and then a clause defined again.
func c08Orders(moves int) func(x *engine.X) {
	return func(x *engine.X) { c08Order(x, moves) }
}

func c08Order(x *engine.X, moves int) {
	kind := kit.Select
	if moves == 1 {
		kind = x.Pick(kit.NKinds, "kind")
	}
	cl := append([]string(nil), c08Clauses[kind]...)
	switch x.Choose(3, "variants") {
	case 1:
		for i, c := range cl {
			switch c {
			case "DistinctOn":
				cl[i] = "Distinct"
			case "OnConflict(update)":
				cl[i] = "OnConflict(nothing)"
			case "Join(text)":
				cl[i] = "Join(on)"
			case "With(1)":
				if kind == kit.Select {
					cl[i] = "With(2)"
				}
			case "Set(pair)":
				cl[i] = "Set(map)"
			}
		}
	case 2: // a clause missing
		i := x.Pick(len(cl), "missing clause")
		cl = append(append([]string(nil), cl[:i]...), cl[i+1:]...)
	}
	if kind == kit.Select {
		if x.PickBool("reversed") {
			for i, j := 0, len(cl)-1; i < j; i, j = i+1, j-1 {
				cl[i], cl[j] = cl[j], cl[i]
			}
		}
		for m := 0; m < moves; m++ {
			i := x.Pick(len(cl), "move")
			j := x.Pick(len(cl), "to")
			if j == i && i != 0 || j == i+1 {
				x.Skip() // the same order as another one
			}
			c := cl[i]
			cl = append(append([]string(nil), cl[:i]...), cl[i+1:]...)
			cl = append(append(append([]string(nil), cl[:j]...), c), cl[j:]...)
		}
	} else {
		rest := cl
		cl = nil
		for len(rest) > 0 {
			i := x.Pick(len(rest), "clause")
			cl = append(cl, rest[i])
			rest = append(append([]string(nil), rest[:i]...), rest[i+1:]...)
		}
	}
	h := undefined(kind)
	for _, c := range cl {
		h, _ = apply(x, h, c08Op(kind, 1, c), "order")
	}
	verify(x, h, kit.FQuery|kit.FString, "order", "statement with all its clauses")
	x.State(strings.Join(cl, " "))
	if again := x.Choose(len(cl)+1, "defined again"); again > 0 {
		for id := 1; id <= 2; id++ {
			g, _ := apply(x, h, c08Op(kind, id, cl[again-1]), "order")
			verify(x, g, kit.FQuery, "order", "statement with a clause defined again")
		}
	}
}

// c08Redefine: every operation after every operation, on a statement with all
// its clauses or none.
func c08Redefine(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	h := undefined(kind)
	if x.PickBool("all clauses") {
		skip := x.Pick(len(c08Clauses[kind]), "clause left out")
		for i, c := range c08Clauses[kind] {
			if i != skip {
				h, _ = apply(x, h, c08Op(kind, 3, c), "redefinition")
			}
		}
	}
	same := x.PickBool("same names")
	for i := 1; i <= 2; i++ {
		id := i
		if same {
			id = 1
		}
		o := c08Forms(kind, id)
		h, _ = apply(x, h, o[x.Pick(len(o), "operation")], "redefinition")
	}
	verify(x, h, kit.FAll, "redefinition", "statement")
	x.State(h.M.Key())
}

// c08Generated: the shapes of the generator, calls reversed or not.
func c08Generated(x *engine.X) {
	h := genStmt(x, &kit.Gen{C: x, Depth: 1}, "generated")
	verify(x, h, kit.FQuery, "generated", "statement")
	x.State(h.M.Key())
}

// c08Product: every combination of the variants of all the clauses.
func c08Product(x *engine.X) {
	h := genStmt(x, &kit.Gen{C: x, Free: true}, "product")
	verify(x, h, kit.FQuery, "product", "statement")
	x.State(h.M.Key())
}

func init() {
	register("C08", func() engine.Check {
		return engine.Check{ID: "C08", Scenarios: []engine.Scenario{
			{Name: "redefinition", Fn: c08Redefine, Bounds: "every pair of operations (every form of every clause, with the same names or others) on a statement with nothing, or with all its clauses but any one"},
			{Name: "sequences", Fn: c08Sequences, Quick: 1, Thorough: 1,
				Bounds: "every sequence of 3 (select), 4 (update), 5 (insert, delete) operations from an undefined builder (thorough: one more), with distinct or equal arguments; redefinitions must be refused and nothing else"},
			{Name: "orders", Fn: c08Orders(1), Quick: 2, Thorough: 2,
				Bounds: "all the clauses at once: every order for insert, update and delete, every order at 1 move from the grammar order or its reverse for select; two of: a clause missing, other variants, each clause defined again"},
			{Name: "orders of a select", Fn: c08Orders(2), Quick: 0, Thorough: 1,
				Bounds: "all the clauses of a select at 2 moves from the grammar order or its reverse (thorough: a clause missing, other variants, or each clause defined again)"},
			{Name: "product", Fn: c08Product,
				Bounds: "every combination of the variants of all the clauses at once (295k selects), distinct names and calls in grammar order or names alike and calls reversed"},
			{Name: "generated", Fn: c08Generated, Quick: 3, Thorough: 4,
				Bounds: "4 kinds x every combination of 3 (thorough 4) non-default clauses, conditions, cells, reversed calls"},
		}}
	})
}
