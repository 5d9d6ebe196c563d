package checks

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
)

var predicates = []func(builder.Builder) bool{builder.IsSelectBuilder, builder.IsInsertBuilder, builder.IsUpdateBuilder, builder.IsDeleteBuilder}

// predict checks the four predicates; kind is -1 for a foreign builder.
func predict(x *engine.X, b builder.Builder, kind int, what string) {
	x.Checked()
	for k, p := range predicates {
		var got bool
		if panicked, v := x.Try(func() { got = p(b) }); panicked {
			x.Fail("predicate", "Is%sBuilder(%s) panicked: %v", kit.KindNames[k], what, v)
		}
		if got != (k == kind) {
			x.Fail("predicate", "Is%sBuilder(%s) is %v", kit.KindNames[k], what, got)
		}
	}
}

// pointer gives a pointer to a builder.
func pointer(h kit.H) builder.Builder {
	switch h.M.Kind {
	case kit.Select:
		s := h.S
		return &s
	case kit.Insert:
		s := h.N
		return &s
	case kit.Update:
		s := h.U
		return &s
	default:
		s := h.D
		return &s
	}
}

// recorded is an implementation of a context: it records every call.
type recorded struct {
	text strings.Builder
	args []interface{}
	// from is the number of the first placeholder.
	from int
}

func (r *recorded) Write(s string) { r.text.WriteString(s) }
func (r *recorded) Bind(v interface{}) {
	r.text.WriteString("$" + strconv.Itoa(r.from+len(r.args)))
	r.args = append(r.args, v)
}

// valueContext is a context which is not a pointer.
type valueContext struct{ r *recorded }

func (v valueContext) Write(s string)     { v.r.Write(s) }
func (v valueContext) Bind(a interface{}) { v.r.Bind(a) }

var statementTypes = []reflect.Type{reflect.TypeOf(stmt.Select{}), reflect.TypeOf(stmt.Insert{}), reflect.TypeOf(stmt.Update{}), reflect.TypeOf(stmt.Delete{})}

// rendering is a text with its arguments, or a refusal.
type rendering struct {
	refused bool
	text    string
	args    interface{}
}

func render(x *engine.X, f func() (string, interface{})) (r rendering) {
	r.refused, _ = x.Try(func() { r.text, r.args = f() })
	return
}

// tellsTruth checks a builder at some stage of its construction.
func tellsTruth(x *engine.X, h kit.H, what string) {
	b := h.B()
	for _, b := range []builder.Builder{b, pointer(h)} {
		predict(x, b, h.M.Kind, fmt.Sprintf("%T: %s", b, what))
		x.Checked()
		s := b.Statement()
		if reflect.TypeOf(s) != statementTypes[h.M.Kind] {
			x.Fail("statement", "%s: Statement() of a %T is a %T", what, b, s)
		}
		q := render(x, func() (string, interface{}) { t, a := b.Query(); return t, a })
		n := render(x, func() (string, interface{}) { t, a := b.NamedQuery(); return t, a })
		r := render(x, func() (string, interface{}) { return b.String(), nil })
		same := func(name string, want, got rendering) {
			if want.refused != got.refused {
				x.Fail("statement", "%s: rendered by the builder: %v, by its statement through %s: %v", what, !want.refused, name, !got.refused)
			}
			if want.refused {
				return
			}
			if want.text != got.text {
				x.Fail("statement", "%s: the statement renders through %s\n  %s\n instead of\n  %s", what, name, got.text, want.text)
			}
			if want.args != nil && fmt.Sprintf("%#v", want.args) != fmt.Sprintf("%#v", got.args) {
				x.Fail("statement", "%s: the statement binds through %s %v instead of %v", what, name, got.args, want.args)
			}
		}
		same("StdContext", q, render(x, func() (string, interface{}) {
			c := &types.StdContext{}
			s.Write(c)
			return c.Query(), c.Values()
		}))
		same("NamedContext", n, render(x, func() (string, interface{}) {
			c := &types.NamedContext{}
			s.Write(c)
			return c.Query(), c.Values()
		}))
		same("RawContext", r, render(x, func() (string, interface{}) {
			c := &types.RawContext{}
			s.Write(c)
			return c.Query(), nil
		}))
		same("another context", q, render(x, func() (string, interface{}) {
			c := &recorded{from: 1}
			s.Write(c)
			return c.text.String(), c.args
		}))
		same("another context, by value", q, render(x, func() (string, interface{}) {
			c := &recorded{from: 1}
			s.Write(valueContext{c})
			return c.text.String(), c.args
		}))
		if !q.refused {
			// A context in use: the placeholders go on.
			c := &types.StdContext{}
			c.Write("BEFORE ")
			c.Bind("first")
			c.Write(" ")
			s.Write(c)
			w := &recorded{from: 2}
			s.Write(w)
			if got, want := c.Query(), "BEFORE $1 "+w.text.String(); got != want {
				x.Fail("statement", "%s: written after an argument, the statement renders\n  %s\n instead of\n  %s", what, got, want)
			}
			if got, want := fmt.Sprintf("%#v", c.Values()), fmt.Sprintf("%#v", append([]interface{}{"first"}, w.args...)); got != want {
				x.Fail("statement", "%s: written after an argument, the statement binds %s instead of %s", what, got, want)
			}
		}
		if _, isEmpty := x.Try(func() { s.IsEmpty() }); isEmpty != nil {
			x.Fail("statement", "%s: IsEmpty panicked", what)
		}
	}
}

// c19Statements: complete statements.
func c19Statements(kind int) func(x *engine.X) {
	return func(x *engine.X) {
		g := &kit.Gen{C: x, Depth: tier(x, 1, 2)}
		h := g.Stmt(kind)
		h.M.Kind = kind
		x.Op("%s", h.M.Key())
		tellsTruth(x, h, h.M.Key())
		x.State(h.M.Key())
	}
}

// c19Stages: every stage of every history of calls.
func c19Product(x *engine.X) {
	h := genStmt(x, &kit.Gen{C: x, Free: true}, "product")
	tellsTruth(x, h, h.M.Key())
	x.State(h.M.Key())
}

func c19Stages(kind int) func(x *engine.X) {
	return func(x *engine.X) {
		h := kit.Bare(kind)
		predict(x, h.B(), kind, "at the start")
		depth := tier(x, 4, 5)
		if kind == kit.Select {
			depth = tier(x, 3, 4)
		}
		for i := 0; i < depth; i++ {
			all := ops(kind, i)
			op := all[x.Pick(len(all), "call")]
			h, _ = apply(x, h, op, "history")
			if i < depth-1 {
				predict(x, h.B(), kind, h.M.Key())
			}
		}
		tellsTruth(x, h, h.M.Key())
		x.State(h.M.Key())
	}
}

type (
	embedS  struct{ builder.Select }
	embedN  struct{ builder.Insert }
	embedU  struct{ builder.Update }
	embedD  struct{ builder.Delete }
	embedPS struct{ *builder.Select }
	embedPN struct{ *builder.Insert }
	embedPU struct{ *builder.Update }
	embedPD struct{ *builder.Delete }
	embedB  struct{ builder.Builder }
	namedB  struct {
		builder.Builder
		kind int
	}
	foreign    struct{}
	foreignPtr struct{}
	foreignStr string
)

func (foreign) String() string                               { return "SELECT 1" }
func (foreign) NamedQuery() (string, map[string]interface{}) { return "SELECT 1", nil }
func (foreign) Query() (string, []interface{})               { return "SELECT 1", nil }
func (foreign) Statement() stmt.Statement                    { return stmt.Select{} }

func (*foreignPtr) String() string                               { return "INSERT" }
func (*foreignPtr) NamedQuery() (string, map[string]interface{}) { return "INSERT", nil }
func (*foreignPtr) Query() (string, []interface{})               { return "INSERT", nil }
func (*foreignPtr) Statement() stmt.Statement                    { return stmt.Insert{} }

func (f foreignStr) String() string                               { return string(f) }
func (f foreignStr) NamedQuery() (string, map[string]interface{}) { return string(f), nil }
func (f foreignStr) Query() (string, []interface{})               { return string(f), nil }
func (f foreignStr) Statement() stmt.Statement                    { return nil }

// c19Foreign: implementations which are none of the four builders.
func c19Foreign(x *engine.X) {
	s, n, u, d := lk.Select("a").From("t"), lk.Insert("t").Values(1), lk.Update("t").Set(lk.Pair("a", 1)), lk.Delete("t")
	list := []builder.Builder{
		nil, foreign{}, &foreign{}, &foreignPtr{}, (*foreignPtr)(nil), foreignStr("SELECT"), foreignStr("DELETE"),
		embedS{s}, &embedS{s}, embedN{n}, &embedN{n}, embedU{u}, &embedU{u}, embedD{d}, &embedD{d},
		embedPS{&s}, &embedPS{&s}, embedPN{&n}, &embedPN{&n}, embedPU{&u}, &embedPU{&u}, embedPD{&d}, &embedPD{&d},
		embedB{s}, embedB{&s}, embedB{n}, embedB{&n}, embedB{u}, embedB{&u}, embedB{d}, embedB{&d}, &embedB{s}, &embedB{&d}, embedB{},
		namedB{s, 0}, &namedB{n, 1}, embedB{embedB{u}}, embedB{foreign{}},
	}
	i := x.Pick(len(list), "implementation")
	x.Op("%T", list[i])
	predict(x, list[i], -1, fmt.Sprintf("%T", list[i]))
	x.State(fmt.Sprint(i))
}

// c19Zero: builders without anything yet.
func c19Zero(x *engine.X) {
	list := []struct {
		b    builder.Builder
		kind int
	}{
		{builder.Select{}, 0}, {&builder.Select{}, 0}, {builder.NewSelect(), 0}, {lk.Select(), 0},
		{builder.Insert{}, 1}, {&builder.Insert{}, 1}, {builder.NewInsert(), 1}, {lk.Insert("t"), 1},
		{builder.Update{}, 2}, {&builder.Update{}, 2}, {builder.NewUpdate("t"), 2}, {lk.Update("t"), 2},
		{builder.Delete{}, 3}, {&builder.Delete{}, 3}, {builder.NewDelete(), 3}, {lk.Delete("t"), 3},
	}
	c := list[x.Pick(len(list), "builder")]
	x.Op("%T", c.b)
	predict(x, c.b, c.kind, fmt.Sprintf("an empty %T", c.b))
	x.Checked()
	if s := c.b.Statement(); reflect.TypeOf(s) != statementTypes[c.kind] {
		x.Fail("statement", "Statement() of an empty %T is a %T", c.b, s)
	}
	x.State(fmt.Sprintf("%T", c.b))
}

func init() {
	register("C19", func() engine.Check {
		c := engine.Check{ID: "C19"}
		for k := 0; k < kit.NKinds; k++ {
			c.Scenarios = append(c.Scenarios,
				engine.Scenario{Name: kit.KindNames[k] + " statements", Fn: c19Statements(k), Quick: 2, Thorough: 3, Bounds: "every statement of the grammar with at most 2 (thorough 3) variants, by value and by pointer: 4 predicates, 5 contexts, after another argument"},
				engine.Scenario{Name: kit.KindNames[k] + " stages", Fn: c19Stages(k), Bounds: "every history of calls of the length, at every stage; insert, update and delete 4 (thorough 5) calls, select 3 (thorough 4)"})
		}
		c.Scenarios = append(c.Scenarios,
			engine.Scenario{Name: "product", Fn: c19Product, Bounds: "every combination of the variants of all the clauses at once, distinct names and calls in grammar order or names alike and calls reversed"},
			engine.Scenario{Name: "foreign", Fn: c19Foreign, Bounds: "38 implementations which are none of the four builders, embedding ones among them"},
			engine.Scenario{Name: "zero", Fn: c19Zero, Bounds: "16 builders without anything yet"})
		return c
	})
}
