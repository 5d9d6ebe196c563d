package checks

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math"
	"strings"
	"time"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// Types whose values are bound.
type strEnc struct{ s string }

func (e strEnc) String() string { return e.s }

type intEnc struct{ n int64 }

func (e intEnc) Int64() int64 { return e.n }

type boolEnc struct{ b bool }

func (e boolEnc) Bool() bool { return e.b }

type timeEnc struct{ t time.Time }

func (e timeEnc) Time() time.Time { return e.t }

type valuer struct{ v interface{} }

func (v valuer) Value() (driver.Value, error) { return v.v, nil }

type ptrValuer struct{ v interface{} }

func (v *ptrValuer) Value() (driver.Value, error) { return v.v, nil }

var hostile = []string{
	"", " ", "a", "'", "''", `"`, `""`, `\`, `\'`, "`", "--", "-- x", "/*", "*/", ";", "$", "$1", "$$", "$2", ":arg_1", ":arg_2", "?", "@p1",
	"NULL", "null", "DEFAULT", "true", "0", "'; DROP TABLE t; --", `"; DROP TABLE t; --`, "') OR ('1'='1", "%", "%s", "%d%!v(MISSING)", "{{.}}",
	"\x00", "\n", "\r\n", "\t", "\x1a", "\u00e9", "\u2028", "\ufeff", "\U0001f600", "\xff", "\xc3", "(", ")", ",", "a,b", "a.b", "*", "now()", "SELECT 1",
	"IN", "AND", "a b", strings.Repeat("x", 3000), strings.Repeat("'", 65),
}

type contents struct {
	name string
	vals []interface{}
	list bool // a Go slice that some positions spread
}

var allContents = func() []contents {
	var out []contents
	add := func(name string, list bool, vals ...interface{}) { out = append(out, contents{name, vals, list}) }
	var ss, bs, es, vs, ns []interface{}
	for _, s := range hostile {
		ss = append(ss, s)
		bs = append(bs, []byte(s))
		es = append(es, strEnc{s})
		vs = append(vs, valuer{s})
		ns = append(ns, sql.NullString{String: s, Valid: s != "a"})
	}
	bs = append(bs, []byte(nil))
	vs = append(vs, valuer{nil}, valuer{int64(0)}, valuer{[]byte("'")})
	add("string", false, ss...)
	add("[]byte", false, bs...)
	add("string encoder", false, es...)
	add("driver.Valuer", false, vs...)
	add("sql.NullString", false, ns...)
	add("*valuer", false, &ptrValuer{"x"}, &ptrValuer{nil}, &ptrValuer{"'"})
	add("int", false, 0, 1, -1, math.MaxInt64, math.MinInt64)
	add("int8", false, int8(0), int8(1), int8(-128))
	add("int16", false, int16(0), int16(1), int16(-32768))
	add("int32", false, int32(0), int32(1), int32(math.MinInt32))
	add("int64", false, int64(0), int64(1), int64(math.MinInt64))
	add("uint", false, uint(0), uint(1), uint(math.MaxUint64))
	add("uint8", false, uint8(0), uint8(1), uint8(255))
	add("uint16", false, uint16(0), uint16(1), uint16(65535))
	add("uint32", false, uint32(0), uint32(1), uint32(math.MaxUint32))
	add("uint64", false, uint64(0), uint64(1), uint64(math.MaxUint64))
	add("float32", false, float32(0), float32(1.5), float32(math.Inf(1)), float32(math.NaN()), float32(math.Copysign(0, -1)))
	add("float64", false, 0.0, 1.5, math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1e300)
	add("bool", false, false, true)
	add("time", false, time.Time{}, time.Unix(0, 0).UTC(), time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.FixedZone("x", 3600)))
	add("int64 encoder", false, intEnc{0}, intEnc{1}, intEnc{-1})
	add("bool encoder", false, boolEnc{false}, boolEnc{true})
	add("time encoder", false, timeEnc{}, timeEnc{time.Unix(1, 0)})
	add("[]string", true, []string{"a"}, []string{""}, []string{"'"}, []string{"}"}, []string{"NULL"})
	add("[]int64", true, []int64{1}, []int64{0}, []int64{-1})
	add("map[string]string", false, map[string]string{"a": "b"}, map[string]string{}, map[string]string(nil), map[string]string{"'": "\""})
	add("map[string]interface{}", false, map[string]interface{}{"a": 1}, map[string]interface{}{}, map[string]interface{}{"'": nil})
	return out
}()

// encoded is what is bound for a value.
func encoded(v interface{}) interface{} {
	switch e := v.(type) {
	case strEnc:
		return e.s
	case intEnc:
		return e.n
	case boolEnc:
		return e.b
	case timeEnc:
		return e.t
	}
	return v
}

func sameText(x *engine.X, key string, q0, q1 string, v interface{}) {
	if q0 != q1 {
		x.Fail(key, "the text depends on the value %T(%s)\n  %s\n  %s", v, kit.Show(v), q0, q1)
	}
}

// c03Statements: shapes x types x contents, the content in every slot or in a
// single one.
func c03Statements(x *engine.X) {
	cs := allContents[x.Pick(len(allContents), "type")]
	if cs.list {
		x.Skip()
	}
	rec := &kit.Recorder{C: x}
	kind := x.Pick(kit.NKinds, "kind")
	var given []interface{}
	build := func(v func(i int) interface{}) (b kit.H, n int) {
		rec.Rewind()
		given = given[:0]
		g := &kit.Gen{C: rec, Depth: 2, V: func(i int) interface{} {
			u := v(i)
			given = append(given, u)
			return u
		}}
		must(x, "statement", fmt.Sprintf("building a statement with %s values", cs.name), func() { b = g.Stmt(kind) })
		return b, g.Values()
	}
	base, n := build(func(int) interface{} { return cs.vals[len(cs.vals)-1] })
	q0, _ := base.B().Query()
	m0, _ := base.B().NamedQuery()
	x.Op("statement of %d values: %s", n, q0)
	x.State(q0, cs.name)
	if n == 0 {
		x.Skip()
	}
	for _, c := range cs.vals {
		h, _ := build(func(int) interface{} { return c })
		x.Checked()
		q, args := h.B().Query()
		m, nargs := h.B().NamedQuery()
		sameText(x, "statement", q0, q, c)
		sameText(x, "statement", m0, m, c)
		if len(nargs) != len(args) {
			x.Fail("statement", "%d arguments instead of %d", len(nargs), len(args))
		}
		for i, a := range args {
			na := nargs[fmt.Sprintf("arg_%d", i+1)]
			// loukoum.Value binds an encoder itself.
			if !kit.SameValue(a, na) || !kit.SameValue(a, encoded(c)) && !kit.SameValue(a, c) {
				x.Fail("statement", "the value %T(%s) became %T(%s) for %s", c, kit.Show(c), a, kit.Show(a), q)
			}
		}
	}
	if n > 1 && len(cs.vals) > 2 {
		// A different value in each slot.
		h, _ := build(func(i int) interface{} { return cs.vals[i%len(cs.vals)] })
		q, _ := h.B().Query()
		sameText(x, "statement", q0, q, "a mix of values")
	}
}

// c03Long: long values change nothing to the text.
func c03Long(x *engine.X) {
	sizes := []int{0, 1, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20}
	p := positions[x.Pick(len(positions), "position")]
	n := sizes[x.Pick(len(sizes), "length")]
	unit := []string{"x", "'", "1", "\u00e9 --", "); "}[x.Pick(5, "unit")]
	s := strings.Repeat(unit, n/len(unit)+1)[:n]
	as := x.Pick(3, "type")
	if as == 1 && p.spreads && n > 5000 {
		x.Skip()
	}
	v := []interface{}{s, []byte(s), strEnc{s}}[as]
	base := []interface{}{"a", []byte("a"), strEnc{"a"}}[as]
	x.Op("%d bytes at %s", n, p.name)
	must(x, "long", p.name, func() {
		b := p.build(v)
		q, args := b.Query()
		m, nargs := b.NamedQuery()
		c := p.build(base)
		q0, _ := c.Query()
		m0, _ := c.NamedQuery()
		x.Checked()
		if q != q0 || m != m0 || len(args) != 1 || len(nargs) != 1 {
			x.Fail("long", "%s of %d bytes at %s: %d, %d arguments, %.300s\n  instead of %s", kit.Show(base), n, p.name, len(args), len(nargs), q, q0)
		}
		if !kit.SameValue(args[0], encoded(v)) || !kit.SameValue(nargs["arg_1"], encoded(v)) {
			x.Fail("long", "a value of %d bytes at %s became another one", n, p.name)
		}
	})
	x.State(p.name, fmt.Sprint(n, unit, as))
}

// c03Positions: every type at every position where a value is bound as a
// whole, lists included.
func c03Positions(x *engine.X) {
	cs := allContents[x.Pick(len(allContents), "type")]
	i := x.Pick(len(positions), "position")
	p := positions[i]
	if cs.list && p.spreads {
		x.Skip()
	}
	q0, m0 := "", ""
	for k, c := range cs.vals {
		var q, m string
		var args []interface{}
		x.Op("%s at %s", cs.name, p.name)
		must(x, "position "+p.name, fmt.Sprintf("%T(%s) at %s", c, kit.Show(c), p.name), func() {
			b := p.build(c)
			q, args = b.Query()
			m, _ = b.NamedQuery()
		})
		x.Checked()
		if k == 0 {
			q0, m0 = q, m
		}
		sameText(x, "position "+p.name, q0, q, c)
		sameText(x, "position "+p.name, m0, m, c)
		if len(args) != 1 || !kit.SameValue(args[0], encoded(c)) {
			x.Fail("position "+p.name, "the value %T(%s) became %s for %s", c, kit.Show(c), kit.ShowArgs(args), q)
		}
	}
	x.State(cs.name, p.name)
}

type position struct {
	name    string
	spreads bool // a Go slice is a list of values there
	build   func(v interface{}) rendered
}

type rendered interface {
	Query() (string, []interface{})
	NamedQuery() (string, map[string]interface{})
	String() string
}

// positions where one value can be given.
var positions = func() []position {
	var out []position
	add := func(name string, spreads bool, f func(v interface{}) rendered) {
		out = append(out, position{name, spreads, f})
	}
	cond := func(name string, f func(v interface{}) stmt.Expression) {
		add("condition "+name, false, func(v interface{}) rendered { return lk.Select("a").From("t").Where(f(v)) })
	}
	id := lk.Condition("c")
	cond("Equal", func(v interface{}) stmt.Expression { return id.Equal(v) })
	cond("NotEqual", func(v interface{}) stmt.Expression { return id.NotEqual(v) })
	cond("GreaterThan", func(v interface{}) stmt.Expression { return id.GreaterThan(v) })
	cond("GreaterThanOrEqual", func(v interface{}) stmt.Expression { return id.GreaterThanOrEqual(v) })
	cond("LessThan", func(v interface{}) stmt.Expression { return id.LessThan(v) })
	cond("LessThanOrEqual", func(v interface{}) stmt.Expression { return id.LessThanOrEqual(v) })
	cond("Is", func(v interface{}) stmt.Expression { return id.Is(v) })
	cond("IsNot", func(v interface{}) stmt.Expression { return id.IsNot(v) })
	cond("Like", func(v interface{}) stmt.Expression { return id.Like(v) })
	cond("NotLike", func(v interface{}) stmt.Expression { return id.NotLike(v) })
	cond("ILike", func(v interface{}) stmt.Expression { return id.ILike(v) })
	cond("NotILike", func(v interface{}) stmt.Expression { return id.NotILike(v) })
	cond("Between from", func(v interface{}) stmt.Expression { return id.Between(v, lk.Raw("1")) })
	cond("Between to", func(v interface{}) stmt.Expression { return id.Between(lk.Raw("1"), v) })
	cond("NotBetween from", func(v interface{}) stmt.Expression { return id.NotBetween(v, lk.Raw("1")) })
	cond("NotBetween to", func(v interface{}) stmt.Expression { return id.NotBetween(lk.Raw("1"), v) })
	cond("IsDistinctFrom", func(v interface{}) stmt.Expression { return id.IsDistinctFrom(v) })
	cond("IsNotDistinctFrom", func(v interface{}) stmt.Expression { return id.IsNotDistinctFrom(v) })
	cond("Contains", func(v interface{}) stmt.Expression { return id.Contains(v) })
	cond("IsContainedBy", func(v interface{}) stmt.Expression { return id.IsContainedBy(v) })
	cond("Overlap", func(v interface{}) stmt.Expression { return id.Overlap(v) })
	cond("In two", func(v interface{}) stmt.Expression { return id.In(lk.Raw("1"), v) })
	cond("NotIn two", func(v interface{}) stmt.Expression { return id.NotIn(v, lk.Raw("1")) })
	cond("In []interface{}", func(v interface{}) stmt.Expression { return id.In([]interface{}{v}) })
	cond("NotIn []interface{}", func(v interface{}) stmt.Expression { return id.NotIn([]interface{}{v}) })
	cond("NewExpression", func(v interface{}) stmt.Expression { return lk.And(stmt.NewExpression(v), lk.Raw("x")) })
	cond("Value.Equal", func(v interface{}) stmt.Expression { return stmt.NewValue(nil).Equal(v) })
	cond("Value.Contains", func(v interface{}) stmt.Expression { return stmt.NewValue(nil).Contains(v) })
	cond("call argument", func(v interface{}) stmt.Expression {
		return stmt.NewCall("f", stmt.NewExpression(v)).Equal(lk.Raw("x"))
	})
	call := stmt.NewCall("f", lk.Raw("y"))
	cond("Call.Equal", func(v interface{}) stmt.Expression { return call.Equal(v) })
	cond("Call.GreaterThan", func(v interface{}) stmt.Expression { return call.GreaterThan(v) })
	cond("Call.LessThan", func(v interface{}) stmt.Expression { return call.LessThan(v) })
	cond("Call.Like", func(v interface{}) stmt.Expression { return call.Like(v) })
	cond("Call.ILike", func(v interface{}) stmt.Expression { return call.ILike(v) })
	cond("Call.Overlap", func(v interface{}) stmt.Expression { return call.Overlap(v) })
	cond("Call.In two", func(v interface{}) stmt.Expression { return call.In(v, lk.Raw("1")) })
	add("In one", true, func(v interface{}) rendered { return lk.Delete("t").Where(id.In(v)) })
	add("NotIn one", true, func(v interface{}) rendered { return lk.Delete("t").Where(id.NotIn(v)) })
	add("Values one", true, func(v interface{}) rendered { return lk.Insert("t").Values(v) })
	add("Values two", false, func(v interface{}) rendered { return lk.Insert("t").Values(lk.Raw("1"), v) })
	add("Values first of two", false, func(v interface{}) rendered { return lk.Insert("t").Values(v, lk.Raw("1")) })
	add("Values []interface{}", false, func(v interface{}) rendered { return lk.Insert("t").Values([]interface{}{v}) })
	add("Values [][]interface{}", false, func(v interface{}) rendered {
		return lk.Insert("t").Values([][]interface{}{{lk.Raw("1")}, {v}})
	})
	add("Insert.Set pair", false, func(v interface{}) rendered { return lk.Insert("t").Set(lk.Pair("a", v)) })
	add("Insert.Set map", false, func(v interface{}) rendered { return lk.Insert("t").Set(lk.Map{"a": v}) })
	add("Insert.Set string map", false, func(v interface{}) rendered { return lk.Insert("t").Set(map[string]interface{}{"a": v}) })
	add("Update.Set pair", false, func(v interface{}) rendered { return lk.Update("t").Set(lk.Pair("a", v)) })
	add("Update.Set map", false, func(v interface{}) rendered { return lk.Update("t").Set(lk.Map{"a": v}) })
	add("Update.Set string map", false, func(v interface{}) rendered { return lk.Update("t").Set(map[string]interface{}{"a": v}) })
	add("Using", false, func(v interface{}) rendered { return lk.Update("t").Set("a").Using(v) })
	add("Using two", false, func(v interface{}) rendered { return lk.Update("t").Set("a", "b").Using(lk.Raw("1"), v) })
	add("DoUpdate pair", false, func(v interface{}) rendered {
		return lk.Insert("t").OnConflict("a", lk.DoUpdate(lk.Pair("a", v)))
	})
	add("DoUpdate map", false, func(v interface{}) rendered {
		return lk.Insert("t").OnConflict("a", lk.DoUpdate(lk.Map{"a": v}))
	})
	add("having", false, func(v interface{}) rendered { return lk.Select("a").From("t").Having(id.Equal(v)) })
	add("join condition", false, func(v interface{}) rendered {
		return lk.Select("a").From("t").Join(stmt.NewInnerJoin(lk.Table("u"), id.Equal(v)))
	})
	add("subquery in with", false, func(v interface{}) rendered {
		return lk.Select("a").With(lk.With("w", lk.Select("b").Where(id.Equal(v))))
	})
	add("subquery in exists", false, func(v interface{}) rendered {
		return lk.Update("u").Set(lk.Pair("z", nil)).Where(lk.Exists(lk.Select("b").Where(id.Equal(v))))
	})
	return out
}()

func init() {
	register("C03", func() engine.Check {
		return engine.Check{ID: "C03", Scenarios: []engine.Scenario{
			{Name: "positions", Fn: c03Positions,
				Bounds: fmt.Sprintf("%d value positions x %d Go types x all their contents (%d hostile strings)", len(positions), len(allContents), len(hostile))},
			{Name: "long values", Fn: c03Long,
				Bounds: fmt.Sprintf("%d value positions x 35 lengths up to 1 MB x 5 contents x string, bytes and an encoder", len(positions))},
			{Name: "statements", Fn: c03Statements, Quick: 2, Thorough: 3,
				Bounds: "4 kinds x every combination of 2 (thorough 3) non-default variants of clauses, conditions, cells and subqueries x Go types x contents, the same in every slot or one in each"},
		}, Assumptions: []string{"a Go slice given alone to In, NotIn or Values is a list of values, not a value: its length is part of the shape"}}
	})
}

type valuerLike interface {
	Value() (driver.Value, error)
}
