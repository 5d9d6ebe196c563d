package checks

import (
	"fmt"
	"strconv"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
	"verifmc/pg"
)

// agree checks that the three renderings of a builder are the same statement.
func agree(x *engine.X, key string, b rendered) {
	x.Checked()
	var q, m, s string
	var args []interface{}
	var nargs map[string]interface{}
	p1, v1 := x.Try(func() { q, args = b.Query() })
	p2, v2 := x.Try(func() { m, nargs = b.NamedQuery() })
	p3, v3 := x.Try(func() { s = b.String() })
	if p1 != p2 || p2 != p3 {
		x.Fail(key, "one rendering refuses the statement and another one does not:\n  Query %v %v %s\n  NamedQuery %v %v %s\n  String %v %v %s", p1, v1, q, p2, v2, m, p3, v3, s)
	}
	if p1 {
		return
	}
	show := func() string {
		return fmt.Sprintf("\n  Query      %s\n             %s\n  NamedQuery %s\n             %s\n  String     %s", q, kit.ShowArgs(args), m, kit.ShowArgs(nargs), s)
	}
	tq, err := pg.Lex(q, pg.Options{})
	if err != nil {
		x.Fail(key, "Query: %v%s", err, show())
	}
	tm, err := pg.Lex(m, pg.Options{})
	if err != nil {
		x.Fail(key, "NamedQuery: %v%s", err, show())
	}
	if len(tq) != len(tm) {
		x.Fail(key, "Query and NamedQuery have %d and %d tokens%s", len(tq), len(tm), show())
	}
	if len(nargs) != len(args) {
		x.Fail(key, "Query and NamedQuery have %d and %d arguments%s", len(args), len(nargs), show())
	}
	var want []pg.Tok
	literal := true
	for i, t := range tq {
		if t.K != pg.Param {
			if !t.Same(tm[i]) {
				x.Fail(key, "Query and NamedQuery differ at %s and %s%s", t, tm[i], show())
			}
			want = append(want, t)
			continue
		}
		n, err := strconv.Atoi(t.S)
		if err != nil || n < 1 || n > len(args) || tm[i].K != pg.Param {
			x.Fail(key, "Query and NamedQuery differ at %s and %s%s", t, tm[i], show())
		}
		v, ok := nargs[strings.TrimPrefix(tm[i].S, ":")]
		if !ok || !kit.SameValue(v, args[n-1]) {
			x.Fail(key, "Query binds %T(%s) where NamedQuery binds %T(%s)%s", args[n-1], kit.Show(args[n-1]), v, kit.Show(v), show())
		}
		lit, ok := kit.Literal(args[n-1])
		literal = literal && ok
		want = append(want, lit...)
	}
	if !literal {
		return
	}
	ts, err := pg.Lex(s, pg.Options{Backslash: true})
	if err != nil {
		x.Fail(key, "String: %v%s", err, show())
	}
	for i := 0; i < len(want) || i < len(ts); i++ {
		if i >= len(want) || i >= len(ts) || !want[i].Same(ts[i]) {
			x.Fail(key, "String is not Query with its values in place, from token %d on%s", i, show())
		}
	}
}

func c04Statements(x *engine.X) {
	mode := x.Pick(3, "values")
	g := &kit.Gen{C: x, Depth: 2}
	switch mode {
	case 1:
		g.V = func(i int) interface{} { return hostile[(i*7+1)%len(hostile)] }
	case 2:
		g.V = func(i int) interface{} {
			return []interface{}{nil, 0, "", false, []byte{}, strEnc{"it's"}, intEnc{4}, valuer{nil}, valuer{"v'"}, uint8(3), float32(0.5), -1}[i%12]
		}
	}
	h := genStmt(x, g, "statement")
	agree(x, "statement", h.B())
	x.State(h.M.Key(), fmt.Sprint(mode))
}

// c04Values: every type and content at every position.
func c04Values(x *engine.X) {
	cs := allContents[x.Pick(len(allContents), "type")]
	p := positions[x.Pick(len(positions), "position")]
	for _, c := range cs.vals {
		if s, ok := c.(string); ok && strings.ToValidUTF8(s, "") != s {
			continue // not a text value for PostgreSQL
		}
		if v, ok := c.(strEnc); ok && strings.ToValidUTF8(v.s, "") != v.s {
			continue
		}
		if s, ok := scalarString(c); ok && strings.ToValidUTF8(s, "") != s {
			continue
		}
		x.Op("%s with %s", p.name, kit.Show(c))
		agree(x, "value", p.build(c))
		x.State(p.name, kit.Show(c))
	}
}

func scalarString(c interface{}) (string, bool) {
	if v, ok := c.(valuerLike); ok {
		d, err := v.Value()
		if err != nil {
			return "", false
		}
		s, ok := d.(string)
		return s, ok
	}
	return "", false
}

// c04Incomplete: the three renderings refuse the same statements.
func c04Incomplete(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	h := kit.Bare(kind)
	n := tier(x, 2, 3)
	for i := 1; i <= n; i++ {
		o := ops(kind, i)
		next, refused, err := kit.Apply(h, o[x.Pick(len(o), "operation")])
		if err != nil {
			x.Skip() // other properties decide it
		}
		x.Op("operation (refused: %v)", refused)
		h = next
		agree(x, "incomplete", h.B())
	}
	x.State(h.M.Key())
}

// c04Many: statements with many values.
func c04Many(x *engine.X) {
	sizes := []int{2, 5, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 99, 100, 101, 128, 129, 256, 257, 1000, 1001, 4097, 10001, 65537}
	n := sizes[x.Pick(len(sizes), "size")]
	place := x.Pick(manyPlaces, "place")
	h := manyValues(x, place, n, x.PickBool("equal values"))
	x.Op("%d values", n)
	agree(x, "many", h.B())
	x.State(fmt.Sprint(place, n))
}

// c04Texts are raw SQL whose characters mean something to a rendering.
var c04Texts = []string{
	"a::text", "a::text = 'x'", "a::text::int", "a :: text", "x::int[]", "?", "a ? b", "a ?| b", "a ?& b", "a @> b", "a #> b", "a -> 0", "a ->> 'k'", "%s", "%d %%", "100%", "a % b",
	"'it''s'", "':x'", "'$1'", "':arg_1'", `"a"`, `"A b"`, `":x"`, `"$1"`, "E'x'", "/* c */", "/* :x $1 */", "$$x$$", "$t$ :x $1 $t$", "a[1]", "a[1 : 2]", "a\tb", "a\nb", "a  b", " a", "a ", "é", "\u00a0", "𝕏", "'é'", "&", "<b>", "a&b", "a|b", "a ^ b", "~a", "!a", "#a", "@a", "a;b", "(", ")", "()", ",", "=", "<>", "!=", "1", "1e3", "NULL", "null", "TRUE", "DEFAULT", "*", "t.*", "a AS b", "AND", "a AND b", "(a OR b)", "SELECT 1",
}

// c04Places take a text which they do not change.
var c04Places = []struct {
	name  string
	build func(s string) rendered
}{
	{"Where", func(s string) rendered {
		return lk.Select("a").From("t").Where(lk.Raw(s)).And(lk.Condition("v").Equal(1))
	}},
	{"Select", func(s string) rendered {
		return lk.Select(lk.Raw(s), "b").From("t").Where(lk.Condition("v").Equal(1))
	}},
	{"From", func(s string) rendered { return lk.Select("a").From(lk.Raw(s)).Where(lk.Condition("v").Equal(1)) }},
	{"Values", func(s string) rendered { return lk.Insert("t").Values(lk.Raw(s), "v", lk.Raw(s)) }},
	{"Set", func(s string) rendered { return lk.Update("t").Set(lk.Pair("a", lk.Raw(s)), lk.Pair("b", 1)) }},
	{"Having", func(s string) rendered {
		return lk.Select("a").From("t").GroupBy("a").Having(lk.Raw(s)).Where(lk.Condition("v").Equal(1))
	}},
	{"Returning", func(s string) rendered { return lk.Delete("t").Where(lk.Condition("v").Equal(1)).Returning(lk.Raw(s)) }},
	{"Prefix", func(s string) rendered {
		return lk.Select("a").Prefix(s).From("t").Where(lk.Condition("v").Equal(1))
	}},
	{"Suffix", func(s string) rendered {
		return lk.Select("a").Suffix(s).From("t").Where(lk.Condition("v").Equal(1))
	}},
	{"call", func(s string) rendered {
		return lk.Select("a").From("t").Where(stmt.NewCall("f", lk.Raw(s), lk.Value(1)))
	}},
	{"Order", func(s string) rendered {
		return lk.Select("a").From("t").Where(lk.Condition("v").Equal(1)).OrderBy(lk.Order(s))
	}},
	{"With", func(s string) rendered {
		return lk.Select("a").With(lk.With("w", lk.Raw(s))).From("w").Where(lk.Condition("v").Equal(1))
	}},
	{"aggregate", func(s string) rendered {
		return lk.Select(lk.Count(s), lk.Max(s).As("m")).From("t").Where(lk.Condition("v").Equal(1))
	}},
	{"In", func(s string) rendered { return lk.Select("a").From("t").Where(lk.Condition("c").In(1, lk.Raw(s), 2)) }},
	{"Between", func(s string) rendered {
		return lk.Select("a").From("t").Where(lk.Condition("c").Between(lk.Raw(s), 2))
	}},
	{"operand", func(s string) rendered {
		return lk.Select("a").From("t").Where(lk.Condition(lk.Raw(s)).Equal("x"))
	}},
	{"name", func(s string) rendered {
		return lk.Select(lk.Column(s).As(s)).From(lk.Table(s)).Where(lk.Condition(s).Equal(1)).GroupBy(lk.Column(s))
	}},
	{"columns", func(s string) rendered {
		return lk.Insert(s).Columns(lk.Column(s)).Values(1).OnConflict(lk.Column(s), lk.DoUpdate(lk.Pair(lk.Column(s), 2))).Returning(lk.Column(s))
	}},
	{"On", func(s string) rendered {
		return lk.Select("a").From("t").Join(lk.Table(s), lk.On(s, s)).Where(lk.Condition("v").Equal(1))
	}},
	{"comment", func(s string) rendered { return lk.Select("a").From("t").Where(lk.Condition("v").Equal(1)).Comment(s) }},
	{"value", func(s string) rendered { return lk.Select("a").From("t").Where(lk.Condition("v").Equal(s)) }},
	{"values", func(s string) rendered { return lk.Insert("t").Values(s, []string{s, s}, lk.Raw(s), s) }},
}

// c04Raw: the texts are the same in the three renderings.
func c04Raw(x *engine.X) {
	s := c04Texts[x.Pick(len(c04Texts), "text")]
	p := c04Places[x.Pick(len(c04Places), "place")]
	var b rendered
	must(x, "texts", p.name, func() { b = p.build(s) })
	x.Op("%s of %q", p.name, s)
	agree(x, "texts", b)
	x.State(s, p.name)
}

// c04Product: every combination of the variants of all the clauses.
func c04Product(x *engine.X) {
	h := genStmt(x, &kit.Gen{C: x, Free: true}, "product")
	agree(x, "product", h.B())
	x.State(h.M.Key())
}

func init() {
	register("C04", func() engine.Check {
		return engine.Check{ID: "C04", Scenarios: []engine.Scenario{
			{Name: "statements", Fn: c04Statements, Quick: 3, Thorough: 4,
				Bounds: "4 kinds x 3 value patterns x every combination of 3 (thorough 4) non-default variants of clauses, conditions, cells and subqueries (nesting 2)"},
			{Name: "product", Fn: c04Product,
				Bounds: "every combination of the variants of all the clauses at once, distinct names and calls in grammar order or names alike and calls reversed"},
			{Name: "many values", Fn: c04Many, Bounds: "24 sizes from 2 to 65537 values, in 9 kinds of lists, equal or distinct"},
			{Name: "values", Fn: c04Values, Bounds: "all Go types and contents at all value positions"},
			{Name: "texts", Fn: c04Raw, Bounds: fmt.Sprintf("%d texts (casts, operators, quoted texts, comments, dollar quotes, verbs of formats) at %d places of raw SQL, names, comments and values", len(c04Texts), len(c04Places))},
			{Name: "incomplete", Fn: c04Incomplete, Bounds: "all sequences of 2 (thorough 3) operations from an empty builder"},
		}, Assumptions: []string{
			"strings bound as values are valid UTF-8; String() is read with backslash escapes, which is how it writes literals",
			"the literal itself is compared for scalars only (slices, maps, NaN and infinities have no SQL literal)",
		}}
	})
}
