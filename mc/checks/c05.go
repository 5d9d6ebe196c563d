package checks

import (
	"fmt"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// namePos is a place where the API takes a name. how tells how the text given
// becomes names: as is, with white space trimmed, or as a list.
type namePos struct {
	name  string
	how   int
	build func(n string) builder.Builder
	want  func(id []kit.Tok) []kit.Tok
	index int
}

const (
	nameExact = iota
	nameTrim
	nameList
)

var namePositions = func() []namePos {
	var out []namePos
	R, Cat, List, Paren, Bin, S := kit.R, kit.Cat, kit.List, kit.Paren, kit.Binary, kit.S
	add := func(name string, how int, build func(n string) builder.Builder, want func(id []kit.Tok) []kit.Tok) {
		out = append(out, namePos{name, how, build, want, len(out)})
	}
	sel := Cat(R("SELECT"), kit.I("a"), R("FROM"), kit.I("t"))
	base := func() builder.Select { return lk.Select("a").From("t") }
	// Columns of a select.
	add("select column", nameExact, func(n string) builder.Builder { return lk.Select(lk.Column(n), lk.Column("z")).From("t") },
		func(id []kit.Tok) []kit.Tok { return Cat(R("SELECT"), id, R(","), kit.I("z"), R("FROM"), kit.I("t")) })
	add("select column alias", nameExact, func(n string) builder.Builder { return lk.Select(lk.Column("z").As(n)).From("t") },
		func(id []kit.Tok) []kit.Tok { return Cat(R("SELECT"), kit.I("z"), R("AS"), id, R("FROM"), kit.I("t")) })
	add("select column string", nameList, func(n string) builder.Builder { return lk.Select("z", n).From("t") },
		func(id []kit.Tok) []kit.Tok { return Cat(R("SELECT"), kit.I("z"), R(","), id, R("FROM"), kit.I("t")) })
	add("select []string", nameExact, func(n string) builder.Builder { return lk.Select([]string{n, "z"}).From("t") },
		func(id []kit.Tok) []kit.Tok { return Cat(R("SELECT"), id, R(","), kit.I("z"), R("FROM"), kit.I("t")) })
	add("select []Column", nameExact, func(n string) builder.Builder { return lk.Select([]stmt.Column{stmt.NewColumnAlias("z", n)}) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("SELECT"), kit.I("z"), R("AS"), id) })
	// Tables.
	add("from string", nameExact, func(n string) builder.Builder { return lk.Select("a").From(n, "z") },
		func(id []kit.Tok) []kit.Tok { return Cat(R("SELECT"), kit.I("a"), R("FROM"), id, R(","), kit.I("z")) })
	add("from table", nameExact, func(n string) builder.Builder { return lk.Select("a").From(lk.Table(n).Only()) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("SELECT"), kit.I("a"), R("FROM ONLY"), id) })
	add("from table alias", nameExact, func(n string) builder.Builder { return lk.Select("a").From(lk.Table("z").As(n)) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("SELECT"), kit.I("a"), R("FROM"), kit.I("z"), R("AS"), id) })
	add("into string", nameExact, func(n string) builder.Builder { return lk.Insert(n).Values(1) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("INSERT INTO"), id, R("VALUES"), Paren(S(1))) })
	add("into table alias", nameExact, func(n string) builder.Builder { return lk.Insert(stmt.NewTableAlias("z", n)).Values(1) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("INSERT INTO"), kit.I("z"), R("AS"), id, R("VALUES"), Paren(S(1)))
		})
	add("update string", nameExact, func(n string) builder.Builder { return lk.Update(n).Set(lk.Pair("z", 1)) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("UPDATE"), id, R("SET"), kit.I("z"), R("="), S(1)) })
	add("update table alias", nameExact, func(n string) builder.Builder { return lk.Update(lk.Table("y").As(n)).Set(lk.Pair("z", 1)) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("UPDATE"), kit.I("y"), R("AS"), id, R("SET"), kit.I("z"), R("="), S(1))
		})
	add("update from", nameExact, func(n string) builder.Builder { return lk.Update("y").Set(lk.Pair("z", 1)).From(n) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("UPDATE"), kit.I("y"), R("SET"), kit.I("z"), R("="), S(1), R("FROM"), id)
		})
	add("delete from", nameExact, func(n string) builder.Builder { return lk.Delete(n).Where(lk.Raw("w")) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("DELETE FROM"), id, R("WHERE w")) })
	add("delete using", nameExact, func(n string) builder.Builder { return lk.Delete("z").Using("y", n).Where(lk.Raw("w")) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("DELETE FROM"), kit.I("z"), R("USING"), kit.I("y"), R(","), id, R("WHERE w"))
		})
	add("delete using table", nameExact, func(n string) builder.Builder { return lk.Delete("z").Using(lk.Table("y").As(n)) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("DELETE FROM"), kit.I("z"), R("USING"), kit.I("y"), R("AS"), id)
		})
	// Joins.
	on := Cat(kit.I("l"), R("="), kit.I("r"))
	add("join table string", nameExact, func(n string) builder.Builder { return base().Join(n, lk.On("l", "r")) },
		func(id []kit.Tok) []kit.Tok { return Cat(sel, R("INNER JOIN"), id, R("ON"), on) })
	add("join table string, text condition", nameExact, func(n string) builder.Builder { return base().Join(n, "l = r", lk.RightJoin) },
		func(id []kit.Tok) []kit.Tok { return Cat(sel, R("RIGHT JOIN"), id, R("ON"), on) })
	add("join table alias", nameExact, func(n string) builder.Builder { return base().Join(lk.Table("z").As(n), lk.On("l", "r"), lk.LeftJoin) },
		func(id []kit.Tok) []kit.Tok { return Cat(sel, R("LEFT JOIN"), kit.I("z"), R("AS"), id, R("ON"), on) })
	add("on left", nameExact, func(n string) builder.Builder { return base().Join("z", lk.On(n, "r")) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(sel, R("INNER JOIN"), kit.I("z"), R("ON"), id, R("="), kit.I("r"))
		})
	add("on right", nameExact, func(n string) builder.Builder { return base().Join("z", lk.On("l", n)) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(sel, R("INNER JOIN"), kit.I("z"), R("ON"), kit.I("l"), R("="), id)
		})
	add("on inside", nameExact, func(n string) builder.Builder { return base().Join("z", lk.On("l", n).And(lk.On("l", "r"))) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(sel, R("INNER JOIN"), kit.I("z"), R("ON"), Paren(kit.I("l"), R("="), id, R("AND"), on))
		})
	// Other column lists.
	add("group by column", nameExact, func(n string) builder.Builder { return base().GroupBy(lk.Column(n)) },
		func(id []kit.Tok) []kit.Tok { return Cat(sel, R("GROUP BY"), id) })
	add("group by string", nameList, func(n string) builder.Builder { return base().GroupBy("z", n) },
		func(id []kit.Tok) []kit.Tok { return Cat(sel, R("GROUP BY"), kit.I("z"), R(","), id) })
	add("distinct on", nameExact, func(n string) builder.Builder { return base().DistinctOn(lk.Column(n), lk.Column("z")) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("SELECT DISTINCT ON"), Paren(List(id, kit.I("z"))), kit.I("a"), R("FROM"), kit.I("t"))
		})
	add("distinct on string", nameList, func(n string) builder.Builder { return base().DistinctOn(n) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("SELECT DISTINCT ON"), Paren(id), kit.I("a"), R("FROM"), kit.I("t"))
		})
	add("insert column", nameExact, func(n string) builder.Builder { return lk.Insert("t").Columns(lk.Column(n), "z").Values(1, 2) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("INSERT INTO"), kit.I("t"), Paren(List(id, kit.I("z"))), R("VALUES"), Paren(List(S(1), S(2))))
		})
	add("insert column string", nameList, func(n string) builder.Builder { return lk.Insert("t").Columns(n).Values(1) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("INSERT INTO"), kit.I("t"), Paren(id), R("VALUES"), Paren(S(1)))
		})
	add("insert set pair column", nameExact, func(n string) builder.Builder { return lk.Insert("t").Set(lk.Pair(lk.Column(n), 1)) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("INSERT INTO"), kit.I("t"), Paren(id), R("VALUES"), Paren(S(1)))
		})
	add("insert set map", nameTrim, func(n string) builder.Builder { return lk.Insert("t").Set(lk.Map{n: 1}) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("INSERT INTO"), kit.I("t"), Paren(id), R("VALUES"), Paren(S(1)))
		})
	add("update set pair", nameTrim, func(n string) builder.Builder { return lk.Update("t").Set(lk.Pair(n, 1)) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("UPDATE"), kit.I("t"), R("SET"), id, R("="), S(1)) })
	add("update set pair column", nameExact, func(n string) builder.Builder { return lk.Update("t").Set(lk.Pair(lk.Column(n), 1)) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("UPDATE"), kit.I("t"), R("SET"), id, R("="), S(1)) })
	add("update set string map", nameTrim, func(n string) builder.Builder { return lk.Update("t").Set(map[string]interface{}{n: nil}) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("UPDATE"), kit.I("t"), R("SET"), id, R("= NULL")) })
	add("update set list", nameExact, func(n string) builder.Builder { return lk.Update("t").Set("z", lk.Column(n)).Using(1, 2) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("UPDATE"), kit.I("t"), R("SET"), Paren(List(kit.I("z"), id)), R("="), Paren(List(S(1), S(2))))
		})
	add("update set list string", nameList, func(n string) builder.Builder { return lk.Update("t").Set(n).Using(1) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("UPDATE"), kit.I("t"), R("SET"), Paren(id), R("="), Paren(S(1)))
		})
	conflict := Cat(R("INSERT INTO"), kit.I("t"), R("ON CONFLICT"))
	add("conflict target column", nameExact, func(n string) builder.Builder { return lk.Insert("t").OnConflict("z", lk.Column(n), lk.DoNothing()) },
		func(id []kit.Tok) []kit.Tok { return Cat(conflict, Paren(List(kit.I("z"), id)), R("DO NOTHING")) })
	add("conflict target string", nameTrim, func(n string) builder.Builder { return lk.Insert("t").OnConflict(n, lk.DoNothing()) },
		func(id []kit.Tok) []kit.Tok { return Cat(conflict, Paren(id), R("DO NOTHING")) })
	add("do update pair", nameExact, func(n string) builder.Builder {
		return lk.Insert("t").OnConflict("z", lk.DoUpdate(lk.Pair(lk.Column(n), 1)))
	},
		func(id []kit.Tok) []kit.Tok {
			return Cat(conflict, Paren(kit.I("z")), R("DO UPDATE SET"), id, R("="), S(1))
		})
	add("do update map", nameTrim, func(n string) builder.Builder {
		return lk.Insert("t").OnConflict("z", lk.DoUpdate(lk.Map{n: 1}))
	},
		func(id []kit.Tok) []kit.Tok {
			return Cat(conflict, Paren(kit.I("z")), R("DO UPDATE SET"), id, R("="), S(1))
		})
	add("returning column", nameExact, func(n string) builder.Builder { return lk.Delete("t").Returning(lk.Column(n).As("z"), "y") },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("DELETE FROM"), kit.I("t"), R("RETURNING"), id, R("AS"), kit.I("z"), R(","), kit.I("y"))
		})
	add("returning alias", nameExact, func(n string) builder.Builder { return lk.Insert("t").Returning(lk.Column("z").As(n)) },
		func(id []kit.Tok) []kit.Tok {
			return Cat(R("INSERT INTO"), kit.I("t"), R("RETURNING"), kit.I("z"), R("AS"), id)
		})
	add("returning string", nameList, func(n string) builder.Builder { return lk.Delete("t").Returning(n) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("DELETE FROM"), kit.I("t"), R("RETURNING"), id) })
	// Conditions.
	cond := func(name string, f func(id stmt.Identifier) stmt.Expression, want func(id []kit.Tok) []kit.Tok) {
		add("condition "+name, nameExact, func(n string) builder.Builder { return lk.Delete("t").Where(f(lk.Condition(n))) },
			func(id []kit.Tok) []kit.Tok { return Cat(R("DELETE FROM"), kit.I("t"), R("WHERE"), want(id)) })
	}
	cond("Equal", func(i stmt.Identifier) stmt.Expression { return i.Equal(1) }, func(id []kit.Tok) []kit.Tok { return Bin(id, "=", S(1)) })
	cond("In", func(i stmt.Identifier) stmt.Expression { return i.In(1, 2) }, func(id []kit.Tok) []kit.Tok { return Paren(id, R("IN"), Paren(List(S(1), S(2)))) })
	cond("Between", func(i stmt.Identifier) stmt.Expression { return i.Between(1, 2) }, func(id []kit.Tok) []kit.Tok { return Paren(id, R("BETWEEN"), S(1), R("AND"), S(2)) })
	cond("IsNull", func(i stmt.Identifier) stmt.Expression { return i.IsNull(true) }, func(id []kit.Tok) []kit.Tok { return Bin(id, "IS", R("NULL")) })
	cond("operand", func(i stmt.Identifier) stmt.Expression { return lk.Condition("z").Equal(i) }, func(id []kit.Tok) []kit.Tok { return Bin(kit.I("z"), "=", id) })
	cond("bound", func(i stmt.Identifier) stmt.Expression { return lk.Condition("z").Between(1, i) }, func(id []kit.Tok) []kit.Tok { return Paren(kit.I("z"), R("BETWEEN"), S(1), R("AND"), id) })
	cond("in list", func(i stmt.Identifier) stmt.Expression { return lk.Condition("z").In(i, 1) }, func(id []kit.Tok) []kit.Tok { return Paren(kit.I("z"), R("IN"), Paren(List(id, S(1)))) })
	cond("call argument", func(i stmt.Identifier) stmt.Expression { return stmt.NewCall("f", i).Equal(1) }, func(id []kit.Tok) []kit.Tok { return Bin(Cat(R("f"), Paren(id)), "=", S(1)) })
	cond("nested", func(i stmt.Identifier) stmt.Expression {
		return lk.Condition("z").In(lk.Select("y").Where(i.Like("x")))
	}, func(id []kit.Tok) []kit.Tok {
		return Paren(kit.I("z"), R("IN"), Paren(R("SELECT"), kit.I("y"), R("WHERE"), Bin(id, "LIKE", S("x"))))
	})
	add("assigned identifier", nameExact, func(n string) builder.Builder { return lk.Update("t").Set(lk.Pair("z", lk.Condition(n))) },
		func(id []kit.Tok) []kit.Tok { return Cat(R("UPDATE"), kit.I("t"), R("SET"), kit.I("z"), R("="), id) })
	add("having", nameExact, func(n string) builder.Builder { return base().Having(lk.Condition(n).Equal(1)) },
		func(id []kit.Tok) []kit.Tok { return Cat(sel, R("HAVING"), Bin(id, "=", S(1))) })
	return out
}()

var nameAlphabet = []string{"a", `"`, ".", "'", `\`, " ", "-", ";", ",", "(", ")", "*", "/", "$", ":", "\n", "\t", "\x00", "\u00e9", "\xff", "%", "Z", "1", "\u202e", "`", "?", "\r", "\u2028", "\U0001f600"}

var wholeNames = []string{
	"select", "SELECT", "user", "order", "AS", "NULL", "null", "true", "CURRENT_USER", "a.b.c", "public.users", "Users", "a b", `a"b`, `"a"`, `"`, `""`, `"""`, `"."`, `a"."b`,
	`x"; DROP TABLE t; --`, `x" = "x`, "x--", "x/*y*/", "x\ny", "\u00fcber", "\u0130", "a,b", "count(*)", "*", "t.*", "$1", ":arg_1", "%s", "U&\"x\"", strings.Repeat("n", 64), strings.Repeat(`"`, 33), strings.Repeat("a.", 20) + "a", " a", "a ", " ", "\t", "\n", "\\", "\\n", "\\u0000", "\u200b", "\x7f", "\x01",
}

// keywords mean something to PostgreSQL without quotes.
var keywords = strings.Fields(`ALL ANALYSE ANALYZE AND ANY ARRAY AS ASC ASYMMETRIC BETWEEN BIGINT BOOLEAN BOTH BY CASE CAST CHECK COALESCE COLLATE COLUMN CONFLICT CONSTRAINT CREATE CROSS CTID CURRENT_DATE CURRENT_ROLE CURRENT_TIME CURRENT_TIMESTAMP CURRENT_USER DATE DEFAULT DEFERRABLE DELETE DESC DISTINCT DO ELSE END EXCEPT EXCLUDED EXISTS EXTRACT FALSE FETCH FOR FOREIGN FROM FULL GRANT GROUP HAVING ID ILIKE IN INFORMATION_SCHEMA INITIALLY INNER INSERT INTERSECT INTERVAL INTO IS JOIN KEY LATERAL LEADING LEFT LIKE LIMIT LOCALTIME NATURAL NEW NOT NOTHING NULL NULLIF OFFSET OID OLD ON ONLY OR ORDER OUTER OVERLAPS PG_CATALOG PLACING PRIMARY PUBLIC REFERENCES RETURNING RIGHT ROW SELECT SESSION_USER SET SIMILAR SOME TABLE TABLEOID THEN TIME TIMESTAMP TO TRAILING TRUE UNION UNIQUE UPDATE USER USING VALUE VALUES VARIADIC WHEN WHERE WINDOW WITH XMIN`)

func checkName(x *engine.X, p namePos, n string) {
	var names []string
	switch p.how {
	case nameExact:
		names = []string{n}
	case nameTrim:
		names = []string{strings.TrimSpace(n)}
	case nameList:
		for _, s := range strings.Split(n, ",") {
			names = append(names, strings.TrimSpace(s))
		}
	}
	refused := false
	var ids [][]kit.Tok
	for _, m := range names {
		if m == "" {
			refused = true
		}
		ids = append(ids, kit.I(m))
	}
	x.Op("%s %q", p.name, n)
	x.Checked()
	var err error
	panicked, val := x.Try(func() { err = kit.Match(p.build(n), p.want(kit.List(ids...)), kit.FAll) })
	if panicked != refused {
		x.Fail("name", "%s %q: refused: %v (%v)", p.name, n, panicked, val)
	}
	if err != nil && !panicked {
		x.Fail("name", "%s %q: %v", p.name, n, err)
	}
}

func c05Names(x *engine.X) {
	p := namePositions[x.Pick(len(namePositions), "position")]
	var b strings.Builder
	n := tier(x, 2, 3)
	b.WriteString(nameAlphabet[x.Pick(len(nameAlphabet), "first character")])
	// The rest in one execution.
	var rec func(prefix string, left int)
	rec = func(prefix string, left int) {
		checkName(x, p, prefix)
		x.State(p.name, prefix)
		if left == 0 {
			return
		}
		for _, c := range nameAlphabet {
			rec(prefix+c, left-1)
		}
	}
	rec(b.String(), n)
}

// c05Long: names of any length, and of any number of parts.
func c05Long(x *engine.X) {
	p := namePositions[x.Pick(len(namePositions), "position")]
	sizes := []int{4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 29, 30, 31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4097, 65537}
	n := sizes[x.Pick(len(sizes), "length")]
	for _, unit := range []string{"n", "N", "\"", ".", "n.", "p1.", "\u00e9", "a b", "\x00", "\xff"} {
		checkName(x, p, strings.Repeat(unit, n))
		checkName(x, p, strings.Repeat(unit, n)+"z")
		checkName(x, p, "z"+strings.Repeat(unit, n))
	}
	x.State(p.name, fmt.Sprint(n))
}

func c05Whole(x *engine.X) {
	p := namePositions[x.Pick(len(namePositions), "position")]
	for _, n := range wholeNames {
		checkName(x, p, n)
		x.State(p.name, n)
	}
	// Two names next to each other.
	for _, n := range wholeNames {
		for _, m := range wholeNames {
			checkName(x, p, n+"."+m)
		}
	}
	for _, k := range keywords {
		for _, n := range []string{k, strings.ToLower(k), k[:1] + strings.ToLower(k[1:])} {
			for _, m := range []string{n, n + ".a", "a." + n, n + "." + n, "a." + n + ".b", n + ".A", n + ".*", n + ".a.b", n + "()", n + " a", n + "_a", n + "1"} {
				x.Op("%s", m)
				checkName(x, p, m)
				x.State(p.name, m)
			}
		}
	}
}

// c05Characters: every Unicode character, alone and at either end of a name.
func c05Characters(x *engine.X) {
	// Quick: the characters up to U+2FFF and from U+D700 to U+FFFF everywhere,
	// the others at a thirtieth of the positions in turn.
	block := x.Pick(0x110000/256, "block of 256 characters")
	p := namePositions[x.Pick(len(namePositions), "position")]
	common := block < 0x30 || block >= 0xd7 && block < 0x100
	for i := 0; i < 256; i++ {
		r := rune(block*256 + i)
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		if !common && !x.Thorough && (int(r)+p.index)%30 != 0 {
			continue
		}
		c := string(r)
		for _, n := range []string{c, c + "n", "n" + c, "n" + c + "n"} {
			checkName(x, p, n)
		}
	}
	x.State(p.name, fmt.Sprint(block))
}

func init() {
	register("C05", func() engine.Check {
		return engine.Check{ID: "C05", Scenarios: []engine.Scenario{
			{Name: "whole names", Fn: c05Whole, Bounds: fmt.Sprintf("%d names (quotes, injections), all pairs of them joined by a dot and %d keywords in 3 cases, alone or in 11 longer names, at %d positions", len(wholeNames), len(keywords), len(namePositions))},
			{Name: "long names", Fn: c05Long, Bounds: fmt.Sprintf("10 units repeated 4 to 65537 times, alone, followed or preceded by a letter (names of up to 65538 parts), at %d identifier positions", len(namePositions))},
			{Name: "characters", Fn: c05Characters, Bounds: fmt.Sprintf("every Unicode character alone, first, last and in the middle of a name at %d identifier positions (quick: those above U+2FFF at a thirtieth of the positions each, in turn)", len(namePositions))},
			{Name: "names", Fn: c05Names, Bounds: fmt.Sprintf("all names of 1 to 3 (thorough 4) characters over %d hostile characters at %d identifier positions, in the three renderings", len(nameAlphabet), len(namePositions))},
		}, Assumptions: []string{
			"aggregate arguments and aliases, ORDER BY expressions and names of WITH queries are raw SQL in this API (pinned by the tests), not identifiers",
			"names given as strings where the API takes a column list are trimmed and split at commas, as documented",
		}}
	})
}
