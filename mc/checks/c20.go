package checks

import (
	"fmt"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// commentPieces are pieces of comments.
var commentPieces = []string{
	"a", " ", "\n", "\r", "*/", "/*", "--", "'", "\"", ";", "\\", "$1", ":arg_1", "$$", "\x00", "\v", "\f", "\u2028", "\u0085", "\xff", "DROP TABLE t", "?", "%s", "\r\n", "é", "\t",
}

// comment puts a comment on a builder and its model.
func comment(h kit.H, text string) kit.H {
	switch h.M.Kind {
	case kit.Select:
		h.S = h.S.Comment(text)
	case kit.Insert:
		h.N = h.N.Comment(text)
	case kit.Update:
		h.U = h.U.Comment(text)
	case kit.Delete:
		h.D = h.D.Comment(text)
	}
	h.M.Comment = text
	return h
}

// small is a statement of a kind with a value.
func small(kind int) kit.H {
	h := kit.H{M: kit.Model{Kind: kind}}
	w := kit.Binary(kit.I("c"), "=", kit.S("v"))
	switch kind {
	case kit.Select:
		h.S = lk.Select("a").From("t").Where(lk.Condition("c").Equal("v"))
		h.M.Exprs, h.M.From, h.M.Where = kit.I("a"), kit.I("t"), w
	case kit.Insert:
		h.N = lk.Insert("t").Values("v")
		h.M.Into, h.M.Values = kit.I("t"), kit.Paren(kit.S("v"))
	case kit.Update:
		h.U = lk.Update("t").Set(lk.Pair("a", 1)).Where(lk.Condition("c").Equal("v"))
		h.M.Table, h.M.Assoc, h.M.Where = kit.I("t"), []kit.Assign{{Col: "a", Toks: kit.S(1)}}, w
	case kit.Delete:
		h.D = lk.Delete("t").Where(lk.Condition("c").Equal("v"))
		h.M.From, h.M.Where = kit.I("t"), w
	}
	return h
}

func pieces(x *engine.X, max int, labels string) string {
	var b strings.Builder
	n := 1 + x.Pick(max, "pieces")
	for i := 0; i < n; i++ {
		b.WriteString(commentPieces[x.Pick(len(commentPieces), labels)])
	}
	return b.String()
}

// c20Texts: every short text.
func c20Texts(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	text := pieces(x, tier(x, 3, 4), "piece")
	x.Op("%s: Comment(%q)", kit.KindNames[kind], text)
	var h kit.H
	must(x, "comment", fmt.Sprintf("Comment(%q)", text), func() { h = comment(small(kind), text) })
	verify(x, h, kit.FAll, "comment", fmt.Sprintf("%s with the comment %q", kit.KindNames[kind], text))
	x.State(text, fmt.Sprint(kind))
}

// hardComments are the texts given to other statements.
var hardComments = []string{
	"plain", "\nDROP TABLE t", "\r; DELETE FROM t; --", "*/ OR 1=1 /*", "it's \"quoted\" $1 :arg_1 ?", "--", "a\r\nb\nc\rd", "\n", " ", "; --\n$2", "\\", "\x00\n$1", "')) --\n;", "\r", "\n\n\n$1",
}

// c20Statements: statements of the grammar, with and without the comment.
func c20Statements(kind int) func(x *engine.X) {
	return func(x *engine.X) {
		text := hardComments[x.Pick(len(hardComments), "comment")]
		g := &kit.Gen{C: x, Depth: 1, NoComment: true}
		h := g.Stmt(kind)
		x.Op("%s", h.M.Key())
		c := h
		must(x, "statement", fmt.Sprintf("Comment(%q)", text), func() { c = comment(h, text) })
		what := fmt.Sprintf("with the comment %q: %s", text, h.M.Key())
		verify(x, c, kit.FAll, "statement", what)
		verify(x, h, kit.FQuery, "statement", "not commented: "+h.M.Key())
		// The text before the comment is the statement without it.
		x.Checked()
		a, _ := h.B().Query()
		b, _ := c.B().Query()
		if !strings.HasPrefix(b, a) {
			x.Fail("statement", "%s: %s does not begin with %s", what, b, a)
		}
		x.State(c.M.Key())
	}
}

// c20Product: every combination of the variants of all the clauses, with a
// comment given first or last.
func c20Product(x *engine.X) {
	h := genStmt(x, &kit.Gen{C: x, Free: true, NoComment: true}, "product")
	text := hardComments[[]int{6, 1, 4, 9, 13}[x.Pick(tier(x, 2, 5), "comment")]]
	c := h
	must(x, "product", fmt.Sprintf("Comment(%q)", text), func() { c = comment(h, text) })
	verify(x, c, kit.FQuery, "product", fmt.Sprintf("with the comment %q: %s", text, h.M.Key()))
	x.State(c.M.Key())
}

// c20Order: a comment anywhere in a history of calls, once or more.
func c20Order(kind int) func(x *engine.X) {
	return func(x *engine.X) {
		h := kit.Start(kind)
		depth := tier(x, 2, 3)
		before := x.Pick(depth+1, "first comment")
		again := x.Pick(depth+2, "second comment")
		for i := 0; i <= depth; i++ {
			if i == before {
				x.Op("Comment(first)")
				h = comment(h, "first\n$1")
			}
			if i == again {
				x.Op("Comment(second)")
				h = comment(h, "second\r'")
			}
			if i < depth {
				all := ops(kind, i)
				h, _ = apply(x, h, all[x.Pick(len(all), "call")], "order")
			}
		}
		verify(x, h, kit.FAll, "order", "statement commented on the way")
		x.State(h.M.Key())
	}
}

// c20Empty: an empty comment changes nothing.
func c20Empty(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	h := small(kind)
	var c kit.H
	must(x, "empty", `Comment("")`, func() { c = comment(h, "") })
	x.Op(`Comment("")`)
	x.Checked()
	a, _ := h.B().Query()
	b, _ := c.B().Query()
	if strings.TrimRight(strings.TrimPrefix(b, a), "; -") != "" || !strings.HasPrefix(b, a) {
		x.Fail("empty", `Comment("") makes %s of %s`, b, a)
	}
	x.State(fmt.Sprint(kind))
}

// c20Sub: commented subqueries everywhere, in statements commented or not.
func c20Sub(x *engine.X) {
	g := &kit.Gen{C: x, Depth: 1, NoComment: true}
	k := x.Pick(nPositions, "position")
	text := hardComments[x.Pick(len(hardComments), "comment")]
	form := x.Pick(5, "form")
	s, ts := simpleSub(g)
	f := subForm{name: fmt.Sprintf("subquery commented %q", text), of: func(s lkSelect) interface{} {
		c := s.Comment(text)
		switch form {
		case 0:
			return c
		case 1:
			return &c
		case 2:
			return c.Statement()
		case 3:
			return stmtEnc{c.Statement()}
		default:
			return stmt.NewExpression(c)
		}
	}}
	h := positionOf(x, g, k, f, s, ts)
	verify(x, h, kit.FAll, "subquery", "statement with a commented subquery")
	if form == 0 {
		h = comment(h, text)
		verify(x, h, kit.FAll, "subquery", "commented statement with a commented subquery")
	}
	x.State(h.M.Key())
}

// c20Nested: commented subqueries inside of commented subqueries.
func c20Nested(x *engine.X) {
	g := &kit.Gen{C: x, Depth: 1, NoComment: true}
	s, ts := simpleSub(g)
	levels := 2 + x.Pick(tier(x, 1, 2), "levels")
	var h kit.H
	for l := 0; l < levels; l++ {
		text := hardComments[1+x.Pick(3, "comment")]
		f := subForm{name: "commented", of: func(s lkSelect) interface{} { return s.Comment(text) }}
		if x.PickBool("as statement") {
			f.of = func(s lkSelect) interface{} { return s.Comment(text).Statement() }
		}
		pos := innerPositions
		if l == levels-1 {
			h = positionOf(x, g, x.Pick(nPositions, "position"), f, s, ts)
			break
		}
		if l > 0 {
			pos = pos[:len(subSlots)/4]
		}
		h = positionOf(x, g, pos[x.Pick(len(pos), "position")], f, s, ts)
		s = h.S
		ts, _ = h.M.Body()
	}
	verify(x, h, kit.FQuery, "nested", "statement with nested commented subqueries")
	x.State(h.M.Key())
}

// c20Long: long comments with a line break anywhere.
func c20Long(x *engine.X) {
	sizes := []int{1, 2, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1023, 4096, 65536}
	n := sizes[x.Pick(len(sizes), "size")]
	br := []string{"\n", "\r", "\r\n", "'", "*/", "\x00"}[x.Pick(6, "piece")]
	every := x.Pick(4, "places")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if every == 0 && i == n/2 || every == 1 && i == n-1 || every == 2 && i == 0 || every == 3 && i%7 == 0 {
			b.WriteString(br)
		} else {
			b.WriteByte("abc $1"[i%6])
		}
	}
	kind := x.Pick(kit.NKinds, "kind")
	x.Op("%d characters", b.Len())
	h := comment(small(kind), b.String())
	verify(x, h, kit.FAll, "long", "statement with a long comment")
	x.State(fmt.Sprint(n, br, every, kind))
}

func init() {
	register("C20", func() engine.Check {
		c := engine.Check{ID: "C20", Scenarios: []engine.Scenario{
			{Name: "texts", Fn: c20Texts, Bounds: fmt.Sprintf("4 kinds x every text of 1 to 3 (thorough 4) of %d pieces", len(commentPieces))},
			{Name: "empty", Fn: c20Empty, Bounds: "4 kinds"},
			{Name: "subqueries", Fn: c20Sub, Bounds: fmt.Sprintf("%d positions of a subquery x %d comments x 5 ways of giving it", nPositions, len(hardComments))},
			{Name: "nested", Fn: c20Nested, Bounds: "2 (thorough 3) levels of commented subqueries in every position"},
			{Name: "product", Fn: c20Product, Bounds: "every combination of the variants of all the clauses at once x 2 (thorough 5) comments"},
			{Name: "long", Fn: c20Long, Bounds: "texts of 1 to 65536 characters with 6 pieces at 4 places"},
		}, Assumptions: []string{
			"a line break of the text is shown as a blank: PostgreSQL ends a comment at \\n and \\r only",
			"a NUL character is carried as is (PostgreSQL refuses the whole query)",
			"the comment of a subquery is left out",
		}}
		for k := 0; k < kit.NKinds; k++ {
			c.Scenarios = append(c.Scenarios,
				engine.Scenario{Name: kit.KindNames[k] + " statements", Fn: c20Statements(k), Quick: 2, Thorough: 3, Bounds: fmt.Sprintf("every statement of the grammar with at most 2 (thorough 3) variants x %d comments", len(hardComments))},
				engine.Scenario{Name: kit.KindNames[k] + " calls", Fn: c20Order(k), Bounds: "every history of 2 (thorough 3) calls with one or two comments anywhere"})
		}
		return c
	})
}
