package checks

import (
	"fmt"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/token"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
)

// joinSpec is the meaning of a join.
type joinSpec struct {
	kind  string
	table string
	cols  []string // left, right, left, right...
	ops   []string // between the comparisons
}

func (j joinSpec) kindOr() string {
	if j.kind == "" {
		return "INNER JOIN"
	}
	return j.kind + " JOIN"
}

func (j joinSpec) on() []kit.Tok {
	if len(j.cols) == 0 {
		return nil
	}
	t := kit.Cat(kit.I(j.cols[0]), kit.R("="), kit.I(j.cols[1]))
	for i, op := range j.ops {
		t = kit.Paren(t, kit.R(op), kit.I(j.cols[2*i+2]), kit.R("="), kit.I(j.cols[2*i+3]))
	}
	return t
}

// content reads what a text says: its kinds, its words and its operators, in
// order. Delimiters, ON, JOIN and INNER have no other content than their own.
func content(toks []lexTok) (kinds []string, rest []string) {
	for _, t := range toks {
		switch t.t {
		case token.LParen, token.RParen, token.Semicolon, token.On, token.Join:
		case token.Inner, token.Left, token.Right:
			kinds = append(kinds, string(t.t))
		case token.Literal:
			rest = append(rest, "l"+t.v)
		default:
			rest = append(rest, "k"+string(t.t)+t.v)
		}
	}
	return
}

// documented recognises the documented forms.
func documented(toks []lexTok) (j joinSpec, ok bool) {
	i := 0
	is := func(t token.Type) bool { return i < len(toks) && toks[i].t == t }
	take := func(t token.Type) bool {
		if is(t) {
			i++
			return true
		}
		return false
	}
	if take(token.Semicolon) { // never at the start
		return
	}
	lead := false
	for _, k := range []token.Type{token.Inner, token.Left, token.Right} {
		if take(k) {
			j.kind = string(k)
			if !take(token.Join) {
				return
			}
			lead = true
			break
		}
	}
	if !lead && take(token.Join) {
		lead = true
	}
	if i+1 < len(toks) && toks[i].t == token.Literal && toks[i+1].t == token.On {
		j.table = toks[i].v
		i++
	} else if lead {
		return
	}
	onKeyword := take(token.On)
	if j.table != "" && !onKeyword {
		return
	}
	paren := take(token.LParen)
	for {
		if !is(token.Literal) {
			return
		}
		l := toks[i].v
		i++
		if !take(token.Equals) || !is(token.Literal) {
			return
		}
		j.cols = append(j.cols, l, toks[i].v)
		i++
		if is(token.And) || is(token.Or) {
			j.ops = append(j.ops, string(toks[i].t))
			i++
			continue
		}
		break
	}
	if paren && !take(token.RParen) {
		return
	}
	take(token.Semicolon)
	return j, i == len(toks)
}

// describe reads back a parsed join.
func describe(j stmt.Join) (joinSpec, error) {
	out := joinSpec{table: j.Table.Name}
	switch j.Type {
	case types.InnerJoin:
		out.kind = "INNER"
	case types.LeftJoin:
		out.kind = "LEFT"
	case types.RightJoin:
		out.kind = "RIGHT"
	default:
		return out, fmt.Errorf("kind %q", j.Type)
	}
	if j.Table.Alias != "" {
		return out, fmt.Errorf("alias %q", j.Table.Alias)
	}
	if j.Condition == nil {
		return out, nil
	}
	ctx := &types.StdContext{}
	j.Condition.Write(ctx)
	if len(ctx.Values()) > 0 {
		return out, fmt.Errorf("arguments %v", ctx.Values())
	}
	return out, nil
}

// checkJoin decides one text.
func checkJoin(x *engine.X, text string) {
	x.Checked()
	var j stmt.Join
	var err error
	if p, v := x.Try(func() { j, err = parser.ParseJoin(text) }); p {
		x.Fail("crash", "ParseJoin(%q) panicked: %v", text, v)
	}
	toks := specLex(text)
	want, doc := documented(toks)
	if err != nil {
		if doc {
			x.Fail("refused", "ParseJoin(%q): a documented form is refused: %v", text, err)
		}
		if j.Type != "" || !j.Table.IsEmpty() || j.Condition != nil {
			x.Fail("error", "ParseJoin(%q) answers both an error and a join %+v", text, j)
		}
		mustRefuse(x, "error", fmt.Sprintf("MustParseJoin(%q)", text), func() { parser.MustParseJoin(text) })
		if _, q := x.Try(func() { lk.Select("a").From("f").Join(text) }); q == nil {
			x.Fail("error", "Join(%q) is accepted though the text cannot be parsed", text)
		}
		return
	}
	// What the text says, in order.
	kinds, rest := content(toks)
	if len(kinds) > 1 {
		x.Fail("lost", "ParseJoin(%q) accepts %d join kinds and gives %s", text, len(kinds), j.Type)
	}
	if !doc {
		// Accepted though not documented: the meaning is the one of its words.
		want = joinSpec{}
		if len(kinds) == 1 {
			want.kind = kinds[0]
		}
		k := 0
		if len(rest) > 0 && rest[0][0] == 'l' && (len(rest) == 1 || rest[1] != "k==") {
			want.table = rest[0][1:]
			k = 1
		}
		for k < len(rest) {
			if k+2 >= len(rest) || rest[k][0] != 'l' || rest[k+1] != "k==" || rest[k+2][0] != 'l' {
				x.Fail("lost", "ParseJoin(%q) accepts words which are no comparison: %v", text, rest[k:])
			}
			want.cols = append(want.cols, rest[k][1:], rest[k+2][1:])
			k += 3
			if k < len(rest) {
				switch {
				case strings.HasPrefix(rest[k], "kAND"):
					want.ops = append(want.ops, "AND")
				case strings.HasPrefix(rest[k], "kOR"):
					want.ops = append(want.ops, "OR")
				default:
					x.Fail("lost", "ParseJoin(%q) accepts %v after a comparison", text, rest[k:])
				}
				k++
				if k == len(rest) {
					x.Fail("lost", "ParseJoin(%q) accepts a text ending with an operator", text)
				}
			}
		}
	}
	got, derr := describe(j)
	if derr != nil {
		x.Fail("meaning", "ParseJoin(%q): %v", text, derr)
	}
	if got.kind+" JOIN" != want.kindOr() || got.table != want.table {
		x.Fail("meaning", "ParseJoin(%q) gives the %s of table %q instead of the %s of table %q", text, got.kind, got.table, want.kindOr(), want.table)
	}
	if (j.Condition == nil) != (len(want.cols) == 0) {
		x.Fail("meaning", "ParseJoin(%q) gives condition %+v instead of %v", text, j.Condition, want)
	}
	if j.Condition == nil {
		mustRefuse(x, "incomplete", fmt.Sprintf("Join(%q), without condition", text), func() { _ = lk.Select("a").From("f").Join(text).String() })
		return
	}
	// The builder.
	k := kit.H{M: kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("f")}}
	// A name without part (".") is no identifier.
	for _, n := range append([]string{want.table}, want.cols...) {
		for _, p := range strings.Split(n, ".") {
			if p == "" && n != "" {
				return
			}
		}
	}
	if want.table == "" {
		mustRefuse(x, "incomplete", fmt.Sprintf("Join(%q), without table", text), func() { _ = lk.Select("a").From("f").Join(text).String() })
		must(x, "builder", fmt.Sprintf("Join(\"t\", %q)", text), func() { k.S = lk.Select("a").From("f").Join("t", text) })
		k.M.Joins = [][]kit.Tok{kit.Cat(kit.R(want.kindOr()), kit.I("t"), kit.R("ON"), want.on())}
	} else {
		must(x, "builder", fmt.Sprintf("Join(%q)", text), func() { k.S = lk.Select("a").From("f").Join(text) })
		k.M.Joins = [][]kit.Tok{kit.Cat(kit.R(want.kindOr()), kit.I(want.table), kit.R("ON"), want.on())}
	}
	verify(x, k, kit.FAll, "builder", fmt.Sprintf("select with the join %q", text))
}

var joinWords = []string{"a", "b.c", "=", "AND", "OR", "ON", "JOIN", "INNER", "LEFT", "RIGHT", "(", ")", ";", "*", "CROSS", ",", "SELECT", "é"}

// c12Words: every sequence of words.
func c12Words(x *engine.X) {
	n := x.Pick(tier(x, 6, 7), "length")
	words := make([]string, n)
	for i := range words {
		words[i] = joinWords[x.Pick(len(joinWords), "word")]
	}
	text := strings.Join(words, " ")
	x.Op("%q", text)
	checkJoin(x, text)
	x.State(text)
}

// c12Forms: the documented forms, whole or with one or two edits.
func c12Forms(x *engine.X) {
	var w []string
	switch x.Pick(5, "kind") {
	case 1:
		w = append(w, "JOIN")
	case 2:
		w = append(w, "INNER", "JOIN")
	case 3:
		w = append(w, "LEFT", "JOIN")
	case 4:
		w = append(w, "RIGHT", "JOIN")
	}
	switch x.Pick(3, "table") {
	case 0:
		w = append(w, "t", "ON")
	case 1:
		w = append(w, "ON")
	}
	paren := x.PickBool("parentheses")
	if paren {
		w = append(w, "(")
	}
	n := 1 + x.Pick(tier(x, 3, 4), "comparisons")
	edits := 0
	if n <= 2 {
		edits = x.Pick(tier(x, 2, 3), "edits")
	} else {
		edits = x.Pick(2, "edits")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			w = append(w, []string{"AND", "OR"}[x.Pick(2, "operator")])
		}
		w = append(w, fmt.Sprintf("L%d.x", i), "=", fmt.Sprintf("r%d.Yy", i))
	}
	if paren {
		w = append(w, ")")
	}
	if x.PickBool("semicolon") {
		w = append(w, ";")
	}
	for e := 0; e < edits; e++ {
		pos := x.Pick(len(w)+1, "place of the edit")
		switch k := x.Pick(3, "edit"); {
		case k == 0:
			w = append(w[:pos:pos], append([]string{joinWords[x.Pick(len(joinWords), "word")]}, w[pos:]...)...)
		case pos == len(w):
			x.Skip()
		case k == 1:
			w = append(w[:pos:pos], w[pos+1:]...)
		case k == 2:
			r := joinWords[x.Pick(len(joinWords), "word")]
			if r == w[pos] {
				x.Skip()
			}
			w = append(w[:pos:pos], append([]string{r}, w[pos+1:]...)...)
		}
	}
	sep := " "
	if edits == 0 {
		switch x.Pick(5, "writing") {
		case 1:
			sep = "\n\t"
		case 2:
			for i := range w {
				if w[i] == strings.ToUpper(w[i]) {
					w[i] = strings.ToLower(w[i]) // the keywords only
				}
			}
		case 3:
			for i := range w {
				if w[i] == strings.ToUpper(w[i]) {
					w[i] = w[i][:1] + strings.ToLower(w[i][1:])
				}
			}
		case 4:
			// As compact as it can be.
			text := ""
			for i, s := range w {
				if i > 0 && wordRune(rune(s[0])) && wordRune(rune(w[i-1][0])) {
					text += " "
				}
				text += s
			}
			w, sep = []string{text}, ""
		}
	}
	text := strings.Join(w, sep)
	x.Op("%q", text)
	checkJoin(x, text)
	x.State(text)
}

// c12Chars: every short text.
func c12Chars(x *engine.X) {
	alpha := []string{"a", "=", "b.", " ", "(", ")", ";", "on", "OR", "and", "\n", "'", "\x00", "é", "\xff", "\"", "-", "*", "join", "Left", "\t", ":", ",", "0"}
	n := x.Pick(tier(x, 5, 6), "length")
	text := ""
	for i := 0; i < n; i++ {
		text += alpha[x.Pick(len(alpha), "piece")]
	}
	x.Op("%q", text)
	if strings.ToValidUTF8(text, "") == text {
		checkJoin(x, text)
		return
	}
	x.Checked()
	var err error
	if p, v := x.Try(func() { _, err = parser.ParseJoin(text) }); p {
		x.Fail("crash", "ParseJoin(%q) panicked: %v", text, v)
	}
	if err == nil {
		x.Fail("lost", "ParseJoin(%q) accepts a text with an invalid byte", text)
	}
}

// c12Arguments: joins given as several arguments.
func c12Arguments(x *engine.X) {
	kinds := []string{"", "JOIN", "INNER JOIN", "LEFT JOIN", "RIGHT JOIN"}
	kind := kinds[x.Pick(len(kinds), "kind in the text")]
	table := []string{"", "t", "s.u", "T"}[x.Pick(4, "table in the text")]
	on := x.PickBool("ON in the text")
	if table != "" && !on || kind != "" && table == "" {
		x.Skip()
	}
	word := []func(string) string{func(s string) string { return s }, strings.ToLower, func(s string) string { return s[:1] + strings.ToLower(s[1:]) }}[x.Pick(3, "case of the keywords")]
	text := ""
	if kind != "" {
		text = word(kind)
	}
	if table != "" {
		text += " " + table
	}
	if on {
		text += " " + word("ON")
	}
	j := joinSpec{}
	n := 1 + x.Pick(3, "comparisons")
	for i := 0; i < n; i++ {
		if i > 0 {
			op := []string{"AND", "OR"}[x.Pick(2, "operator")]
			j.ops = append(j.ops, op)
			text += " " + word(op)
		}
		l, r := fmt.Sprintf("L%d.x", i), fmt.Sprintf("r%d.Yy", i)
		j.cols = append(j.cols, l, r)
		text += " " + l + " = " + r
	}
	var targ interface{}
	var ttoks []kit.Tok
	tname := ""
	switch x.Pick(5, "table argument") {
	case 0:
		targ, tname, ttoks = "t", "t", kit.I("t")
	case 1:
		targ, tname, ttoks = lk.Table("t"), "t", kit.I("t")
	case 2:
		targ, tname, ttoks = lk.Table("t").As("z"), "t", kit.Cat(kit.I("t"), kit.R("AS"), kit.I("z"))
	case 3:
		targ, tname, ttoks = "s.u", "s.u", kit.I("s.u")
	case 4:
		targ, tname, ttoks = lk.Table("other"), "other", kit.I("other")
	}
	args := []interface{}{targ, text}
	want := strings.TrimPrefix(kind, "JOIN")
	if want == "" {
		want = "INNER JOIN"
	}
	conflict := table != "" && table != tname
	unspecified := false
	if k := x.Pick(6, "kind argument"); k > 0 {
		jt := []types.JoinType{lk.InnerJoin, lk.LeftJoin, lk.RightJoin, lk.LeftOuterJoin, lk.RightOuterJoin}[k-1]
		name := []string{"INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN"}[k-1]
		if kind == "INNER JOIN" && name != kind {
			unspecified = true // see DESIGN.md
		} else if strings.Replace(name, " OUTER", "", 1) == kind && name != kind {
			unspecified = true // the same kind in other words
		} else if strings.Contains(kind, " ") && kind != name {
			conflict = true
		}
		want = name
		args = append(args, jt)
	}
	x.Op("Join(%v)", args)
	build := func() lkSelect { return lk.Select("a").From("f").Join(args...) }
	if conflict {
		mustRefuse(x, "contradiction", fmt.Sprintf("Join%q, contradictory", args), func() { _ = build().String() })
		return
	}
	h := kit.H{M: kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("f")}}
	if p, v := x.Try(func() { h.S = build() }); p {
		if unspecified {
			return
		}
		x.Fail("builder", "Join%q was refused: %v", args, v)
	}
	h.M.Joins = [][]kit.Tok{kit.Cat(kit.R(want), ttoks, kit.R("ON"), j.on())}
	verify(x, h, kit.FAll, "builder", fmt.Sprintf("Join%q", args))
	// Again, after other joins.
	h.S = h.S.Join(args...)
	h.M.Joins = kit.AddList(h.M.Joins, h.M.Joins[0])
	verify(x, h, kit.FQuery, "builder", fmt.Sprintf("twice Join%q", args))
	x.State(h.M.Key(), text)
	// Arguments which are no join.
	for i, bad := range [][]interface{}{{}, {nil}, {targ}, {1}, {targ, nil}, {targ, 1}, {nil, text}, {1, text}, {targ, text, nil}, {targ, text, "LEFT JOIN"}, {targ, text, 1},
		{targ, text, lk.LeftJoin, lk.LeftJoin}, {targ, text, lk.LeftJoin, nil}, {text, targ}, {lk.LeftJoin, targ, text}, {stmt.Join{}}, {targ, lk.Table("t")}} {
		mustRefuse(x, "arguments", fmt.Sprintf("Join%q (%d)", bad, i), func() { _ = lk.Select("a").From("f").Join(bad...).String() })
	}
}

// joinNames look like keywords or like one another.
var joinNames = []string{"a", "A", "a.b", "b.a", "orders", "android", "onx", "_", "x1", "joined", "t.on", "inner_id"}

// c12Names: comparisons of any names, equal ones among them.
func c12Names(x *engine.X) {
	n := 1 + x.Pick(3, "comparisons")
	size := len(joinNames)
	if n == 3 {
		size = tier(x, 2, 4)
	} else if n == 2 {
		size = tier(x, 6, len(joinNames))
	}
	kind := joinKindsOf(n)
	word := []func(string) string{func(s string) string { return s }, strings.ToLower}[x.Pick(2, "case of the keywords")]
	text := word(kind[x.Pick(len(kind), "kind")]) + joinNames[x.Pick(min(size, 4), "table")] + word(" ON ")
	for i := 0; i < n; i++ {
		if i > 0 {
			text += word([]string{" AND ", " OR "}[x.Pick(2, "operator")])
		}
		text += joinNames[x.Pick(size, "left")] + " = " + joinNames[x.Pick(size, "right")]
	}
	x.Op("%q", text)
	checkJoin(x, text)
	x.State(text)
}

func joinKindsOf(n int) []string {
	if n > 2 {
		return []string{"JOIN ", "LEFT JOIN "}
	}
	return []string{"", "JOIN ", "INNER JOIN ", "LEFT JOIN ", "RIGHT JOIN "}
}

// c12Long: long conditions.
func c12Long(x *engine.X) {
	sizes := []int{5, 8, 9, 16, 17, 33, 64, 100, 257, 1001}
	n := sizes[x.Pick(len(sizes), "comparisons")]
	pat := x.Pick(4, "operators")
	mod := []int{n, 1, 2}[x.Pick(3, "equal ones")]
	var b strings.Builder
	b.WriteString("LEFT JOIN t ON ")
	for i := 0; i < n; i++ {
		if i > 0 {
			op := "AND"
			if pat == 1 || pat == 2 && i%2 == 0 || pat == 3 && i == n-1 {
				op = "OR"
			}
			b.WriteString(" " + op + " ")
		}
		fmt.Fprintf(&b, "l.c%d = r.c%d", i%mod, i%mod)
	}
	x.Op("%d comparisons", n)
	checkJoin(x, b.String())
	x.State(fmt.Sprint(n, pat, mod))
}

// c12Wide: long names, and long blanks and noise between the words.
func c12Wide(x *engine.X) {
	sizes := []int{63, 64, 65, 255, 256, 257, 1000, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 65535, 65536, 65537, 100000}
	n := sizes[x.Pick(len(sizes), "size")]
	words := []string{"LEFT", "JOIN", "tt", "ON", "aa", "=", "bb", "OR", "cc", "=", "dd"}
	place := x.Pick(len(words)+1, "place")
	switch how := x.Pick(6, "what"); how {
	case 0, 1, 2:
		if place == len(words) {
			return
		}
		// A long name, of one part or of many.
		pad := []string{"n", "n.", ".N"}[how]
		words[place] += strings.Repeat(pad, n/len(pad)) + strings.Repeat("z", n%len(pad))
	default:
		pad := strings.Repeat([]string{" ", "\n", "\t "}[how-3], n)
		words = append(words[:place:place], append([]string{pad}, words[place:]...)...)
	}
	x.Op("%d at word %d", n, place)
	checkJoin(x, strings.Join(words, " "))
	x.State(fmt.Sprint(n, place))
}

func init() {
	register("C12", func() engine.Check {
		return engine.Check{ID: "C12", Scenarios: []engine.Scenario{
			{Name: "arguments", Fn: c12Arguments, Bounds: "5 kinds x 4 tables x ON x 1 to 3 comparisons in the text, with 5 table arguments and 5 kind arguments, agreeing or not; 17 lists of arguments that are no join"},
			{Name: "long", Fn: c12Long, Bounds: "5 to 1001 comparisons with 4 patterns of operators, distinct or equal"},
			{Name: "wide", Fn: c12Wide, Bounds: "a name of 63 to 100000 bytes, of one or of many parts, in the place of any word, or as many blanks before any word or at the end"},
			{Name: "names", Fn: c12Names, Bounds: "1 to 3 comparisons of any of 12 (2: 6, thorough 12; 3: 2, thorough 4) names, equal ones and look-alikes of keywords among them, 2-5 kinds"},
			{Name: "words", Fn: c12Words, Bounds: fmt.Sprintf("every sequence of at most 5 (thorough 6) of %d words", len(joinWords))},
			{Name: "forms", Fn: c12Forms, Bounds: "every documented form with at most 3 (thorough 4) comparisons, as is in 5 writings, and with every insertion, deletion and replacement (thorough: every two of them, up to 2 comparisons) of one of 18 words"},
			{Name: "texts", Fn: c12Chars, Bounds: "every sequence of at most 4 (thorough 5) of 24 short pieces of text, NUL and invalid bytes among them"},
		}, Assumptions: []string{
			"a text which names INNER JOIN given along with another kind argument: the argument decides (the kind of a text without kind is INNER as well)",
		}}
	})
}
