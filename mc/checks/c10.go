package checks

import (
	"fmt"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
)

// baseline is what a statement renders, the three forms and its arguments.
type baseline struct {
	q, m, s string
	args    []interface{}
	nargs   map[string]interface{}
}

func takeBaseline(b builder.Builder) (l baseline) {
	l.q, l.args = b.Query()
	l.m, l.nargs = b.NamedQuery()
	l.s = b.String()
	l.args = append([]interface{}(nil), l.args...)
	n := map[string]interface{}{}
	for k, v := range l.nargs {
		n[k] = v
	}
	l.nargs = n
	return l
}

func (l baseline) sameArgs(args []interface{}) bool {
	if len(args) != len(l.args) {
		return false
	}
	for i := range args {
		if !kit.SameValue(args[i], l.args[i]) {
			return false
		}
	}
	return true
}

func (l baseline) sameNamed(args map[string]interface{}) bool {
	if len(args) != len(l.nargs) {
		return false
	}
	for k, v := range args {
		w, ok := l.nargs[k]
		if !ok || !kit.SameValue(v, w) {
			return false
		}
	}
	return true
}

func (l baseline) check(x *engine.X, key, what string, b builder.Builder) {
	x.Checked()
	q, args := b.Query()
	m, nargs := b.NamedQuery()
	s := b.String()
	if q != l.q || m != l.m || s != l.s || !l.sameArgs(args) || !l.sameNamed(nargs) {
		x.Fail(key, "%s: the rendering changed\n  was %s %s\n  is  %s %s\n  was %s %s\n  is  %s %s\n  was %s\n  is  %s", what,
			l.q, kit.ShowArgs(l.args), q, kit.ShowArgs(args), l.m, kit.ShowArgs(l.nargs), m, kit.ShowArgs(nargs), l.s, s)
	}
}

// c10Twice writes a statement twice in a context, and reads the context
// before, between and after: reading it changes nothing.
func c10Twice(x *engine.X, b builder.Builder, l baseline, key string) {
	std, named, raw := &types.StdContext{}, &types.NamedContext{}, &types.RawContext{}
	read := func(n int) {
		x.Checked()
		want := strings.Repeat(l.s+" | ", n)
		for i := 0; i < 2; i++ {
			if raw.Query() != want {
				x.Fail(key, "written %d times, read %d times: %s instead of %s", n, i, raw.Query(), want)
			}
			q, m := std.Query(), named.Query()
			if strings.Count(q, " | ") != strings.Count(m, " | ") || !strings.HasPrefix(q, l.q) && n > 0 || !strings.HasPrefix(m, l.m) && n > 0 || n == 0 && q+m != "" {
				x.Fail(key, "written %d times: %s / %s instead of %s / %s", n, q, m, l.q, l.m)
			}
			args, nargs := std.Values(), named.Values()
			if len(args) != n*len(l.args) || len(nargs) != n*len(l.nargs) {
				x.Fail(key, "%d and %d arguments for the statement written %d times instead of %d: %s", len(args), len(nargs), n, n*len(l.args), q)
			}
			for j, v := range args {
				if !kit.SameValue(v, l.args[j%len(l.args)]) || !kit.SameValue(nargs[fmt.Sprintf("arg_%d", j+1)], v) {
					x.Fail(key, "argument %d of the statement written %d times: %v, named %v: %s", j+1, n, v, nargs[fmt.Sprintf("arg_%d", j+1)], q)
				}
			}
			if len(args) > 0 && (!strings.Contains(q, fmt.Sprintf("$%d", len(args))) || !strings.Contains(m, fmt.Sprintf(":arg_%d", len(args)))) {
				x.Fail(key, "no placeholder for the last argument of the statement written %d times: %s / %s", n, q, m)
			}
		}
	}
	for n := 0; n < 3; n++ {
		read(n)
		for _, ctx := range []types.Context{std, named, raw} {
			b.Statement().Write(ctx)
			ctx.Write(" | ")
		}
	}
	read(3)
}

const c10Steps = 9

// c10Step renders in some way, and spoils what was returned.
func c10Step(x *engine.X, k int, h kit.H, l baseline, key string) {
	b := h.B()
	switch k {
	case 0:
		x.Op("String()")
		if s := b.String(); s != l.s {
			x.Fail(key, "String changed:\n  was %s\n  is  %s", l.s, s)
		}
	case 1:
		x.Op("Query(), and overwrite the arguments")
		q, args := b.Query()
		if q != l.q || !l.sameArgs(args) {
			x.Fail(key, "Query changed:\n  was %s %s\n  is  %s %s", l.q, kit.ShowArgs(l.args), q, kit.ShowArgs(args))
		}
		for i := range args {
			args[i] = "spoiled"
		}
	case 2:
		x.Op("NamedQuery(), and overwrite the arguments")
		m, args := b.NamedQuery()
		if m != l.m || !l.sameNamed(args) {
			x.Fail(key, "NamedQuery changed:\n  was %s %s\n  is  %s %s", l.m, kit.ShowArgs(l.nargs), m, kit.ShowArgs(args))
		}
		for i := range args {
			args[i] = "spoiled"
		}
		if args != nil {
			args["other"] = 1
		}
	case 3:
		x.Op("Query(), and append to the arguments")
		_, args := b.Query()
		_ = append(args, "appended", "appended")
		_ = append(args[:0], "cut")
	case 4:
		x.Op("NamedQuery(), and delete the arguments")
		_, args := b.NamedQuery()
		for k := range args {
			delete(args, k)
		}
	case 5:
		x.Op("Statement(), written in the three contexts")
		st := b.Statement()
		raw, std, named := &types.RawContext{}, &types.StdContext{}, &types.NamedContext{}
		st.Write(raw)
		st.Write(std)
		st.Write(named)
		if raw.Query() != l.s || std.Query() != l.q || named.Query() != l.m {
			x.Fail(key, "Statement() renders something else:\n  %s\n  %s\n  %s\n  instead of\n  %s\n  %s\n  %s", raw.Query(), std.Query(), named.Query(), l.s, l.q, l.m)
		}
		for i := range std.Values() {
			std.Values()[i] = "spoiled"
		}
	case 6:
		x.Op("the same statement written twice in a context")
		c10Twice(x, b, l, key)
	case 7:
		x.Op("embed it and render the whole")
		if h.M.Kind != kit.Select {
			x.Skip()
		}
		o := lk.Update("o").Set(lk.Pair("k", 1)).Where(lk.Condition("p").Equal(2)).And(lk.Condition("i").In(h.S)).And(lk.Exists(h.S.Statement()))
		_, args := o.Query()
		for i := range args {
			args[i] = "spoiled"
		}
		if len(args) != 2+2*len(l.args) {
			x.Fail(key, "%d arguments with the statement embedded twice instead of %d", len(args), 2+2*len(l.args))
		}
		o.NamedQuery()
		_ = o.String()
	case 8:
		x.Op("render an unrelated statement and one derived from it")
		lk.Select("zz").From("u").Where(lk.Condition("zz").Equal("unrelated")).Query()
		d := h
		switch h.M.Kind {
		case kit.Select:
			d.S = h.S.OrderBy(lk.Order("zz")).Where(lk.Condition("zz").Equal(3))
		case kit.Insert:
			d.N = h.N.Comment("zz")
		case kit.Update:
			d.U = h.U.Where(lk.Condition("zz").Equal(3))
		case kit.Delete:
			d.D = h.D.Where(lk.Condition("zz").Equal(3))
		}
		_, args := d.B().Query()
		for i := range args {
			args[i] = "spoiled"
		}
		d.B().NamedQuery()
		_ = d.B().String()
	}
}

func c10Histories(steps func(x *engine.X) int) func(x *engine.X) {
	return func(x *engine.X) {
		rec := &kit.Recorder{C: x}
		kind := x.Pick(kit.NKinds, "kind")
		mode := x.Pick(3, "values")
		build := func() (h kit.H) {
			rec.Rewind()
			g := &kit.Gen{C: rec, Depth: 2, V: valueModes[[]int{0, 1, 4}[mode]].v}
			must(x, "statement", "building a statement", func() { h = g.Stmt(kind) })
			return h
		}
		h, twin := build(), build()
		l := takeBaseline(twin.B())
		x.State(l.q, l.m, fmt.Sprint(mode))
		x.Logf("%s", l.q)
		n := steps(x)
		for i := 0; i < n; i++ {
			c10Step(x, x.Pick(c10Steps, "step"), h, l, "history")
		}
		l.check(x, "history", "after the history", h.B())
		l.check(x, "history", "the twin, after the history", twin.B())
	}
}

// c10Conditions: conditions and parts of statements shared by several
// statements, rendered in turn.
func c10Parts(x *engine.X) {
	g := &kit.Gen{C: x, Depth: 2, NoComment: true}
	c, tc := g.CondForm(x.Pick(kit.NConds, "condition"))
	sub, ts := g.Sub()
	cell, tcell := g.Cell()
	action := lk.DoUpdate(lk.Pair("z", cell), lk.Pair("y", 1))
	hs := []kit.H{
		{S: lk.Select("a").From("t").Where(c), M: kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("t"), Where: tc}},
		{D: lk.Delete("t").Where(lk.Condition("k").Equal("first")).And(c), M: kit.Model{Kind: kit.Delete, From: kit.I("t"), Where: kit.Binary(kit.Binary(kit.I("k"), "=", kit.S("first")), "AND", tc)}},
		{U: lk.Update("t").Set(lk.Pair("a", cell)).Where(lk.Exists(sub)), M: kit.Model{Kind: kit.Update, Table: kit.I("t"), Assoc: []kit.Assign{{Col: "a", Toks: tcell}}, Where: kit.Paren(kit.R("EXISTS"), kit.Paren(ts))}},
		{S: lk.Select("b").With(lk.With("w", sub)).From("w").Having(c), M: kit.Model{Kind: kit.Select, Exprs: kit.I("b"), From: kit.I("w"), With: [][]kit.Tok{kit.Cat(kit.R("w AS"), kit.Paren(ts))}, Having: tc}},
		{N: lk.Insert("t").Columns("a").Values(cell).OnConflict("a", action), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.I("a"), Values: kit.Paren(tcell),
			Conflict: kit.Cat(kit.Paren(kit.I("a")), kit.R("DO UPDATE SET"), kit.I("y"), kit.R("="), kit.S(1), kit.P(","), kit.I("z"), kit.R("="), tcell)}},
	}
	// Any two of them, in turn.
	i, j := x.Pick(len(hs), "first"), x.Pick(len(hs), "second")
	x.Op("render %d and %d in turn", i, j)
	for _, k := range []int{i, j, i} {
		verify(x, hs[k], kit.FAll, "shared parts", "statement with shared parts")
	}
	x.State(hs[i].M.Key(), hs[j].M.Key())
}

// kept is what a rendering returned, and a copy of it made at that time.
type kept struct {
	what, text, was string
	args, wasArgs   []interface{}
	named, wasNamed map[string]interface{}
	spoiled         bool
}

func (k *kept) take(b builder.Builder, named bool) {
	if !named {
		k.text, k.args = b.Query()
		k.wasArgs = append([]interface{}(nil), k.args...)
	} else {
		k.text, k.named = b.NamedQuery()
		k.wasNamed = map[string]interface{}{}
		for n, v := range k.named {
			k.wasNamed[n] = v
		}
	}
	k.was = string(append([]byte(nil), k.text...))
}

func (k *kept) spoil(way int) {
	if way > 0 || k.named != nil {
		k.spoiled = true
	}
	switch way {
	case 0:
		// Appending never touches the argument returned itself.
		l := k.args
		for i := 0; i < 12; i++ {
			l = append(l, "appended")
		}
		_ = append(k.args, "appended")
		for i := 0; i < 12 && k.named != nil; i++ {
			k.named[fmt.Sprintf("arg_%d", i+20)] = "added"
		}
	case 1:
		for i := range k.args[:cap(k.args)] {
			k.args[:cap(k.args)][i] = "overwritten"
		}
		for n := range k.named {
			k.named[n] = "overwritten"
		}
	case 2:
		_ = append(k.args[:0], "cut")
		for n := range k.named {
			delete(k.named, n)
		}
	}
}

// c10Kept: what a rendering returned belongs to the caller: nothing that
// happens later changes it, and nothing done with it changes another one.
func c10Kept(steps int, thorough bool) func(x *engine.X) {
	return func(x *engine.X) {
		if !thorough || x.Thorough {
			c10KeptSteps(x, steps)
		}
	}
}

func c10KeptSteps(x *engine.X, steps int) {
	g := &kit.Gen{C: x, Depth: 1, V: valueModes[1].v}
	kind := x.Pick(kit.NKinds, "kind")
	var a kit.H
	must(x, "results", "building a statement", func() { a = g.Stmt(kind) })
	other := lk.Update("o").Set(lk.Pair("p", "o1"), lk.Pair("q", "o2")).Where(lk.Condition("r").In("o3", "o4", "o5")).And(lk.Condition("s").Between("o6", "o7"))
	var derived builder.Builder
	extra := lk.Condition("zz").In("d1", "d2", "d3")
	switch kind {
	case kit.Select:
		derived = a.S.Where(extra)
	case kit.Insert:
		derived = a.N.Comment("zz")
	case kit.Update:
		derived = a.U.Where(extra)
	case kit.Delete:
		derived = a.D.Where(extra)
	}
	bs := []builder.Builder{a.B(), other, derived}
	names := []string{"it", "an unrelated one", "one derived from it"}
	var all []*kept
	for n := 0; n < steps; n++ {
		step := x.Pick(2*len(bs)+3*len(all), "step")
		if step < 2*len(bs) {
			k := &kept{what: fmt.Sprintf("result %d, of %s", len(all), names[step/2])}
			must(x, "results", k.what, func() { k.take(bs[step/2], step%2 == 1) })
			x.Op("render %s, NamedQuery: %v", names[step/2], step%2 == 1)
			all = append(all, k)
		} else {
			step -= 2 * len(bs)
			x.Op("spoil result %d, way %d", step/3, step%3)
			all[step/3].spoil(step % 3)
		}
		for i, k := range all {
			if k.spoiled {
				continue
			}
			x.Checked()
			l := baseline{args: k.wasArgs, nargs: k.wasNamed}
			if k.text != k.was || !l.sameArgs(k.args) || !l.sameNamed(k.named) {
				x.Fail("results", "%s changed after step %d\n  was %s %s %s\n  is  %s %s %s", k.what, n, k.was, kit.ShowArgs(k.wasArgs), kit.ShowArgs(k.wasNamed),
					k.text, kit.ShowArgs(k.args), kit.ShowArgs(k.named))
			}
			// The same statement rendered twice gives the same.
			for _, o := range all[:i] {
				if o.what[len("result 0, "):] == k.what[len("result 0, "):] && (o.named == nil) == (k.named == nil) && o.was != k.was {
					x.Fail("results", "%s and %s differ: %s / %s", o.what, k.what, o.was, k.was)
				}
			}
		}
	}
	x.State(a.M.Key(), fmt.Sprint(len(all)))
}

var _ = stmt.Select{}

// c10Many: statements with many values, rendered in several ways, and what
// was returned spoiled.
func c10Many(x *engine.X) {
	sizes := []int{6, 9, 17, 33, 65, 100, 101, 129, 257, 1025, 4097}
	n := sizes[x.Pick(len(sizes), "values")]
	place := x.Pick(manyPlaces, "place")
	h, twin := manyValues(x, place, n, false), manyValues(x, place, n, false)
	l := takeBaseline(twin.B())
	x.State(fmt.Sprint(place, n))
	steps := 2
	if n > 300 {
		steps = 1
	}
	for i := 0; i < steps; i++ {
		c10Step(x, x.Pick(c10Steps, "step"), h, l, "many")
	}
	l.check(x, "many", "after the history", h.B())
	l.check(x, "many", "the twin, after the history", twin.B())
	// What each rendering returned stays as it was.
	others := []kit.H{h, manyValues(x, place, n, true), manyValues(x, place, n/2+1, false), twin}
	var all []*kept
	for i, o := range others {
		for _, named := range []bool{false, true} {
			k := &kept{what: fmt.Sprintf("result of statement %d", i)}
			k.take(o.B(), named)
			all = append(all, k)
		}
	}
	for i, k := range all {
		x.Checked()
		if l := (baseline{args: k.wasArgs, nargs: k.wasNamed}); k.text != k.was || !l.sameArgs(k.args) || !l.sameNamed(k.named) {
			x.Fail("many", "the %s, of %d values, changed when others were rendered or spoiled", k.what, n)
		}
		k.spoil(i % 3)
	}
}

// c10Product: every combination of the variants of all the clauses, rendered
// several times.
func c10Product(x *engine.X) {
	h := genStmt(x, &kit.Gen{C: x, Free: true}, "product")
	l := takeBaseline(h.B())
	l.check(x, "product", "rendered again: "+h.M.Key(), h.B())
	s := h.B().Statement()
	for i := 0; i < 2; i++ {
		ctx := &types.StdContext{}
		s.Write(ctx)
		if ctx.Query() != l.q || !l.sameArgs(ctx.Values()) {
			x.Fail("product", "the statement writes %s %s instead of %s %s", ctx.Query(), kit.ShowArgs(ctx.Values()), l.q, kit.ShowArgs(l.args))
		}
	}
	x.State(h.M.Key())
}

func init() {
	register("C10", func() engine.Check {
		return engine.Check{ID: "C10", Scenarios: []engine.Scenario{
			{Name: "histories", Fn: c10Histories(func(x *engine.X) int { return tier(x, 2, 4) }), Quick: 1, Thorough: 1,
				Bounds: fmt.Sprintf("4 kinds x 1 non-default variant x 3 sets of values, and every history of 2 (thorough 4) steps among %d ways of rendering and spoiling what was returned; compared with a twin built alike", c10Steps)},
			{Name: "deep statements", Fn: c10Histories(func(x *engine.X) int { return 1 }), Quick: 2, Thorough: 3,
				Bounds: "4 kinds x 2 (thorough 3) non-default variants x 3 sets of values x every step, rendered again"},
			{Name: "results, five steps", Fn: c10Kept(5, true),
				Bounds: "thorough: as below, 5 steps, the default variant of each kind"},
			{Name: "results", Fn: c10Kept(4, false), Quick: 1, Thorough: 1,
				Bounds: "4 kinds x 1 non-default variant, and every history of 4 steps among rendering it, an unrelated statement or a derived one by Query or NamedQuery, and appending to, overwriting or cutting what an earlier step returned: every other result stays as it was returned"},
			{Name: "product", Fn: c10Product,
				Bounds: "every combination of the variants of all the clauses at once, rendered twice in the three forms and twice from its statement"},
			{Name: "many values", Fn: c10Many,
				Bounds: fmt.Sprintf("11 sizes from 6 to 4097 values in 9 kinds of lists x 2 steps (1 from 1025 values) among %d, then 8 results of 4 statements kept and spoiled in turn", c10Steps)},
			{Name: "shared parts", Fn: c10Parts, Quick: 1, Thorough: 2,
				Bounds: fmt.Sprintf("conditions (%d forms), subqueries, values and actions shared by 5 statements, any 2 rendered in turn, 1 (thorough 2) non-default variants", kit.NConds)},
		}}
	})
}
