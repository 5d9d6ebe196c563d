package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
	"verifmc/sched"
)

// C11: builders are shared by goroutines.
//
// The repository is instrumented with a scheduling point before each of its
// statements and runs under the race detector. Two or three goroutines work on
// the same values; every schedule with at most so many preemptions is executed,
// a goroutine being interrupted at any of its points. Each one must obtain what
// it obtains alone, the shared values must render as before, and the race
// detector must stay silent.

// c11World is a set of shared values.
type c11World struct {
	tag string

	sel, sel2 lkSelect
	ins       lkInsert
	upd, cols lkUpdate
	del       lkDelete

	id    stmt.Identifier
	c1    stmt.Expression
	inf   stmt.InfixExpression
	in    stmt.In
	btw   stmt.Between
	ex    stmt.Exists
	call  stmt.Call
	on    stmt.OnExpression
	onc   stmt.OnClause
	query stmt.Select
	with  stmt.WithQuery
	raw   stmt.Raw
	arr   stmt.Expression

	strs   []string
	colz   []stmt.Column
	exprs  []stmt.SelectExpression
	row    []interface{}
	rows   [][]interface{}
	list   []int
	m      types.Map
	sm     map[string]interface{}
	orders []stmt.Order
	withs  []stmt.WithQuery
	args   []interface{}
	when   time.Time
}

// n makes the names of a text the world's own: what the library remembers about
// the names of another execution is of no use to this one.
func (w *c11World) n(text string) string {
	var b strings.Builder
	in := false
	for i := 0; i <= len(text); i++ {
		word := i < len(text) && (text[i] >= 'a' && text[i] <= 'z' || in && text[i] >= '0' && text[i] <= '9')
		if in && !word {
			b.WriteString(w.tag)
		}
		in = word
		if i < len(text) {
			b.WriteByte(text[i])
		}
	}
	return b.String()
}

// shown takes the world's own names out of a result.
func (w *c11World) shown(text string) string { return strings.ReplaceAll(text, w.tag, "") }

func newC11World(tag string) *c11World {
	w := &c11World{tag: tag}
	w.strs = append(make([]string, 0, 8), w.n("a"), w.n("b"))
	w.colz = append(make([]stmt.Column, 0, 8), lk.Column(w.n("a")), lk.Column(w.n("b")).As(w.n("x")))
	w.exprs = append(make([]stmt.SelectExpression, 0, 8), lk.Column(w.n("a")), lk.Count("*"))
	w.row = append(make([]interface{}, 0, 8), 1, w.n("v"))
	w.rows = append(make([][]interface{}, 0, 8), []interface{}{1, nil}, []interface{}{w.n("x"), 2})
	w.list = append(make([]int, 0, 8), 1, 2)
	w.m = types.Map{w.n("k"): 1, lk.Column(w.n("l")): w.n("v")}
	w.sm = map[string]interface{}{w.n("k"): nil, w.n("m"): 2}
	w.orders = append(make([]stmt.Order, 0, 8), lk.Order(w.n("o1")), lk.Order(w.n("o2"), lk.Desc))
	w.withs = append(make([]stmt.WithQuery, 0, 8), lk.With(w.n("w1"), lk.Raw("SELECT 1")), lk.With(w.n("w2"), lk.Select(w.n("z"))))
	w.args = append(make([]interface{}, 0, 8), w.n("a"), lk.Column(w.n("b")))
	w.when = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

	w.id = lk.Condition(w.n("i"))
	w.c1 = lk.Condition(w.n("c")).Equal(w.n("cv"))
	w.inf = lk.And(w.c1, lk.Condition(w.n("d")).GreaterThan(2))
	w.in = lk.Condition(w.n("e")).In(w.list)
	w.btw = lk.Condition(w.n("f")).Between(1, 9)
	w.call = stmt.NewCall(w.n("fn"), lk.Raw(w.n("x")), lk.Value(3))
	w.raw = lk.Raw(w.n("r > 0"))
	w.onc = lk.On(w.n("a.x"), w.n("b.y"))
	w.on = lk.AndOn(w.onc, lk.On(w.n("a.z"), w.n("b.z")))
	w.arr = stmt.NewArrayExpression(1, w.n("two"), nil)
	w.sel2 = lk.Select(w.n("s")).From(w.n("u")).Where(lk.Condition(w.n("sv")).Equal(w.n("deep")))
	w.query = w.sel2.Statement().(stmt.Select)
	w.ex = lk.Exists(w.sel2)
	w.with = lk.With(w.n("wq"), w.sel2)

	// Three of each: the lists have room for one more.
	w.sel = lk.Select(w.n("a"), lk.Count("*").As(w.n("n"))).From(w.n("t")).
		Join(w.n("j1 ON j1.a = t.a")).Join(w.n("j2"), w.onc).Join(w.n("j3"), w.on, lk.LeftJoin).
		With(lk.With(w.n("v1"), lk.Raw("SELECT 1"))).With(lk.With(w.n("v2"), w.sel2)).With(lk.With(w.n("v3"), lk.Raw("SELECT 3"))).
		Where(w.inf).And(w.in).GroupBy(w.n("g")).Having(lk.Condition(w.n("h")).LessThan(3)).
		OrderBy(lk.Order(w.n("o"))).OrderBy(lk.Order(w.n("p"), lk.Desc)).OrderBy(lk.Order(w.n("q"))).
		Limit(5).Comment(w.n("note"))
	w.ins = lk.Insert(w.n("t")).Columns(w.n("a"), w.n("b")).Values(w.rows).OnConflict(w.n("a"), lk.DoUpdate(lk.Pair(w.n("b"), 3), lk.Pair(w.n("a"), w.n("z")))).Returning(w.n("a"))
	w.upd = lk.Update(w.n("t")).With(w.with).With(lk.With(w.n("u2"), lk.Raw("SELECT 2"))).With(lk.With(w.n("u3"), lk.Raw("SELECT 3"))).
		Set(lk.Pair(w.n("z"), 1), lk.Map{w.n("a"): w.n("x")}, lk.Pair(w.n("m"), nil)).Where(w.c1).Or(w.btw)
	w.cols = lk.Update(w.n("t")).Set(w.n("c, a")).Set(w.n("b")).Using(1, w.n("x"), w.sel2).Where(w.ex)
	w.del = lk.Delete(w.n("t")).Using(w.n("u")).Where(w.c1).Or(w.in).Returning(w.n("a"))
	return w
}

// all renders every shared value.
func (w *c11World) all() string {
	var b strings.Builder
	for _, q := range []builder.Builder{w.sel, w.sel2, w.ins, w.upd, w.cols, w.del} {
		b.WriteString(kit.Render(q).Key())
	}
	for _, c := range []stmt.Expression{w.id, w.c1, w.inf, w.in, w.btw, w.ex, w.call, w.raw, w.arr, w.query} {
		b.WriteString(written(c))
	}
	fmt.Fprintf(&b, "%v %v %v %v %v %v %v %v %v %v", w.strs, w.colz, w.row, w.rows, w.list, len(w.m), len(w.sm), w.orders, len(w.withs), w.args)
	for _, s := range w.strs[:cap(w.strs)] {
		b.WriteString(s + "|")
	}
	fmt.Fprintf(&b, "%v %v %v", w.row[:cap(w.row)], w.orders[:cap(w.orders)], w.args[:cap(w.args)])
	return b.String()
}

func queryText(b builder.Builder) string {
	q, args := b.Query()
	return q + kit.ShowArgs(args)
}

func namedText(b builder.Builder) string {
	q, args := b.NamedQuery()
	return q + kit.ShowArgs(args)
}

type c11Op struct {
	name string
	// group of values it shares: operations of different groups share nothing
	// with each other but what all of them read.
	group string
	f     func(w *c11World) string
	// core: also run with more preemptions and goroutines.
	core bool
}

var c11Ops = func() []c11Op {
	var out []c11Op
	add := func(group, name string, core bool, f func(w *c11World) string) {
		out = append(out, c11Op{name: name, group: group, f: f, core: core})
	}
	// Renderings.
	for _, b := range []struct {
		group string
		get   func(w *c11World) builder.Builder
	}{
		{"select", func(w *c11World) builder.Builder { return w.sel }},
		{"insert", func(w *c11World) builder.Builder { return w.ins }},
		{"update", func(w *c11World) builder.Builder { return w.upd }},
		{"columns", func(w *c11World) builder.Builder { return w.cols }},
		{"delete", func(w *c11World) builder.Builder { return w.del }},
	} {
		b := b
		add(b.group, "Query", true, func(w *c11World) string { return queryText(b.get(w)) })
		add(b.group, "NamedQuery", true, func(w *c11World) string { return namedText(b.get(w)) })
		add(b.group, "String", true, func(w *c11World) string { return b.get(w).String() })
		add(b.group, "Statement", false, func(w *c11World) string {
			ctx := &types.StdContext{}
			b.get(w).Statement().Write(ctx)
			return ctx.Query() + kit.ShowArgs(ctx.Values())
		})
	}
	sel := func(name string, core bool, f func(w *c11World) lkSelect) {
		add("select", name, core, func(w *c11World) string { return queryText(f(w)) })
	}
	sel("OrderBy(1)", true, func(w *c11World) lkSelect { return w.sel.OrderBy(lk.Order(w.n("mine"))) })
	sel("OrderBy(2)", false, func(w *c11World) lkSelect { return w.sel.OrderBy(lk.Column(w.n("his")).Desc(), lk.Order(w.n("her"))) })
	sel("Join(text)", true, func(w *c11World) lkSelect { return w.sel.Join(w.n("j4 ON j4.a = t.b OR j4.c = t.d")) })
	sel("Join(on)", false, func(w *c11World) lkSelect { return w.sel.Join(w.n("j5"), w.on, lk.RightJoin) })
	sel("With", true, func(w *c11World) lkSelect { return w.sel.With(lk.With(w.n("v4"), lk.Raw("SELECT 4"))) })
	sel("With(shared)", false, func(w *c11World) lkSelect { return w.sel.With(w.with) })
	sel("Where", true, func(w *c11World) lkSelect { return w.sel.Where(lk.Condition(w.n("mine")).Equal(1)) })
	sel("And", false, func(w *c11World) lkSelect { return w.sel.And(w.btw) })
	sel("Or", true, func(w *c11World) lkSelect { return w.sel.Or(w.ex) })
	sel("Columns", false, func(w *c11World) lkSelect { return w.sel.Columns(w.n("other"), lk.Max(w.n("n"))) })
	sel("DistinctOn", false, func(w *c11World) lkSelect { return w.sel.DistinctOn(w.n("x"), w.n("y")) })
	sel("tail", false, func(w *c11World) lkSelect {
		return w.sel.Offset(7).Suffix("FOR UPDATE").Prefix("EXPLAIN").Comment(w.n("mine"))
	})
	sel("GroupBy refused", false, func(w *c11World) lkSelect { return w.sel.GroupBy(w.n("again")) })
	add("select", "as EXISTS", true, func(w *c11World) string { return queryText(lk.Delete(w.n("o")).Where(lk.Exists(w.sel))) })
	add("select", "as IN", false, func(w *c11World) string { return queryText(lk.Delete(w.n("o")).Where(w.id.In(w.sel))) })
	add("select", "as WITH", false, func(w *c11World) string { return queryText(lk.Select(w.n("o")).With(lk.With(w.n("x"), w.sel))) })
	add("select", "as cell", false, func(w *c11World) string { return queryText(lk.Insert(w.n("o")).Values(1, w.sel)) })

	upd := func(name string, core bool, f func(w *c11World) lkUpdate) {
		add("update", name, core, func(w *c11World) string { return queryText(f(w)) })
	}
	upd("Set(new)", true, func(w *c11World) lkUpdate { return w.upd.Set(lk.Pair(w.n("new"), 5)) })
	upd("Set(same)", true, func(w *c11World) lkUpdate { return w.upd.Set(lk.Pair(w.n("a"), 6)) })
	upd("Set(map)", true, func(w *c11World) lkUpdate { return w.upd.Set(w.m) })
	upd("Set(columns) refused", false, func(w *c11World) lkUpdate { return w.upd.Set(w.n("a"), w.n("b")) })
	upd("With", true, func(w *c11World) lkUpdate { return w.upd.With(lk.With(w.n("u4"), lk.Raw("SELECT 4"))) })
	upd("Where", false, func(w *c11World) lkUpdate { return w.upd.Where(w.in) })
	upd("Or", false, func(w *c11World) lkUpdate { return w.upd.Or(lk.Condition(w.n("mine")).IsNull(true)) })
	upd("From Returning", false, func(w *c11World) lkUpdate {
		return w.upd.Only().From(w.n("f")).Returning(w.n("a, b")).Comment(w.n("c"))
	})

	col := func(name string, core bool, f func(w *c11World) lkUpdate) {
		add("columns", name, core, func(w *c11World) string { return queryText(f(w)) })
	}
	col("Set", true, func(w *c11World) lkUpdate { return w.cols.Set(w.n("d")) })
	col("Set(2)", false, func(w *c11World) lkUpdate { return w.cols.Set(w.n("d, e")) })
	col("Using", true, func(w *c11World) lkUpdate { return w.cols.Using(4) })
	col("Using(2)", false, func(w *c11World) lkUpdate { return w.cols.Using(lk.Raw("DEFAULT"), 5) })
	col("And", false, func(w *c11World) lkUpdate { return w.cols.And(w.c1) })

	ins := func(name string, core bool, f func(w *c11World) lkInsert) {
		add("insert", name, core, func(w *c11World) string { return queryText(f(w)) })
	}
	bare := func(w *c11World) lkInsert { return lk.Insert(w.n("t")) }
	ins("Comment", true, func(w *c11World) lkInsert { return w.ins.Comment(w.n("mine")) })
	ins("OnConflict refused", false, func(w *c11World) lkInsert { return w.ins.OnConflict(lk.DoNothing()) })
	ins("Values(rows)", true, func(w *c11World) lkInsert { return bare(w).Values(w.rows) })
	ins("Values(row)", false, func(w *c11World) lkInsert { return bare(w).Columns(w.strs).Values(w.row...) })
	ins("Set(map)", true, func(w *c11World) lkInsert { return bare(w).Set(w.m, w.sm) })
	ins("DoUpdate(map)", false, func(w *c11World) lkInsert { return bare(w).Values(1).OnConflict(w.n("a"), lk.DoUpdate(w.sm)) })

	del := func(name string, core bool, f func(w *c11World) lkDelete) {
		add("delete", name, core, func(w *c11World) string { return queryText(f(w)) })
	}
	del("Where", true, func(w *c11World) lkDelete { return w.del.Where(lk.Condition(w.n("mine")).NotEqual(1)) })
	del("And", false, func(w *c11World) lkDelete { return w.del.And(w.inf) })
	del("Or", true, func(w *c11World) lkDelete { return w.del.Or(w.btw) })
	del("Comment", false, func(w *c11World) lkDelete { return w.del.Comment(w.n("mine")) })

	// Conditions and arguments.
	cond := func(name string, core bool, f func(w *c11World) stmt.Expression) {
		add("conditions", name, core, func(w *c11World) string { return queryText(lk.Delete(w.n("t")).Where(f(w))) })
	}
	cond("And", true, func(w *c11World) stmt.Expression { return w.inf.And(w.in) })
	cond("Or", true, func(w *c11World) stmt.Expression { return lk.Or(w.inf, w.btw) })
	cond("Equal", false, func(w *c11World) stmt.Expression { return w.id.Equal(w.sel2) })
	cond("In", true, func(w *c11World) stmt.Expression { return w.id.In(w.list) })
	cond("In(array)", false, func(w *c11World) stmt.Expression { return w.id.In(w.arr) })
	cond("NotIn", false, func(w *c11World) stmt.Expression { return w.id.NotIn(w.row...) })
	cond("Between", false, func(w *c11World) stmt.Expression { return lk.Or(w.btw, w.btw) })
	cond("Exists", true, func(w *c11World) stmt.Expression { return lk.And(w.ex, lk.NotExists(w.query)) })
	cond("Call", false, func(w *c11World) stmt.Expression { return w.call.Equal(w.when) })
	cond("Raw", false, func(w *c11World) stmt.Expression { return lk.Or(w.raw, w.raw) })
	add("conditions", "On", false, func(w *c11World) string {
		return lk.Select(w.n("a")).From(w.n("t")).Join(w.n("u"), w.on.And(w.onc)).String()
	})
	add("conditions", "On Or", false, func(w *c11World) string {
		return lk.Select(w.n("a")).From(w.n("t")).Join(w.n("u"), w.onc.Or(w.on)).String()
	})
	add("conditions", "lists", true, func(w *c11World) string {
		return queryText(lk.Select(w.exprs).From(w.n("t")).GroupBy(w.colz).OrderBy(w.orders...).With(w.withs...))
	})
	add("conditions", "names", false, func(w *c11World) string {
		return queryText(lk.Select(w.strs).From(w.args[0]).DistinctOn(w.args...).GroupBy(w.strs))
	})

	// What shares no value at all.
	add("own", "select", true, func(w *c11World) string {
		return namedText(lk.Select(w.n("a, b"), lk.Count(w.n("c")).Distinct(true)).From(w.n("t")).Join(w.n("u ON a = b")).Where(lk.Condition(w.n("q")).Equal(w.n("v"))).OrderBy(lk.Order(w.n("a"))).Limit("3"))
	})
	add("own", "insert", true, func(w *c11World) string {
		return queryText(lk.Insert(w.n("t")).Set(lk.Pair(w.n("b"), 1), lk.Map{w.n("a"): 2.5}).OnConflict(lk.DoNothing()).Returning(w.n("id")))
	})
	add("own", "update", false, func(w *c11World) string {
		return lk.Update(w.n("t")).Set(lk.Pair(w.n("b"), w.when), lk.Pair(w.n("a"), []byte("x'"))).Where(lk.Condition(w.n("z")).Is(nil)).String()
	})
	add("own", "delete", false, func(w *c11World) string {
		return queryText(lk.Delete(w.n("t")).Where(lk.Condition(w.n("z")).ILike("%x%")))
	})
	add("own", "refused", false, func(w *c11World) string { return queryText(lk.Select(w.n("a")).From(w.n("t")).Limit(-1)) })
	add("own", "ParseJoin", true, func(w *c11World) string {
		j, err := parser.ParseJoin(w.n("LEFT JOIN a ON b.c = d.e AND f = g;"))
		return written(j) + fmt.Sprint(err)
	})
	add("own", "bad join", false, func(w *c11World) string {
		_, err := parser.ParseJoin(w.n("LEFT RIGHT a"))
		return fmt.Sprint(err)
	})
	add("own", "lexer", false, func(w *c11World) string {
		l := lexer.New(io.LimitReader(strings.NewReader(w.n("SELECT a FROM b WHERE c = 1")), 100))
		s := ""
		for i := 0; i < 20; i++ {
			t := l.Next()
			s += fmt.Sprintf("%v:%s ", t.Type, t.Value)
		}
		return s
	})
	add("own", "literals", false, func(w *c11World) string {
		return lk.Insert(w.n("t")).Values(w.n("it's"), 3, 2.5, true, w.when, nil, []byte{0, 200}, uint8(4)).String()
	})
	return out
}()

// c11Alone is what an operation obtains alone and the points it goes through.
type c11Alone struct {
	Results []sched.Result
	Points  int
	Freed   bool
}

var (
	c11Reference = map[string]c11Alone{}
	c11Before    string
	c11Serial    int
)

func c11Tag() string { c11Serial++; return fmt.Sprintf("_%08d", c11Serial) }

func c11Reset(coarse bool) {
	ident := func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		return p
	}
	setOrder(ident)
	sched.Coarse = coarse
}

// c11Of gives what an operation obtains alone.
func c11Of(i int, cold bool) c11Alone {
	key := fmt.Sprint(i, sched.Coarse, cold)
	if a, ok := c11Reference[key]; ok {
		return a
	}
	var a c11Alone
	if cold {
		a = c11Process([]int{i}, []sched.Segment{{Thread: 0}})
	} else {
		w := newC11World(c11Tag())
		// Twice: the first run pays for what the runtime prepares lazily.
		for k := 0; k < 2; k++ {
			r, counts, _ := sched.Run([]sched.Segment{{Thread: 0}}, func() string { return w.shown(c11Ops[i].f(w)) })
			a = c11Alone{Results: r, Points: counts[0]}
		}
	}
	c11Reference[key] = a
	return a
}

// Cold is the body of a process of its own, in which the operations are the
// first use of the library: each goroutine makes its own values.
func Cold(list []int, plan []sched.Segment, coarse bool) c11Alone {
	c11Reset(coarse)
	var fs []func() string
	for t, i := range list {
		t, i := t, i
		fs = append(fs, func() string {
			w := newC11World(fmt.Sprintf("_%08d", t))
			return w.shown(c11Ops[i].f(w))
		})
	}
	results, counts, freed := sched.Run(plan, fs...)
	return c11Alone{results, counts[0], freed}
}

// ColdRequest is what such a process is given.
type ColdRequest struct {
	List   []int
	Plan   []sched.Segment
	Coarse bool
}

func c11Process(list []int, plan []sched.Segment) c11Alone {
	request, _ := json.Marshal(ColdRequest{list, plan, sched.Coarse})
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "cold", string(request))
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	var a c11Alone
	if err == nil {
		err = json.Unmarshal(out.Bytes(), &a)
	}
	if err != nil {
		text := errs.String()
		if len(text) > 4000 {
			text = text[:4000]
		}
		a.Results = make([]sched.Result, len(list))
		for i := range a.Results {
			a.Results[i] = sched.Result{Value: fmt.Sprintf("the process ended with %v\n%s", err, text), Panicked: true}
		}
	}
	return a
}

// schedules picks a schedule of the operations with at most so many
// preemptions.
func schedules(x *engine.X, list []int, preemptions int, cold bool) []sched.Segment {
	var plan []sched.Segment
	used := make([]int, len(list))
	over := make([]bool, len(list))
	others := func(cur int) []int {
		var o []int
		for t := range list {
			if t != cur && !over[t] {
				o = append(o, t)
			}
		}
		return o
	}
	cur := x.Pick(len(list), "first")
	for {
		o := others(cur)
		if len(o) > 0 && preemptions > 0 {
			// A point to be interrupted at; before the first statement would be
			// the same as starting with the other one.
			lo := 1
			if used[cur] > 0 {
				lo = 0
			}
			n := c11Of(list[cur], cold).Points - used[cur] - lo
			if n > 0 {
				if k := x.Pick(n+1, "interrupted at"); k > 0 {
					preemptions--
					plan = append(plan, sched.Segment{Thread: cur, Points: k + lo})
					used[cur] += k + lo
					cur = o[x.Pick(len(o), "by")]
					continue
				}
			}
		}
		plan = append(plan, sched.Segment{Thread: cur})
		over[cur] = true
		if len(o) == 0 {
			return plan
		}
		cur = o[x.Pick(len(o), "then")]
	}
}

func c11Name(list []int) string {
	name := ""
	for _, i := range list {
		name += fmt.Sprintf("%s %s; ", c11Ops[i].group, c11Ops[i].name)
	}
	return name
}

// c11Run executes the operations along a schedule and judges.
func c11Run(x *engine.X, list []int, plan []sched.Segment) {
	if c11Before == "" {
		w := newC11World(c11Tag())
		c11Before = w.shown(w.all())
	}
	w := newC11World(c11Tag())
	var fs []func() string
	for _, i := range list {
		i := i
		fs = append(fs, func() string { return w.shown(c11Ops[i].f(w)) })
	}
	name := c11Name(list)
	x.Op("%s%v", name, plan)
	results, _, freed := sched.Run(plan, fs...)
	c11Judge(x, list, plan, results, freed, false)
	if after := w.shown(w.all()); after != c11Before {
		x.Fail("shared", "the shared values changed: %s along %v\n  %q\n  instead of %q", name, plan, after, c11Before)
	}
}

func c11Judge(x *engine.X, list []int, plan []sched.Segment, results []sched.Result, freed, cold bool) {
	name := c11Name(list)
	x.Checked()
	for t, i := range list {
		want := c11Of(i, cold).Results[0]
		if results[t] != want {
			x.Fail("result", "goroutine %d of %s along %v obtained\n  %v\n  instead of %v", t, name, plan, results[t], want)
		}
	}
	if freed {
		x.Logf("the goroutines blocked each other and ran freely")
	}
	x.State(fmt.Sprint(name, plan, cold))
}

func c11Indices(keep func(o c11Op) bool) []int {
	var out []int
	for i, o := range c11Ops {
		if keep(o) {
			out = append(out, i)
		}
	}
	return out
}

var c11Groups = []string{"select", "insert", "update", "columns", "delete", "conditions", "own"}

// c11Pairs: two operations of a group.
func c11Pairs(coarse, core bool, preemptions int) func(x *engine.X) {
	return func(x *engine.X) {
		c11Reset(coarse)
		g := c11Groups[x.Pick(len(c11Groups), "group")]
		idx := c11Indices(func(o c11Op) bool { return o.group == g && (o.core || !core) })
		i := x.Pick(len(idx), "operation")
		j := i + x.Pick(len(idx)-i, "operation")
		list := []int{idx[i], idx[j]}
		c11Run(x, list, schedules(x, list, preemptions, false))
	}
}

// c11Any: two operations whatever their groups.
func c11Any(x *engine.X) {
	c11Reset(true)
	i := x.Pick(len(c11Ops), "operation")
	j := i + x.Pick(len(c11Ops)-i, "operation")
	list := []int{i, j}
	c11Run(x, list, schedules(x, list, 2, false))
}

// c11Three: three operations of a group.
func c11Three(x *engine.X) {
	c11Reset(true)
	g := c11Groups[x.Pick(len(c11Groups), "group")]
	idx := c11Indices(func(o c11Op) bool { return o.group == g && (o.core || x.Thorough) })
	i := x.Pick(len(idx), "operation")
	j := i + x.Pick(len(idx)-i, "operation")
	k := j + x.Pick(len(idx)-j, "operation")
	list := []int{idx[i], idx[j], idx[k]}
	c11Run(x, list, schedules(x, list, tier(x, 1, 2), false))
}

// c11Cold: two operations that are the first use of the library.
func c11Cold(x *engine.X) {
	c11Reset(true)
	i := x.Pick(len(c11Ops), "operation")
	var j int
	if x.Thorough {
		j = i + x.Pick(len(c11Ops)-i, "operation")
	} else {
		partners := append([]int{i}, c11Indices(func(o c11Op) bool {
			return o.group == "select" && (o.name == "Query" || o.name == "NamedQuery" || o.name == "String") || o.group == "own" && o.core
		})...)
		j = partners[x.Pick(len(partners), "operation")]
	}
	list := []int{i, j}
	plan := schedules(x, list, 1, true)
	x.Op("%s%v", c11Name(list), plan)
	a := c11Process(list, plan)
	c11Judge(x, list, plan, a.Results, a.Freed, true)
}

func init() {
	register("C11", func() engine.Check {
		return engine.Check{ID: "C11", NeedsHooks: true, WorkerEnv: []string{"GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 history_size=2 atexit_sleep_ms=0"},
			Scenarios: []engine.Scenario{
				{Name: "any two", Fn: c11Any,
					Bounds: fmt.Sprintf("%d operations in 7 groups (renderings, extensions, embeddings, refused calls), every pair, every order, two preemptions before any statement that may synchronise; data races are reported whatever the schedule", len(c11Ops))},
				{Name: "first use", Fn: c11Cold,
					Bounds: "every operation with itself, with the renderings of a select and with 3 operations of their own (thorough: with every other), each in a process of its own where they are the first use of the library, every order, one preemption before any statement that may synchronise"},
				{Name: "three", Fn: c11Three,
					Bounds: "every triple of core operations of a group (thorough: of all operations), every order, one preemption (thorough: 2) before any statement that may synchronise"},
				{Name: "every statement", Fn: c11Pairs(false, true, 1),
					Bounds: "every pair of core operations of a group, every interleaving with one preemption before any statement of the library"},
				{Name: "every statement, all", Fn: c11Pairs(false, false, 1), ThoroughOnly: true,
					Bounds: "every pair of operations of a group, every interleaving with one preemption before any statement of the library"},
			}}
	})
}
