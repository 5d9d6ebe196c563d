package checks

import (
	"fmt"
	"reflect"
	"sort"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"

	"verifmc/engine"
	"verifmc/kit"
)

// A taken is a list or a map given to the library and what was built with it.
type taken struct {
	// render shows what was built.
	render func() string
	// mutations of the argument by its owner.
	mutations int
	mutate    func(i int)
	// intact reports how the argument (spare capacity included) differs from
	// what the caller last wrote in it.
	intact func() error
	// derive extends what was built and renders the extension (nil: it cannot
	// be extended).
	derive func() string
}

// taker is a function that takes a list or a map.
type taker struct {
	name string
	// make builds with n items of a style, in a slice with spare room for more.
	make func(n, spare, style int) taken
	// maps have no spare room.
	isMap bool
	least int
}

func shown(b builder.Builder) string {
	q, args := b.Query()
	return fmt.Sprintf("%s %#v %s", q, args, b.String())
}

func written(s stmt.Statement) string {
	ctx := &types.StdContext{}
	s.Write(ctx)
	return fmt.Sprintf("%s %#v", ctx.Query(), ctx.Values())
}

// built is the outcome of a use.
type built struct{ render, derive func() string }

func ofSelect(b lkSelect) built {
	return built{func() string { return shown(b) }, func() string {
		return shown(b.OrderBy(lk.Order("zz")).With(lk.With("zw", lk.Raw("SELECT 9"))).Where(lk.Condition("zc").Equal(9)).Join("zj ON zj.a = t.a").Limit(99))
	}}
}

func ofInsert(b lkInsert) built {
	return built{func() string { return shown(b) }, func() string { return shown(b.Comment("derived")) }}
}

func ofUpdate(b lkUpdate) built {
	return built{func() string { return shown(b) }, func() string {
		return shown(b.With(lk.With("zw", lk.Raw("SELECT 9"))).Where(lk.Condition("zc").Equal(9)))
	}}
}

// ofPairs can be extended with assignments, or columns.
func ofPairs(b lkUpdate, more ...interface{}) built {
	return built{func() string { return shown(b) }, func() string { return shown(b.Set(more...)) }}
}

func ofDelete(b lkDelete) built {
	return built{func() string { return shown(b) }, func() string { return shown(b.Where(lk.Condition("zc").Equal(9))) }}
}

func ofExpr(e stmt.Expression) built {
	return built{func() string { return written(e) }, func() string { return shown(lk.Select("a").Where(lk.And(e, e))) }}
}

func ofStmt(s stmt.Statement) built { return built{func() string { return written(s) }, nil} }

func listTaker[T any](name string, item func(i int) T, use func(l []T) built) taker {
	return taker{name: name, make: func(n, spare, style int) taken {
		item := func(i int) T { return item(i + style*styleBase) }
		full := make([]T, n+spare)
		for i := range full {
			full[i] = item(i)
		}
		copyOf := append([]T(nil), full...)
		b := use(full[:n])
		return taken{
			render: b.render, derive: b.derive, mutations: n + 1,
			mutate: func(i int) {
				if i == n { // everything, the spare room included
					for j := range full {
						full[j] = item(50 + j)
					}
				} else {
					full[i] = item(40 + i)
				}
				copy(copyOf, full)
			},
			intact: func() error {
				if !reflect.DeepEqual(full, copyOf) {
					return fmt.Errorf("the argument became %#v instead of %#v", full, copyOf)
				}
				return nil
			},
		}
	}}
}

// rowsTaker takes a list of rows.
func rowsTaker[T any](name string, item func(i int) T, use func(l [][]T) built) taker {
	return taker{name: name, make: func(n, spare, style int) taken {
		item := func(i int) T { return item(i + style*styleBase) }
		gen := func(base int) [][]T {
			l := make([][]T, n+spare)
			for i := range l {
				l[i] = make([]T, 2, 2+spare)
				for j := range l[i][:2+spare] {
					l[i][:2+spare][j] = item(base + 10*i + j)
				}
			}
			return l
		}
		full := gen(0)
		snap := func() string {
			s := ""
			for _, r := range full {
				s += fmt.Sprintf("%#v ", r[:cap(r)])
			}
			return s
		}
		b := use(full[:n])
		last := fmt.Sprint()
		last = func() string { // what the caller wrote
			s := ""
			for _, r := range gen(0) {
				s += fmt.Sprintf("%#v ", r[:cap(r)])
			}
			return s
		}()
		return taken{
			render: b.render, derive: b.derive, mutations: 2*n + 1,
			mutate: func(i int) {
				switch {
				case i == 2*n:
					for r := range full {
						for j := range full[r][:cap(full[r])] {
							full[r][:cap(full[r])][j] = item(60 + j)
						}
						full[r] = full[r][:1]
					}
				case i < n: // a cell
					full[i][(i%2)%len(full[i])] = item(40 + i)
				default: // a row
					full[i-n] = []T{item(70)}
				}
				last = snap()
			},
			intact: func() error {
				if s := snap(); s != last {
					return fmt.Errorf("the argument became %s instead of %s", s, last)
				}
				return nil
			},
		}
	}}
}

// mapTaker takes one of the two types of maps.
func mapTaker[K comparable](name string, key func(i int) K, use func(m map[K]interface{}) built) taker {
	return taker{name: name, isMap: true, make: func(n, _, style int) taken {
		key := func(i int) K { return key(i + style*styleBase) }
		m, copyOf := map[K]interface{}{}, map[K]interface{}{}
		for i := 0; i < n; i++ {
			m[key(i)], copyOf[key(i)] = i, i
		}
		b := use(m)
		return taken{
			render: b.render, derive: b.derive, mutations: 2*n + 1,
			mutate: func(i int) {
				switch {
				case i < n:
					m[key(i)] = "changed"
				case i < 2*n:
					delete(m, key(i-n))
				default:
					m[key(99)] = 3
				}
				copyOf = map[K]interface{}{}
				for k, v := range m {
					copyOf[k] = v
				}
			},
			intact: func() error {
				if !reflect.DeepEqual(m, copyOf) {
					return fmt.Errorf("the argument became %#v instead of %#v", m, copyOf)
				}
				return nil
			},
		}
	}}
}

// items of lists.

// styleBase separates the styles of the items: an item of index i in style s
// has the index i + s*styleBase.
const styleBase = 100000

// Styles of the names.
const (
	stylePlain = iota
	styleBlanks
	styleDescending
	styleTwins
	styleCase
	styleDotted
	styleSpecial
	nStyles
)

var styleNames = [nStyles]string{"plain", "with blanks", "descending", "in equal pairs", "in mixed case", "dotted", "special"}

func nameItem(i int) string {
	style := i / styleBase
	i %= styleBase
	switch style {
	case styleBlanks:
		return fmt.Sprintf([]string{" n%d", "n%d ", "\tn%d\n"}[i%3], i)
	case styleDescending:
		return fmt.Sprintf("n%d", styleBase-1-i)
	case styleTwins:
		return fmt.Sprintf("n%d", i/2)
	case styleCase:
		return fmt.Sprintf([]string{"N%d", "Nn%d", "nN%d"}[i%3], i)
	case styleDotted:
		return fmt.Sprintf([]string{"s.n%d", "s.T.n%d", "n%d.a"}[i%3], i)
	case styleSpecial:
		return fmt.Sprintf([]string{"é%d'", "n%d:x", "n%d\\-"}[i%3], i)
	}
	return fmt.Sprintf("n%d", i)
}
func anyName(i int) interface{}     { return nameItem(i) }
func columnItem(i int) stmt.Column  { return lk.Column(nameItem(i)).As(fmt.Sprintf("a%d", i)) }
func plainColumn(i int) stmt.Column { return lk.Column(nameItem(i)) }
func anyColumn(i int) interface{}   { return plainColumn(i) }
func anyTable(i int) interface{}    { return lk.Table(nameItem(i)).As(fmt.Sprintf("a%d", i)) }
func tableItem(i int) stmt.Table    { return lk.Table(nameItem(i)) }
func statementItem(i int) stmt.Statement {
	if i%2 == 1 {
		return lk.Raw(nameItem(i))
	}
	return lk.Table(nameItem(i))
}
func exprItem(i int) stmt.SelectExpression {
	if i%2 == 1 {
		return lk.Max(nameItem(i)).As("m")
	}
	return lk.Column(nameItem(i))
}
func anyExpr(i int) interface{} { return exprItem(i) }
func valueExpr(i int) stmt.Expression {
	if i%3 == 1 {
		return lk.Raw(nameItem(i))
	}
	return lk.Value(i)
}
func anyValue(i int) interface{} {
	switch i % 4 {
	case 1:
		return "v" + nameItem(i)
	case 2:
		return lk.Raw(nameItem(i))
	case 3:
		return nil
	}
	return i
}
func orderItem(i int) stmt.Order {
	return lk.Order(nameItem(i), []types.OrderType{lk.Asc, lk.Desc}[i%2])
}
func withItem(i int) stmt.WithQuery { return lk.With(nameItem(i), lk.Select("i").Limit(i%styleBase+1)) }
func pairItem(i int) interface{}    { return lk.Pair(nameItem(i), anyValue(i)) }

// inList gives the takers of a typed list of values: IN, VALUES, arrays.
func inList[T any](out *[]taker, item func(i int) T) {
	var zero []T
	t := fmt.Sprintf("%T", zero)
	id := lk.Condition("c")
	add := func(tk taker) { *out = append(*out, tk) }
	add(listTaker("In("+t+")", item, func(l []T) built { return ofExpr(id.In(l)) }))
	add(listTaker("NotIn("+t+")", item, func(l []T) built { return ofExpr(id.NotIn(l).And(id.Equal(1))) }))
	add(listTaker("Call.In("+t+")", item, func(l []T) built { return ofExpr(stmt.NewCall("f", lk.Raw("x")).In(l)) }))
	add(listTaker("NewArrayExpression("+t+")", item, func(l []T) built { return ofExpr(stmt.NewArrayExpression(l)) }))
	add(listTaker("Values("+t+")", item, func(l []T) built { return ofInsert(lk.Insert("t").Values(l)) }))
}

func rowLists[T any](out *[]taker, item func(i int) T) {
	var zero [][]T
	t := fmt.Sprintf("%T", zero)
	*out = append(*out, rowsTaker("Values("+t+")", item, func(l [][]T) built { return ofInsert(lk.Insert("t").Columns("a", "b").Values(l)) }),
		rowsTaker("NewArrayListExpression("+t+")", item, func(l [][]T) built { return ofExpr(stmt.NewArrayListExpression(l)) }))
}

func takers() []taker {
	var out []taker
	add := func(t taker) { out = append(out, t) }
	insert, update, del := lk.Insert("t"), lk.Update("t").Set(lk.Pair("k", 0)), lk.Delete("t")
	id := lk.Condition("c")
	// Lists of columns.
	lists := []struct {
		name string
		use  func(l []interface{}) built
	}{
		{"Select", func(l []interface{}) built { return ofSelect(lk.Select(l...)) }},
		{"Columns", func(l []interface{}) built { return ofSelect(lk.Select("z").Columns(l...)) }},
		{"DistinctOn", func(l []interface{}) built { return ofSelect(lk.Select("z").DistinctOn(l...)) }},
		{"GroupBy", func(l []interface{}) built { return ofSelect(lk.Select("z").GroupBy(l...)) }},
		{"Insert.Columns", func(l []interface{}) built { return ofInsert(insert.Columns(l...)) }},
		{"Insert.Returning", func(l []interface{}) built { return ofInsert(insert.Returning(l...)) }},
		{"Update.Returning", func(l []interface{}) built { return ofUpdate(update.Returning(l...)) }},
		{"Delete.Returning", func(l []interface{}) built { return ofDelete(del.Returning(l...)) }},
		{"Update.Set", func(l []interface{}) built { return ofPairs(lk.Update("t").Set(l...).Using(1), "zz") }},
		{"OnConflict", func(l []interface{}) built {
			return ofInsert(insert.Values(1).OnConflict(append(l, lk.DoNothing())...))
		}},
		{"ToColumns", func(l []interface{}) built {
			cs := builder.ToColumns(l)
			return ofStmt(stmt.NewGroupBy(cs))
		}},
		{"ToSelectExpressions", func(l []interface{}) built { return ofStmt(stmt.NewReturning(builder.ToSelectExpressions(l))) }},
	}
	for _, p := range lists {
		p := p
		if p.name != "OnConflict" { // append(l) is the caller's own doing
			add(listTaker(p.name+"(names...)", anyName, p.use))
			add(listTaker(p.name+"(columns...)", anyColumn, p.use))
		}
		if p.name != "Update.Set" && p.name != "OnConflict" {
			add(listTaker(p.name+"([]string)", nameItem, func(l []string) built { return p.use([]interface{}{l}) }))
			add(listTaker(p.name+"([]Column)", columnItem, func(l []stmt.Column) built { return p.use([]interface{}{l}) }))
		}
		switch p.name {
		case "Select", "Columns", "Insert.Returning", "Update.Returning", "Delete.Returning", "ToSelectExpressions":
			add(listTaker(p.name+"([]SelectExpression)", exprItem, func(l []stmt.SelectExpression) built { return p.use([]interface{}{l}) }))
			add(listTaker(p.name+"(expressions...)", anyExpr, p.use))
		}
	}
	conflict := listTaker("OnConflict(targets..., action)", func(i int) interface{} { return anyName(i) }, nil)
	conflict.make = func(n, spare, style int) taken {
		item := func(i int) interface{} {
			if i%styleBase == n {
				return lk.DoNothing()
			}
			return anyName(i)
		}
		return listTaker("", item, func(l []interface{}) built { return ofInsert(insert.Values(1).OnConflict(l...)) }).make(n+1, spare, style)
	}
	add(conflict)
	// Lists of tables.
	add(listTaker("From(tables...)", anyTable, func(l []interface{}) built { return ofSelect(lk.Select("z").From(l...)) }))
	add(listTaker("From(names...)", anyName, func(l []interface{}) built { return ofSelect(lk.Select("z").From(l...)) }))
	add(listTaker("Delete.From(tables...)", anyTable, func(l []interface{}) built { return ofDelete(builder.NewDelete().From(l...)) }))
	add(listTaker("Delete.Using(tables...)", anyTable, func(l []interface{}) built { return ofDelete(del.Using(l...)) }))
	add(listTaker("From(NewFrom)", statementItem, func(l []stmt.Statement) built { return ofSelect(lk.Select("z").From(stmt.NewFrom(l))) }))
	add(listTaker("From(From)", statementItem, func(l []stmt.Statement) built { return ofSelect(lk.Select("z").From(stmt.From{Tables: l})) }))
	add(listTaker("From(name, From)", statementItem, func(l []stmt.Statement) built { return ofSelect(lk.Select("z").From("t", stmt.From{Tables: l})) }))
	add(listTaker("Update.From(From)", statementItem, func(l []stmt.Statement) built { return ofUpdate(update.From(stmt.From{Tables: l})) }))
	add(listTaker("Delete(From)", statementItem, func(l []stmt.Statement) built { return ofDelete(lk.Delete(stmt.From{Tables: l})) }))
	add(listTaker("NewFrom", statementItem, func(l []stmt.Statement) built { return ofStmt(stmt.NewFrom(l)) }))
	add(listTaker("NewUsing", tableItem, func(l []stmt.Table) built { return ofStmt(stmt.NewUsing(l)) }))
	add(listTaker("ToFrom", anyName, func(l []interface{}) built { return ofStmt(builder.ToFrom(l...)) }))
	add(listTaker("ToTables", anyTable, func(l []interface{}) built { return ofStmt(stmt.NewUsing(builder.ToTables(l))) }))
	// Lists of other clauses.
	add(listTaker("OrderBy", orderItem, func(l []stmt.Order) built { return ofSelect(lk.Select("z").OrderBy(l...)) }))
	add(listTaker("second OrderBy", orderItem, func(l []stmt.Order) built { return ofSelect(lk.Select("z").OrderBy(lk.Order("y")).OrderBy(l...)) }))
	add(listTaker("NewOrderBy", orderItem, func(l []stmt.Order) built { return ofStmt(stmt.NewOrderBy(l)) }))
	add(listTaker("With", withItem, func(l []stmt.WithQuery) built { return ofSelect(lk.Select("z").With(l...)) }))
	add(listTaker("second With", withItem, func(l []stmt.WithQuery) built {
		return ofSelect(lk.Select("z").With(lk.With("y", lk.Raw("SELECT 1"))).With(l...))
	}))
	add(listTaker("Update.With", withItem, func(l []stmt.WithQuery) built { return ofUpdate(update.With(l...)) }))
	add(listTaker("second Update.With", withItem, func(l []stmt.WithQuery) built {
		return ofUpdate(update.With(lk.With("y", lk.Raw("SELECT 1"))).With(l...))
	}))
	add(listTaker("NewWith", withItem, func(l []stmt.WithQuery) built { return ofStmt(stmt.NewWith(l)) }))
	add(listTaker("NewGroupBy", plainColumn, func(l []stmt.Column) built { return ofStmt(stmt.NewGroupBy(l)) }))
	add(listTaker("NewDistinctOn", plainColumn, func(l []stmt.Column) built { return ofStmt(stmt.NewDistinctOn(l)) }))
	add(listTaker("NewReturning", exprItem, func(l []stmt.SelectExpression) built { return ofStmt(stmt.NewReturning(l)) }))
	add(listTaker("NewConflictTarget", plainColumn, func(l []stmt.Column) built { return ofStmt(stmt.NewConflictTarget(l)) }))
	add(listTaker("NewCall", valueExpr, func(l []stmt.Expression) built { return ofExpr(stmt.NewCall("f", l...)) }))
	add(listTaker("NewCall.Equal", valueExpr, func(l []stmt.Expression) built { return ofExpr(stmt.NewCall("f", l...).Equal(stmt.NewCall("g", l...))) }))
	// Values.
	add(listTaker("In(values...)", anyValue, func(l []interface{}) built { return ofExpr(id.In(l...)) }))
	add(listTaker("NewArrayExpression(values...)", anyValue, func(l []interface{}) built { return ofExpr(stmt.NewArrayExpression(l...)) }))
	add(listTaker("NewArrayListExpression(values...)", anyValue, func(l []interface{}) built { return ofExpr(stmt.NewArrayListExpression(l...)) }))
	add(listTaker("Values(values...)", anyValue, func(l []interface{}) built { return ofInsert(insert.Values(l...)) }))
	add(listTaker("Using(values...)", anyValue, func(l []interface{}) built {
		b := lk.Update("t").Set("a", "b").Using(l...)
		return built{func() string { return shown(b) }, func() string { return shown(b.Using("zz")) }}
	}))
	add(listTaker("second Using(values...)", anyValue, func(l []interface{}) built {
		b := lk.Update("t").Set("a", "b").Using(7).Using(l...)
		return built{func() string { return shown(b) }, func() string { return shown(b.Using("zz")) }}
	}))
	inList(&out, anyValue)
	inList(&out, valueExpr)
	inList(&out, nameItem)
	inList(&out, func(i int) int { return i })
	inList(&out, func(i int) int16 { return int16(i) })
	inList(&out, func(i int) int32 { return int32(i) })
	inList(&out, func(i int) int64 { return int64(i) })
	inList(&out, func(i int) uint { return uint(i) })
	inList(&out, func(i int) uint16 { return uint16(i) })
	inList(&out, func(i int) uint32 { return uint32(i) })
	inList(&out, func(i int) uint64 { return uint64(i) })
	inList(&out, func(i int) int8 { return int8(i) })
	inList(&out, func(i int) bool { return i%styleBase < 10 })
	inList(&out, func(i int) float32 { return float32(i) })
	inList(&out, func(i int) float64 { return float64(i) })
	inList(&out, func(i int) []byte { return []byte{byte(i)} })
	rowLists(&out, anyValue)
	rowLists(&out, valueExpr)
	rowLists(&out, nameItem)
	rowLists(&out, func(i int) int { return i })
	rowLists(&out, func(i int) int64 { return int64(i) })
	rowLists(&out, func(i int) bool { return i%styleBase < 10 })
	// Assignments.
	add(listTaker("Set(pairs...)", pairItem, func(l []interface{}) built {
		return ofPairs(lk.Update("t").Set(l...), lk.Pair("zz", 1), lk.Pair("n0", 1))
	}))
	add(listTaker("second Set(pairs...)", pairItem, func(l []interface{}) built { return ofPairs(update.Set(l...), lk.Pair("n1", 1)) }))
	add(listTaker("Insert.Set(pairs...)", pairItem, func(l []interface{}) built { return ofInsert(insert.Set(l...)) }))
	add(listTaker("DoUpdate(pairs...)", pairItem, func(l []interface{}) built {
		return ofInsert(insert.Values(1).OnConflict("k", lk.DoUpdate(l...)))
	}))
	add(listTaker("DoUpdate", pairItem, func(l []interface{}) built { return ofStmt(lk.DoUpdate(l...)) }))
	add(listTaker("ToSet", pairItem, func(l []interface{}) built { return ofStmt(builder.ToSet(l)) }))
	anyKey := func(i int) interface{} {
		if i%2 == 1 {
			return lk.Column(nameItem(i))
		}
		return nameItem(i)
	}
	more := []interface{}{lk.Pair("zz", 1), lk.Pair("n0", 1), lk.Map{"n1": 7, "n99": 8}}
	mapUses := []struct {
		name string
		use  func(m interface{}) built
	}{
		{"Set", func(m interface{}) built { return ofPairs(lk.Update("t").Set(m), more...) }},
		{"second Set", func(m interface{}) built { return ofPairs(update.Set(m), more...) }},
		{"Set(pair, map, map)", func(m interface{}) built { return ofPairs(lk.Update("t").Set(lk.Pair("n0", "x"), m, m), more...) }},
		{"Insert.Set", func(m interface{}) built { return ofInsert(insert.Set(m)) }},
		{"OnConflict(DoUpdate)", func(m interface{}) built { return ofInsert(insert.Values(1).OnConflict("k", lk.DoUpdate(m))) }},
		{"DoUpdate", func(m interface{}) built { return ofStmt(lk.DoUpdate(m)) }},
		{"ToSet", func(m interface{}) built { return ofStmt(builder.ToSet([]interface{}{m})) }},
	}
	for _, u := range mapUses {
		u := u
		add(mapTaker(u.name+" of a map", nameItem, func(m map[string]interface{}) built { return u.use(m) }))
		add(mapTaker(u.name+" of a Map", anyKey, func(m map[interface{}]interface{}) built { return u.use(lk.Map(m)) }))
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

var allTakers []taker

// c24Lists: an argument modified at any moment.
func c24Lists(x *engine.X) {
	t := allTakers[x.Pick(len(allTakers), "function")]
	n := 1 + x.Pick(tier(x, 3, 5), "items")
	spare := 0
	if !t.isMap {
		spare = 2 * x.Pick(2, "spare room")
	}
	moment := x.Pick(4, "moment")
	var a taken
	style := x.Choose(nStyles, "names")
	if t.isMap && style == styleTwins {
		x.Skip()
	}
	what := fmt.Sprintf("%s with %d items, %s", t.name, n, styleNames[style])
	must(x, "lists", what, func() { a = t.make(n, spare, style) })
	first := x.Pick(a.mutations, "modification")
	second := x.Choose(a.mutations+1, "second modification") - 1
	x.Op("%s", what)
	intact := func(when string) {
		x.Checked()
		if err := a.intact(); err != nil {
			x.Fail("lists", "%s: %v by the library, %s", what, err, when)
		}
	}
	modify := func() {
		intact("before its modification")
		x.Op("argument modified (%d, %d)", first, second)
		a.mutate(first)
		if second >= 0 {
			a.mutate(second)
		}
	}
	// The twin gets an argument that nobody modifies.
	var twin taken
	must(x, "lists", what, func() { twin = t.make(n, spare, style) })
	compare := func(when string) {
		x.Checked()
		must(x, "lists", what, func() {
			if got, want := a.render(), twin.render(); got != want {
				x.Fail("lists", "%s, %s:\n  %s\nwith an argument left alone:\n  %s", what, when, got, want)
			}
			if a.derive != nil && moment != 3 {
				if got, want := a.derive(), twin.derive(); got != want {
					x.Fail("lists", "%s, extended, %s:\n  %s\nwith an argument left alone:\n  %s", what, when, got, want)
				}
			}
		})
		intact(when)
	}
	switch moment {
	case 0: // before any rendering
		modify()
		compare("modified before the rendering")
	case 1: // between renderings
		compare("before the modification")
		modify()
		compare("modified between renderings")
	case 2: // after the extension
		must(x, "lists", what, func() {
			if a.derive != nil {
				a.derive()
			}
		})
		intact("by an extension")
		modify()
		compare("modified after an extension")
	case 3: // only rendered
		must(x, "lists", what, func() { a.render() })
		modify()
		compare("modified after the rendering")
	}
	x.State(what, fmt.Sprint(spare, moment, first, second))
}

// c24Long: longer lists, one element at the start, in the middle or at the end
// modified.
func c24Long(x *engine.X) {
	sizes := []int{6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1001}
	t := allTakers[x.Pick(len(allTakers), "function")]
	n := sizes[x.Pick(len(sizes), "items")]
	spare := 0
	if !t.isMap {
		spare = 3 * x.Pick(2, "spare room")
	}
	var a, twin taken
	style := x.Choose(nStyles, "names")
	if t.isMap && style == styleTwins {
		x.Skip()
	}
	what := fmt.Sprintf("%s with %d items, %s", t.name, n, styleNames[style])
	must(x, "long", what, func() { a, twin = t.make(n, spare, style), t.make(n, spare, style) })
	which := []int{0, n / 2, n - 1, a.mutations - 1, a.mutations - 2}[x.Pick(5, "modification")]
	moment := x.Pick(2, "moment")
	x.Op("%s, modification %d, rendered before: %v", what, which, moment == 1)
	x.Checked()
	must(x, "long", what, func() {
		if moment == 1 {
			a.render()
			if a.derive != nil {
				a.derive()
			}
			if err := a.intact(); err != nil {
				x.Fail("long", "%s: %v by the library", what, err)
			}
		}
		a.mutate(which)
		if got, want := a.render(), twin.render(); got != want {
			x.Fail("long", "%s, argument modified:\n  %s\nleft alone:\n  %s", what, got, want)
		}
		if a.derive != nil && moment == 0 {
			if got, want := a.derive(), twin.derive(); got != want {
				x.Fail("long", "%s, argument modified, extended:\n  %s\nleft alone:\n  %s", what, got, want)
			}
		}
	})
	x.Checked()
	if err := a.intact(); err != nil {
		x.Fail("long", "%s: %v by the library", what, err)
	}
	x.State(what, fmt.Sprint(spare, moment, which))
}

// buffers are slices that a caller uses again and again.
type buffers struct {
	orders []stmt.Order
	withs  []stmt.WithQuery
	anys   []interface{}
	names  []string
	cols   []stmt.Column
	exprs  []stmt.SelectExpression
	tables []stmt.Statement
	values []stmt.Expression
	m      map[string]interface{}
}

func (b *buffers) scramble(k int) {
	for i := range b.orders {
		b.orders[i] = orderItem(100 + k + i)
		b.withs[i] = withItem(100 + k + i)
		b.anys[i] = anyName(100 + k + i)
		b.names[i] = nameItem(100 + k + i)
		b.cols[i] = plainColumn(100 + k + i)
		b.exprs[i] = exprItem(100 + k + i)
		b.tables[i] = tableItem(100 + k + i)
		b.values[i] = valueExpr(100 + k + i)
	}
	for k := range b.m {
		delete(b.m, k)
	}
	b.m["scrambled"] = k
}

func newBuffers() *buffers {
	const c = 5
	b := &buffers{make([]stmt.Order, c), make([]stmt.WithQuery, c), make([]interface{}, c), make([]string, c), make([]stmt.Column, c),
		make([]stmt.SelectExpression, c), make([]stmt.Statement, c), make([]stmt.Expression, c), map[string]interface{}{}}
	b.scramble(0)
	return b
}

type bufOp struct {
	name string
	// lists of n items, at the beginning of the buffers.
	real func(h *kit.H, b *buffers, n int)
	// fill writes the items i.. of the buffers.
	fill func(b *buffers, k, n int)
	mod  func(m kit.Model, k, n int) (kit.Model, bool)
}

func orderToks(k, n int) (out [][]kit.Tok) {
	for i := 0; i < n; i++ {
		o := orderItem(k + i)
		out = append(out, kit.R(o.Expression+" "+o.Type.String()))
	}
	return
}

func withToks(k, n int) (out [][]kit.Tok) {
	for i := 0; i < n; i++ {
		out = append(out, kit.Cat(kit.R(nameItem(k+i)+" AS"), kit.Paren(kit.R("SELECT"), kit.I("i"), kit.R(fmt.Sprint("LIMIT ", k+i+1)))))
	}
	return
}

func nameToks(k, n int) []kit.Tok {
	var out [][]kit.Tok
	for i := 0; i < n; i++ {
		out = append(out, kit.I(nameItem(k+i)))
	}
	return kit.List(out...)
}

func bufOps(kind int) []bufOp {
	once := func(field func(m *kit.Model) *[]kit.Tok, t func(k, n int) []kit.Tok) func(m kit.Model, k, n int) (kit.Model, bool) {
		return func(m kit.Model, k, n int) (kit.Model, bool) {
			f := field(&m)
			if *f != nil {
				return m, false
			}
			*f = t(k, n)
			return m, true
		}
	}
	anys := func(b *buffers, k, n int) {
		for i := 0; i < n; i++ {
			b.anys[i] = anyName(k + i)
		}
	}
	withs := func(b *buffers, k, n int) {
		for i := 0; i < n; i++ {
			b.withs[i] = withItem(k + i)
		}
	}
	withMod := func(m kit.Model, k, n int) (kit.Model, bool) {
		m.With = kit.AddList(m.With, withToks(k, n)...)
		return m, true
	}
	names := func(b *buffers, k, n int) {
		for i := 0; i < n; i++ {
			b.names[i] = nameItem(k + i)
		}
	}
	cols := func(b *buffers, k, n int) {
		for i := 0; i < n; i++ {
			b.cols[i] = plainColumn(k + i)
		}
	}
	vals := func(b *buffers, k, n int) {
		for i := 0; i < n; i++ {
			b.anys[i] = k + i
		}
	}
	valToks := func(k, n int) (out [][]kit.Tok) {
		for i := 0; i < n; i++ {
			out = append(out, kit.S(k+i))
		}
		return
	}
	in := func(set func(h *kit.H, e stmt.Expression)) bufOp {
		return bufOp{"Where(In(buffer))", func(h *kit.H, b *buffers, n int) { set(h, lk.Condition("c").In(b.anys[:n])) }, vals,
			func(m kit.Model, k, n int) (kit.Model, bool) {
				return m.AddWhere("", kit.Paren(kit.I("c"), kit.R("IN"), kit.Paren(kit.List(valToks(k, n)...))))
			}}
	}
	call := func(set func(h *kit.H, e stmt.Expression)) bufOp {
		return bufOp{"Where(Call(buffer))", func(h *kit.H, b *buffers, n int) { set(h, stmt.NewCall("f", b.values[:n]...).Equal(1)) },
			func(b *buffers, k, n int) {
				for i := 0; i < n; i++ {
					b.values[i] = lk.Value(k + i)
				}
			},
			func(m kit.Model, k, n int) (kit.Model, bool) {
				return m.AddWhere("", kit.Binary(kit.Cat(kit.R("f"), kit.Paren(kit.List(valToks(k, n)...))), "=", kit.S(1)))
			}}
	}
	setMap := func(real func(h *kit.H, m map[string]interface{})) bufOp {
		return bufOp{"Set(map)", func(h *kit.H, b *buffers, n int) { real(h, b.m) }, func(b *buffers, k, n int) {
			delete(b.m, "scrambled")
			for i := 0; i < n; i++ {
				b.m[nameItem(k+i)] = k + i
			}
		}, func(m kit.Model, k, n int) (kit.Model, bool) {
			if m.SetCols != nil {
				return m, false
			}
			for i := 0; i < n; i++ {
				m = m.SetPair(nameItem(k+i), kit.S(k+i))
			}
			return m, true
		}}
	}
	switch kind {
	case kit.Select:
		set := func(h *kit.H, e stmt.Expression) { h.S = h.S.Where(e) }
		return []bufOp{
			{"OrderBy(buffer...)", func(h *kit.H, b *buffers, n int) { h.S = h.S.OrderBy(b.orders[:n]...) },
				func(b *buffers, k, n int) {
					for i := 0; i < n; i++ {
						b.orders[i] = orderItem(k + i)
					}
				},
				func(m kit.Model, k, n int) (kit.Model, bool) {
					m.Orders = kit.AddList(m.Orders, orderToks(k, n)...)
					return m, true
				}},
			{"With(buffer...)", func(h *kit.H, b *buffers, n int) { h.S = h.S.With(b.withs[:n]...) }, withs, withMod},
			{"Columns(buffer...)", func(h *kit.H, b *buffers, n int) { h.S = h.S.Columns(b.anys[:n]...) }, anys,
				func(m kit.Model, k, n int) (kit.Model, bool) { m.Exprs = nameToks(k, n); return m, true }},
			{"Columns(expressions)", func(h *kit.H, b *buffers, n int) { h.S = h.S.Columns(b.exprs[:n]) },
				func(b *buffers, k, n int) {
					for i := 0; i < n; i++ {
						b.exprs[i] = plainColumn(k + i)
					}
				},
				func(m kit.Model, k, n int) (kit.Model, bool) { m.Exprs = nameToks(k, n); return m, true }},
			{"GroupBy([]Column)", func(h *kit.H, b *buffers, n int) { h.S = h.S.GroupBy(b.cols[:n]) }, cols, once(func(m *kit.Model) *[]kit.Tok { return &m.GroupBy }, nameToks)},
			{"DistinctOn([]Column)", func(h *kit.H, b *buffers, n int) { h.S = h.S.DistinctOn(b.cols[:n]) }, cols, once(func(m *kit.Model) *[]kit.Tok { return &m.DistinctOn }, nameToks)},
			{"From(From)", func(h *kit.H, b *buffers, n int) { h.S = h.S.From(stmt.From{Tables: b.tables[:n]}) },
				func(b *buffers, k, n int) {
					for i := 0; i < n; i++ {
						b.tables[i] = tableItem(k + i)
					}
				}, once(func(m *kit.Model) *[]kit.Tok { return &m.From }, nameToks)},
			in(set), call(set),
		}
	case kit.Insert:
		return []bufOp{
			{"Columns([]string)", func(h *kit.H, b *buffers, n int) { h.N = h.N.Columns(b.names[:n]) }, names, once(func(m *kit.Model) *[]kit.Tok { return &m.Columns }, nameToks)},
			{"Columns([]Column)", func(h *kit.H, b *buffers, n int) { h.N = h.N.Columns(b.cols[:n]) }, cols, once(func(m *kit.Model) *[]kit.Tok { return &m.Columns }, nameToks)},
			{"Values(buffer...)", func(h *kit.H, b *buffers, n int) { h.N = h.N.Values(b.anys[:n]...) }, vals,
				once(func(m *kit.Model) *[]kit.Tok { return &m.Values }, func(k, n int) []kit.Tok { return kit.Paren(kit.List(valToks(k, n)...)) })},
			{"Values(rows)", func(h *kit.H, b *buffers, n int) { h.N = h.N.Values([][]interface{}{b.anys[:n], b.anys[:n]}) }, vals,
				once(func(m *kit.Model) *[]kit.Tok { return &m.Values }, func(k, n int) []kit.Tok {
					r := kit.Paren(kit.List(valToks(k, n)...))
					return kit.List(r, r)
				})},
			{"Returning(expressions)", func(h *kit.H, b *buffers, n int) { h.N = h.N.Returning(b.exprs[:n]) },
				func(b *buffers, k, n int) {
					for i := 0; i < n; i++ {
						b.exprs[i] = plainColumn(k + i)
					}
				}, once(func(m *kit.Model) *[]kit.Tok { return &m.Returning }, nameToks)},
			{"OnConflict(DoUpdate(map))", func(h *kit.H, b *buffers, n int) { h.N = h.N.OnConflict("k", lk.DoUpdate(b.m)) },
				func(b *buffers, k, n int) {
					delete(b.m, "scrambled")
					for i := 0; i < n; i++ {
						b.m[nameItem(k+i)] = k + i
					}
				}, once(func(m *kit.Model) *[]kit.Tok { return &m.Conflict }, func(k, n int) []kit.Tok {
					var as []kit.Assign
					for i := 0; i < n; i++ {
						as = append(as, kit.Assign{Col: nameItem(k + i), Toks: kit.S(k + i)})
					}
					return kit.Cat(kit.Paren(kit.I("k")), kit.R("DO UPDATE SET"), kit.AssocToks(as))
				})},
		}
	case kit.Update:
		set := func(h *kit.H, e stmt.Expression) { h.U = h.U.Where(e) }
		return []bufOp{
			setMap(func(h *kit.H, m map[string]interface{}) { h.U = h.U.Set(m) }),
			{"Set(columns...)", func(h *kit.H, b *buffers, n int) { h.U = h.U.Set(b.anys[:n]...) }, anys,
				func(m kit.Model, k, n int) (kit.Model, bool) {
					if len(m.Assoc) > 0 {
						return m, false
					}
					m.SetCols = append([]string(nil), m.SetCols...)
					for i := 0; i < n; i++ {
						m.SetCols = append(m.SetCols, nameItem(k+i))
					}
					return m, true
				}},
			{"Using(buffer...)", func(h *kit.H, b *buffers, n int) { h.U = h.U.Using(b.anys[:n]...) }, vals,
				func(m kit.Model, k, n int) (kit.Model, bool) {
					if m.SetCols == nil {
						return m, false
					}
					m.SetExprs = kit.AddList(m.SetExprs, valToks(k, n)...)
					return m, true
				}},
			{"With(buffer...)", func(h *kit.H, b *buffers, n int) { h.U = h.U.With(b.withs[:n]...) }, withs, withMod},
			{"Returning([]string)", func(h *kit.H, b *buffers, n int) { h.U = h.U.Returning(b.names[:n]) }, names, once(func(m *kit.Model) *[]kit.Tok { return &m.Returning }, nameToks)},
			in(set), call(set),
		}
	default:
		set := func(h *kit.H, e stmt.Expression) { h.D = h.D.Where(e) }
		return []bufOp{
			{"Using(buffer...)", func(h *kit.H, b *buffers, n int) { h.D = h.D.Using(b.anys[:n]...) }, anys, once(func(m *kit.Model) *[]kit.Tok { return &m.Using }, nameToks)},
			{"Returning([]Column)", func(h *kit.H, b *buffers, n int) { h.D = h.D.Returning(b.cols[:n]) }, cols, once(func(m *kit.Model) *[]kit.Tok { return &m.Returning }, nameToks)},
			{"Returning([]string)", func(h *kit.H, b *buffers, n int) { h.D = h.D.Returning(b.names[:n]) }, names, once(func(m *kit.Model) *[]kit.Tok { return &m.Returning }, nameToks)},
			in(set), call(set),
		}
	}
}

var allBufOps [kit.NKinds][]bufOp

// c24Buffers: a caller that uses the same buffers for all its calls, on one
// builder and on a builder forked from it.
func c24Buffers(x *engine.X) {
	kind := x.Pick(kit.NKinds, "kind")
	ops := allBufOps[kind]
	b := newBuffers()
	h := kit.Start(kind)
	if kind == kit.Select {
		h = kit.Bare(kind)
		h.S, h.M.Exprs = lk.Select("id"), kit.I("id")
	}
	var all []kit.H
	depth := tier(x, 4, 5)
	if kind == kit.Select {
		depth--
	}
	for i := 0; i < depth; i++ {
		op := ops[x.Pick(len(ops), "operation")]
		n := 1 + x.Choose(3, "items")
		k := 20 * (i + 1)
		op.fill(b, k, n)
		before := fmt.Sprintf("%#v", *b)
		h, _ = apply(x, h, kit.Op{Name: fmt.Sprintf("%s of %d", op.name, n),
			Real: func(h *kit.H) { op.real(h, b, n) },
			Mod:  func(m kit.Model) (kit.Model, bool) { return op.mod(m, k, n) }}, "buffers")
		x.Checked()
		if after := fmt.Sprintf("%#v", *b); after != before {
			x.Fail("buffers", "%s modified its argument:\n  %s\nbecame\n  %s", op.name, before, after)
		}
		all = append(all, h)
		b.scramble(k)
	}
	before := fmt.Sprintf("%#v", *b)
	for _, g := range all {
		verify(x, g, kit.FQuery, "buffers", "statement built from reused buffers")
	}
	if after := fmt.Sprintf("%#v", *b); after != before {
		x.Fail("buffers", "rendering modified the buffers:\n  %s\nbecame\n  %s", before, after)
	}
	x.State(h.M.Key())
}

func init() {
	register("C24", func() engine.Check {
		if allTakers == nil {
			allTakers = takers()
			for k := range allBufOps {
				allBufOps[k] = bufOps(k)
			}
		}
		return engine.Check{ID: "C24", Scenarios: []engine.Scenario{
			{Name: "lists", Fn: c24Lists, Quick: 1, Thorough: 1,
				Bounds: fmt.Sprintf("%d functions taking a list or a map x 1-3 (thorough 5) items x with or without spare room x every element, the whole list, a key added, changed or removed x a second modification or one of 7 styles of names (blanks around, descending, in equal pairs, in mixed case, dotted, special), before, between or after renderings and extensions", len(allTakers))},
			{Name: "long lists", Fn: c24Long,
				Bounds: fmt.Sprintf("%d functions x 26 sizes from 6 to 1001 items x with or without spare room x 5 modifications x before or after the rendering", len(allTakers))},
			{Name: "buffers", Fn: c24Buffers, Quick: 2, Thorough: 3,
				Bounds: "sequences of 4 (select 3; thorough one more) list-taking calls from the same reused buffers with spare room, scrambled after each call; all intermediate builders rendered at the end"},
		}}
	})
}
