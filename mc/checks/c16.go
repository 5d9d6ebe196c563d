package checks

import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// cellForm builds the i-th element of a row or a list.
func cellForm(k, i int) (interface{}, []kit.Tok) {
	v := kit.DefaultValue(i)
	switch k {
	case 0:
		return v, kit.S(v)
	case 1:
		return nil, kit.R("NULL")
	case 2:
		s := fmt.Sprintf("raw%d", i)
		return lk.Raw(s), kit.R(s)
	case 3:
		n := fmt.Sprintf("q%d", i)
		return lk.Select(n).From("u").Where(lk.Condition("p").Equal(v)),
			kit.Paren(kit.R("SELECT"), kit.I(n), kit.R("FROM"), kit.I("u"), kit.R("WHERE"), kit.Binary(kit.I("p"), "=", kit.S(v)))
	case 4:
		return stmt.NewCall("F", stmt.NewExpression(v), stmt.NewExpression(nil)), kit.Cat(kit.R("F"), kit.Paren(kit.List(kit.S(v), kit.R("NULL"))))
	case 5:
		l := []string{fmt.Sprint(i), "x"}
		return l, kit.S(l)
	case 6:
		l := []int64{int64(i), 7}
		return l, kit.S(l)
	case 7:
		return stmt.NewExpression(v), kit.S(v)
	case 8:
		var t *time.Time
		return t, kit.R("NULL")
	case 9:
		return stmt.NewValue(nil), kit.R("NULL")
	case 10:
		m := map[string]interface{}{"k": i}
		return m, kit.S(m)
	case 11:
		return "", kit.S("")
	case 12:
		b := []byte{}
		return b, kit.S(b)
	case 13:
		l := []string{}
		return l, kit.S(l)
	case 14:
		f := pgtype.FlatArray[int64]{int64(i), 1}
		return f, kit.S(f)
	default:
		a := lk.Condition(fmt.Sprintf("e%d", i))
		return a, kit.I(fmt.Sprintf("e%d", i))
	}
}

const nCellForms = 16

// whole reports whether a form of cell, given alone, is a list itself: it then
// stands for its elements.
func wholeList(k int) bool { return k == 5 || k == 6 || k == 13 }

// insertWith checks an insert of the given VALUES.
func insertWith(x *engine.X, key, what string, args []interface{}, want []kit.Tok) {
	k := kit.H{M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: want}}
	must(x, key, what, func() { k.N = lk.Insert("t").Values(args...) })
	verify(x, k, kit.FAll, key, what)
}

// c16Rows: rows of every form of cells.
func c16Rows(x *engine.X) {
	container := x.Pick(5, "container")
	rows := 1
	if container >= 3 {
		rows = 1 + x.Pick(tier(x, 3, 4), "rows")
	}
	var cells [][]interface{}
	var toks [][]kit.Tok
	n := 0
	forms := []int{}
	for r := 0; r < rows; r++ {
		cols := 1 + x.Pick(tier(x, 3, 3), "cells")
		var row []interface{}
		var trow [][]kit.Tok
		for c := 0; c < cols; c++ {
			k := x.Choose(nCellForms, "cell")
			forms = append(forms, k)
			v, t := cellForm(k, n)
			n++
			row, trow = append(row, v), append(trow, t)
		}
		cells, toks = append(cells, row), append(toks, kit.Paren(kit.List(trow...)))
	}
	alone := len(forms) == 1
	want := kit.List(toks...)
	var args []interface{}
	exprs := func(row []interface{}) []stmt.Expression {
		var l []stmt.Expression
		for _, v := range row {
			l = append(l, stmt.NewExpression(v))
		}
		return l
	}
	switch container {
	case 0: // variadic
		args = cells[0]
		if alone && wholeList(forms[0]) {
			x.Skip()
		}
	case 1:
		args = []interface{}{cells[0]}
	case 2:
		args = []interface{}{exprs(cells[0])}
	case 3:
		args = []interface{}{cells}
	case 4:
		var l [][]stmt.Expression
		for _, r := range cells {
			l = append(l, exprs(r))
		}
		args = []interface{}{l}
	}
	x.Op("Values(%v)", args)
	insertWith(x, "rows", fmt.Sprintf("Values(%v)", short(fmt.Sprintf("%T %v", args[0], args))), args, want)
	// In place, among the other clauses.
	k := kit.H{M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Columns: kit.I("z"), Values: want, Conflict: kit.R("DO NOTHING"), Returning: kit.I("id")}}
	if x.Choose(2, "order of the calls") == 0 {
		must(x, "rows", "insert", func() {
			k.N = lk.Insert("t").Columns("z").Values(args...).OnConflict(lk.DoNothing()).Returning("id")
		})
	} else {
		must(x, "rows", "insert", func() {
			k.N = lk.Insert("t").Returning("id").OnConflict(lk.DoNothing()).Values(args...).Columns("z")
		})
	}
	verify(x, k, kit.FQuery, "rows", "insert with every clause")
	x.State(k.M.Key())
}

// listOf makes a slice of n elements of one of the list types, and its tokens.
func listOf(kind, n int) (interface{}, [][]kit.Tok, bool) {
	elem := func(i int) interface{} {
		switch kind {
		case 0:
			return fmt.Sprintf("s%d", i)
		case 1:
			return i
		case 2:
			return uint(i)
		case 3:
			return int8(i)
		case 4:
			return int16(i)
		case 5:
			return uint16(i)
		case 6:
			return int32(i)
		case 7:
			return uint32(i)
		case 8:
			return int64(i)
		case 9:
			return uint64(i)
		case 10:
			return i%3 == 0
		case 11:
			return float32(i) / 2
		case 12:
			return float64(i) / 2
		case 13:
			return []byte{byte(i), byte(i >> 8)}
		}
		return nil
	}
	if kind == 14 || kind == 15 {
		l := make([]interface{}, n)
		e := make([]stmt.Expression, n)
		var t [][]kit.Tok
		for i := range l {
			v, tv := cellForm([]int{0, 1, 2, 7, 0, 4}[i%6], i)
			l[i], e[i] = v, stmt.NewExpression(v)
			t = append(t, tv)
		}
		if kind == 14 {
			return l, t, true
		}
		return e, t, true
	}
	typ := reflect.TypeOf(elem(0))
	s := reflect.MakeSlice(reflect.SliceOf(typ), 0, n)
	var t [][]kit.Tok
	for i := 0; i < n; i++ {
		v := elem(i)
		s = reflect.Append(s, reflect.ValueOf(v))
		t = append(t, kit.S(v))
	}
	return s.Interface(), t, true
}

const nListTypes = 16

// listUses: the places where a list of elements is accepted.
var listUses = []struct {
	name string
	use  func(h *kit.H, l ...interface{})
	toks func(l []kit.Tok) kit.Model
	call bool
}{
	{"Identifier.In", func(h *kit.H, l ...interface{}) { h.S = lk.Select("a").From("f").Where(lk.Condition("c").In(l...)) },
		func(l []kit.Tok) kit.Model { return whereModel(kit.Paren(kit.I("c"), kit.R("IN"), kit.Paren(l))) }, true},
	{"Identifier.NotIn", func(h *kit.H, l ...interface{}) {
		h.S = lk.Select("a").From("f").Where(lk.Condition("c").NotIn(l...))
	},
		func(l []kit.Tok) kit.Model { return whereModel(kit.Paren(kit.I("c"), kit.R("NOT IN"), kit.Paren(l))) }, true},
	{"Call.In", func(h *kit.H, l ...interface{}) {
		h.S = lk.Select("a").From("f").Where(stmt.NewCall("F", lk.Condition("c")).In(l...))
	},
		func(l []kit.Tok) kit.Model {
			return whereModel(kit.Paren(kit.R("F"), kit.Paren(kit.I("c")), kit.R("IN"), kit.Paren(l)))
		}, true},
	{"NewIn", func(h *kit.H, l ...interface{}) {
		h.S = lk.Select("a").From("f").Where(stmt.NewIn(lk.Raw("(x)"), stmt.NewArrayExpression(l...)))
	},
		func(l []kit.Tok) kit.Model { return whereModel(kit.Paren(kit.R("(x) IN"), kit.Paren(l))) }, true},
	{"NewNotIn", func(h *kit.H, l ...interface{}) {
		h.S = lk.Select("a").From("f").Where(stmt.NewNotIn(lk.Value("k"), stmt.NewArrayExpression(l...)))
	},
		func(l []kit.Tok) kit.Model {
			return whereModel(kit.Paren(kit.S("k"), kit.R("NOT IN"), kit.Paren(l)))
		}, true},
	{"Values", func(h *kit.H, l ...interface{}) { h.N = lk.Insert("t").Values(l...) },
		func(l []kit.Tok) kit.Model {
			return kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.Paren(l)}
		}, false},
}

func whereModel(c []kit.Tok) kit.Model {
	return kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("f"), Where: c}
}

// c16Typed: every list type, at every length.
func c16Typed(x *engine.X) {
	kind := x.Pick(nListTypes, "list type")
	use := listUses[x.Pick(len(listUses), "place")]
	lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 100, 257, 1000, 1001, 1025, 4097, 65537}
	n := lens[x.Pick(len(lens), "length")]
	l, t, _ := listOf(kind, n)
	order := x.Pick(4, "order")
	if order > 0 && (n < 2 || n > 1001) {
		x.Skip()
	}
	l, t = permute(order, l, t)
	x.Op("%s(%T of %d)", use.name, l, n)
	what := fmt.Sprintf("%s(%T of %d elements, order %d)", use.name, l, n, order)
	if !use.call && n == 0 {
		mustRefuse(x, "empty", what, func() { var h kit.H; use.use(&h, l); _ = h.B().String() })
		return
	}
	var h kit.H
	must(x, "list", what, func() { use.use(&h, l) })
	h.M = use.toks(kit.List(t...))
	verify(x, h, kit.FAll, "list", what)
	x.State(what)
	// Variadic.
	if n < 2 {
		return
	}
	v := reflect.ValueOf(l)
	var args []interface{}
	for i := 0; i < n; i++ {
		args = append(args, v.Index(i).Interface())
	}
	h = kit.H{M: h.M}
	must(x, "list", what+", variadic", func() { use.use(&h, args...) })
	verify(x, h, kit.FAll, "list", what+", variadic")
}

// c16Grid: typed lists of rows, at every dimension, ragged too.
func c16Grid(x *engine.X) {
	kind := []int{0, 1, 8, 10, 14, 15}[x.Pick(6, "element type")]
	rows := x.Pick(tier(x, 5, 6), "rows")
	proto, _, _ := listOf(kind, 1)
	typ := reflect.TypeOf(proto)
	s := reflect.MakeSlice(reflect.SliceOf(typ), 0, rows)
	var toks [][]kit.Tok
	empty := rows == 0
	dims := []int{}
	off := 0
	reversed := x.PickBool("reversed")
	for r := 0; r < rows; r++ {
		n := x.Pick(tier(x, 4, 5), "cells")
		dims = append(dims, n)
		if n == 0 {
			empty = true
		}
		l, t, _ := listOf(kind, off+n)
		l, t = reflect.ValueOf(l).Slice(off, off+n).Interface(), t[off:]
		if reversed {
			l, t = permute(1, l, t)
		}
		s = reflect.Append(s, reflect.ValueOf(l))
		toks = append(toks, kit.Paren(kit.List(t...)))
		off += n
	}
	arg := s.Interface()
	what := fmt.Sprintf("Values(%T of dimensions %v)", arg, dims)
	x.Op("%s", what)
	if empty {
		mustRefuse(x, "empty", what, func() { _ = lk.Insert("t").Values(arg).String() })
		return
	}
	insertWith(x, "grid", what, []interface{}{arg}, kit.List(toks...))
	// Not along with anything else.
	if rows == 2 {
		mustRefuse(x, "mixed", what+" and another argument", func() { _ = lk.Insert("t").Values(arg, 1).String() })
		mustRefuse(x, "mixed", what+" and itself", func() { _ = lk.Insert("t").Values(arg, arg).String() })
		mustRefuse(x, "mixed", "another argument and "+what, func() { _ = lk.Insert("t").Values(1, arg).String() })
	}
	x.State(what)
}

// c16Many: many rows, with one peculiar cell anywhere.
func c16Many(x *engine.X) {
	sizes := []int{1, 2, 8, 9, 16, 17, 64, 100, 333, 1000, 1001, 5000}
	rows := sizes[x.Pick(len(sizes), "rows")]
	cols := []int{1, 2, 3, 7}[x.Pick(4, "columns")]
	form := x.Pick(nCellForms, "peculiar cell")
	where := []int{0, rows * cols / 2, rows*cols - 1, rows*cols - cols}[x.Pick(4, "place")]
	asExpr := x.PickBool("as expressions")
	var cells [][]interface{}
	var ex [][]stmt.Expression
	var toks [][]kit.Tok
	for r, n := 0, 0; r < rows; r++ {
		var row []interface{}
		var er []stmt.Expression
		var trow [][]kit.Tok
		for c := 0; c < cols; c++ {
			k := 0
			if n == where {
				k = form
			}
			v, t := cellForm(k, n)
			row, trow, er = append(row, v), append(trow, t), append(er, stmt.NewExpression(v))
			n++
		}
		cells, ex, toks = append(cells, row), append(ex, er), append(toks, kit.Paren(kit.List(trow...)))
	}
	x.Op("%d rows of %d", rows, cols)
	arg := interface{}(cells)
	if asExpr {
		arg = ex
	}
	h := kit.H{M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.List(toks...)}}
	must(x, "many", "Values", func() { h.N = lk.Insert("t").Values(arg) })
	verify(x, h, kit.FAll, "many", fmt.Sprintf("Values of %d rows of %d", rows, cols))
	x.State(fmt.Sprint(rows, cols, form, where))
}

// c16Lists: IN lists of every form of elements.
func c16Lists(x *engine.X) {
	use := listUses[x.Pick(len(listUses), "place")]
	container := x.Pick(3, "container")
	n := x.Pick(tier(x, 5, 6), "length")
	var l []interface{}
	var t [][]kit.Tok
	var e []stmt.Expression
	forms := []int{}
	for i := 0; i < n; i++ {
		k := x.Choose(nCellForms, "element")
		v, tv := cellForm(k, i)
		forms = append(forms, k)
		l, t, e = append(l, v), append(t, tv), append(e, stmt.NewExpression(v))
	}
	if n == 0 && !use.call {
		x.Skip()
	}
	args := l
	switch container {
	case 1:
		args = []interface{}{l}
	case 2:
		args = []interface{}{e}
	}
	if n == 1 {
		if container == 0 && wholeList(forms[0]) {
			x.Skip() // a lone list stands for its elements
		}
		if container == 0 && forms[0] == 1 && use.call {
			t = nil // a lone nil is the empty list
		}
		if forms[0] == 3 && use.call {
			// A lone subquery is the right-hand side itself.
			t[0] = t[0][1 : len(t[0])-1]
		}
	}
	what := fmt.Sprintf("%s(%s)", use.name, short(fmt.Sprintf("%T %v", args, args)))
	x.Op("%s", what)
	var h kit.H
	must(x, "elements", what, func() { use.use(&h, args...) })
	h.M = use.toks(kit.List(t...))
	verify(x, h, kit.FAll, "elements", what)
	x.State(h.M.Key())
}

type (
	namedInts  []int
	namedAny   []interface{}
	namedRows  [][]interface{}
	namedRow   []string
	valuerList []int
)

// Value implements driver.Valuer.
func (v valuerList) Value() (driver.Value, error) { return fmt.Sprint([]int(v)), nil }

// oddLists are lists of types which are not documented.
var oddLists = []interface{}{
	namedInts{1, 2, 3}, namedAny{1, 2}, namedRows{{1}, {2}}, namedRow{"a", "b"}, valuerList{1, 2},
	[]time.Time{{}, time.Unix(1, 0)}, []*time.Time{nil}, []complex128{1}, [][]float64{{1}, {2}}, [][]uint{{1}}, [][]int32{{1}, {2}},
	[2]int{1, 2}, [2][]int{{1}, {2}}, []*int{nil}, [][]time.Time{{{}}}, [][][]int{{{1}}}, []stmt.Raw{lk.Raw("a"), lk.Raw("b")},
	[]stmt.Select{}, []lkSelect{lk.Select("a").From("b")}, []map[string]interface{}{{"a": 1}}, [][]namedInts{{{1}}},
	[]driver.Valuer{valuerList{1}}, pgtype.FlatArray[string]{"a", "b"}, []namedRow{{"a"}, {"b"}}, [][]lkSelect{}, []stmt.Value{lk.Value(1), lk.Value(2)},
	[][][]byte{{{1}}, {{2}}}, []interface{}{[]interface{}{1, 2}, []interface{}{3}}, []interface{}{[]int{1}}, []struct{ A int }{{1}}, [][]int8{{1}, {2}}, []uintptr{1}, []rune{'a', 'b'}, []uint8{1, 2},
	[][]stmt.Value{{lk.Value(1)}}, []error{nil}, []stmt.Statement{lk.Raw("x")}, []stmt.Column{lk.Column("a")}, []chan int{nil}, []func(){nil}, &[]int{1, 2}, &[]interface{}{1},
}

// c16Odd: other lists are bound as one value, taken element by element, or
// refused.
func c16Odd(x *engine.X) {
	use := listUses[x.Pick(len(listUses), "place")]
	l := oddLists[x.Pick(len(oddLists), "list")]
	among := x.Pick(3, "among others")
	args := []interface{}{l}
	switch among {
	case 1:
		args = []interface{}{l, "after"}
	case 2:
		args = []interface{}{"before", l}
	}
	what := fmt.Sprintf("%s(%s)", use.name, short(fmt.Sprintf("%T %v", l, args)))
	x.Op("%s", what)
	x.Checked()
	var h kit.H
	var text string
	var got []interface{}
	if p, _ := x.Try(func() { use.use(&h, args...); text, got = h.B().Query() }); p {
		return
	}
	// As one value.
	var alts [][]kit.Tok
	alts = append(alts, kit.S(l))
	v := reflect.ValueOf(l)
	if v.Kind() == reflect.Slice || v.Kind() == reflect.Array {
		var t [][]kit.Tok
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i).Interface()
			switch e := e.(type) {
			case stmt.Raw:
				t = append(t, kit.R(e.Value))
			case stmt.Value:
				t = append(t, kit.S(e.Value))
			case nil:
				t = append(t, kit.R("NULL"))
			default:
				t = append(t, kit.S(e))
			}
		}
		alts = append(alts, kit.List(t...))
	}
	var err error
	for _, a := range alts {
		switch among {
		case 1:
			a = kit.List(a, kit.S("after"))
		case 2:
			a = kit.List(kit.S("before"), a)
		}
		m := use.toks(a)
		want, _ := m.Toks()
		if err = kit.Match(h.B(), want, kit.FAll); err == nil {
			return
		}
	}
	x.Fail("odd", "%s gives %s with %v: neither one value nor its elements: %v", what, text, got, err)
}

// listLetters are the elements of which the contents of typed lists are made.
var listLetters = [][]interface{}{
	{"", "a", "A", " "}, {0, 1, -1}, {uint(0), uint(1), uint(2)}, {int8(0), int8(1), int8(-1)}, {int16(0), int16(1), int16(-1)}, {uint16(0), uint16(1), uint16(2)},
	{int32(0), int32(1), int32(-1)}, {uint32(0), uint32(1), uint32(2)}, {int64(0), int64(1), int64(-1)}, {uint64(0), uint64(1), uint64(2)}, {false, true},
	{float32(0), float32(1), float32(-1)}, {float64(0), float64(1), float64(-1)}, {[]byte{}, []byte{0}, []byte("a"), []byte(nil)},
}

// c16Repeats: lists of any content: equal, empty and zero elements are
// elements as the others.
func c16Repeats(x *engine.X) {
	kind := x.Pick(len(listLetters)+2, "list type")
	use := listUses[x.Pick(len(listUses), "place")]
	n := 2 + x.Pick(tier(x, 3, 4), "length")
	var letters []interface{}
	if kind < len(listLetters) {
		letters = listLetters[kind]
	} else {
		letters = []interface{}{nil, 0, "", lk.Raw("r"), false}
	}
	var vals []interface{}
	var toks [][]kit.Tok
	for i := 0; i < n; i++ {
		v := letters[x.Pick(len(letters), "element")]
		vals = append(vals, v)
		switch v := v.(type) {
		case nil:
			toks = append(toks, kit.R("NULL"))
		case stmt.Raw:
			toks = append(toks, kit.R(v.Value))
		default:
			toks = append(toks, kit.S(v))
		}
	}
	var l interface{}
	switch {
	case kind < len(listLetters):
		s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(letters[0])), 0, n)
		for _, v := range vals {
			s = reflect.Append(s, reflect.ValueOf(v))
		}
		l = s.Interface()
	case kind == len(listLetters):
		l = append([]interface{}(nil), vals...)
	default:
		var e []stmt.Expression
		for _, v := range vals {
			e = append(e, stmt.NewExpression(v))
		}
		l = e
	}
	what := fmt.Sprintf("%s(%#v)", use.name, l)
	x.Op("%s of %T", use.name, l)
	var h kit.H
	must(x, "repeats", what, func() { use.use(&h, l) })
	h.M = use.toks(kit.List(toks...))
	verify(x, h, kit.FAll, "repeats", what)
	h = kit.H{M: h.M}
	must(x, "repeats", what+", variadic", func() { use.use(&h, vals...) })
	verify(x, h, kit.FAll, "repeats", what+", variadic")
	// The same row several times.
	if use.name == "Values" {
		rows := 1 + x.Pick(3, "rows")
		var all [][]kit.Tok
		row := kit.Paren(kit.List(toks...))
		given := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(l)), 0, rows)
		for i := 0; i < rows; i++ {
			all = append(all, row)
			given = reflect.Append(given, reflect.ValueOf(l))
		}
		switch l.(type) {
		case []string, []int, []int64, []bool, []interface{}, []stmt.Expression:
			insertWith(x, "repeats", fmt.Sprintf("Values(%d times %#v)", rows, l), []interface{}{given.Interface()}, kit.List(all...))
		}
	}
	x.State(what)
}

// c16Contents: cells of unusual contents are kept, at their place.
func c16Contents(x *engine.X) {
	way := x.Pick(4, "way")
	n := 1 + x.Pick(3, "cells")
	var cells []oddCell
	must(x, "contents", "values", func() { cells = oddCells("a") })
	var row []interface{}
	var toks [][]kit.Tok
	for i := 0; i < n; i++ {
		c := cells[x.Pick(nOddCells, "cell")]
		row, toks = append(row, c.v), append(toks, c.t)
	}
	h := kit.H{M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: kit.Paren(kit.List(toks...))}}
	if way > 0 {
		cols := []interface{}{"a", "b", "c"}[:n]
		h.M.Columns = kit.List([][]kit.Tok{kit.I("a"), kit.I("b"), kit.I("c")}[:n]...)
		h.N = lk.Insert("t").Columns(cols...)
	} else {
		h.N = lk.Insert("t")
	}
	must(x, "contents", "Values", func() {
		switch way {
		case 0, 1:
			h.N = h.N.Values([][]interface{}{row})
		case 2:
			h.N = h.N.Values([][]interface{}{row, {1}, row})
			h.M.Values = kit.List(h.M.Values, kit.Paren(kit.S(1)), h.M.Values)
		case 3:
			h.N = h.N.Values(row)
		}
	})
	x.Op("Values(%v)", row)
	x.State(fmt.Sprint(way, h.M.Key()))
	verify(x, h, kit.FQuery|kit.FString, "contents", "Values")
}

func init() {
	register("C16", func() engine.Check {
		return engine.Check{ID: "C16", Scenarios: []engine.Scenario{
			{Name: "rows", Fn: c16Rows, Quick: 2, Thorough: 3, Bounds: fmt.Sprintf("5 ways to give rows x 1 to 3 (thorough 4) rows, ragged, of 1 to 3 cells x at most 2 (thorough 3) cells of the %d forms or calls in another order", nCellForms)},
			{Name: "grid", Fn: c16Grid, Bounds: "6 element types x at most 4 (thorough 5) rows of 0 to 3 (thorough 4) cells each, ragged ones among them, in order or reversed"},
			{Name: "contents", Fn: c16Contents, Bounds: fmt.Sprintf("4 ways to give rows x every row of 1 to 3 cells among %d values of unusual contents (DEFAULT, NULL, the name of a column, empty and zero values, subqueries, calls)", nOddCells)},
			{Name: "many", Fn: c16Many, Bounds: "1 to 1000 rows of 1, 2, 3 or 7 cells with one cell of each of the forms at 4 places"},
			{Name: "typed lists", Fn: c16Typed, Bounds: fmt.Sprintf("%d places x %d list types x 19 lengths from 0 to 65537 x in order, reversed, shuffled or all equal (up to 1001), as a slice and variadic", len(listUses), nListTypes)},
			{Name: "repeats", Fn: c16Repeats, Bounds: fmt.Sprintf("%d places x %d list types x every word of 2-4 (thorough 5) elements over 2-5 ones (zero, empty, equal, differing by their case), as a slice, variadic, and repeated rows", len(listUses), len(listLetters)+2)},
			{Name: "lists", Fn: c16Lists, Quick: 2, Thorough: 3, Bounds: fmt.Sprintf("%d places x 3 ways x lengths 0 to 4 (thorough 5) x at most 2 (thorough 3) elements of other forms", len(listUses))},
			{Name: "other types", Fn: c16Odd, Bounds: fmt.Sprintf("%d places x %d lists of undocumented types, alone, before or after a value: one value, its elements, or a refusal", len(listUses), len(oddLists))},
		}, Assumptions: []string{
			"In of a lone nil or of an empty list is IN (), as the existing tests require",
			"a list given alone stands for its elements; among other arguments it is bound as a whole",
		}}
	})
}
