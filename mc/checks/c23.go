package checks

import (
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
	"verifmc/pg"
)

// The interfaces of a value, one each, and what they answer.
type (
	mStmt struct{}
	mInt  struct{}
	mBool struct{}
	mTime struct{}
	mStr  struct{}
	mVal  struct{}
	pStmt struct{}
	pInt  struct{}
	pBool struct{}
	pTime struct{}
	pStr  struct{}
	pVal  struct{}
)

var encTime = time.Date(2021, 2, 3, 4, 5, 6, 7000, time.UTC)

func (mStmt) Statement() stmt.Statement    { return stmt.NewRaw("the_statement") }
func (mInt) Int64() int64                  { return 42 }
func (mBool) Bool() bool                   { return true }
func (mTime) Time() time.Time              { return encTime }
func (mStr) String() string                { return "the string" }
func (mVal) Value() (driver.Value, error)  { return "the driver value", nil }
func (*pStmt) Statement() stmt.Statement   { return stmt.NewRaw("the_statement") }
func (*pInt) Int64() int64                 { return 42 }
func (*pBool) Bool() bool                  { return true }
func (*pTime) Time() time.Time             { return encTime }
func (*pStr) String() string               { return "the string" }
func (*pVal) Value() (driver.Value, error) { return "the driver value", nil }

// encoderType is a type with some of the interfaces (bits, in the order of
// the declarations above).
type encoderType struct {
	bits       int
	value, ptr interface{}
}

// denoted is what a value of those interfaces stands for.
func denoted(bits int, v interface{}) []kit.Tok {
	switch {
	case bits&32 != 0:
		return kit.S(v)
	case bits&1 != 0:
		return verbatim("the_statement")
	case bits&2 != 0:
		return kit.S(int64(42))
	case bits&4 != 0:
		return kit.S(true)
	case bits&8 != 0:
		return kit.S(encTime)
	default:
		return kit.S("the string")
	}
}

// verbatim is a piece of text.
func verbatim(s string) []kit.Tok { return []kit.Tok{{Tok: pg.Tok{K: pg.Word, S: s}}} }

// boundAt checks what a value becomes at a position: the text is the one with
// the same tokens given at the position as raw SQL or as a plain value.
func boundAt(x *engine.X, p position, v interface{}, want []kit.Tok, key string) {
	x.Checked()
	var q, m, s string
	var args []interface{}
	var nargs map[string]interface{}
	what := fmt.Sprintf("%T(%s) at %s", v, kit.Show(v), p.name)
	must(x, key, what, func() {
		b := p.build(v)
		q, args = b.Query()
		m, nargs = b.NamedQuery()
	})
	// The reference: a marker in place of the value.
	ref, _ := p.build(lk.Raw("__marker__")).Query()
	text, named := "", ""
	var slots []interface{}
	for i, t := range want {
		if i > 0 {
			text, named = text+" ", named+" "
		}
		if t.Slot {
			slots = append(slots, t.V)
			text += fmt.Sprintf("$%d", len(slots))
			named += fmt.Sprintf(":arg_%d", len(slots))
		} else {
			text, named = text+t.S, named+t.S
		}
	}
	text, named = strings.Replace(ref, "__marker__", text, 1), strings.Replace(ref, "__marker__", named, 1)
	if q != text || m != named {
		x.Fail(key, "%s renders\n  %s\n  %s\n instead of\n  %s", what, q, m, text)
	}
	if len(args) != len(slots) || len(nargs) != len(slots) {
		x.Fail(key, "%s: arguments %s instead of %s", what, kit.ShowArgs(args), kit.ShowArgs(slots))
	}
	for i := range slots {
		n := nargs[fmt.Sprintf("arg_%d", i+1)]
		for _, a := range []interface{}{args[i], n} {
			if reflect.TypeOf(a) != reflect.TypeOf(slots[i]) || !kit.SameValue(a, slots[i]) {
				x.Fail(key, "%s: the argument is %T(%s) instead of %T(%s)", what, a, kit.Show(a), slots[i], kit.Show(slots[i]))
			}
			if reflect.TypeOf(a).Kind() == reflect.Ptr && a != slots[i] {
				x.Fail(key, "%s: the argument is another pointer", what)
			}
		}
	}
	must(x, key, what+", String()", func() { s = p.build(v).String() })
	_ = s
}

// c23Encoders: every combination of the interfaces, by value and by pointer.
func c23Encoders(x *engine.X) {
	p := positions[x.Pick(len(positions), "position")]
	k := x.Pick(len(encoders)+len(ptrEncoders), "type")
	e := append(append([]encoderType{}, encoders...), ptrEncoders...)[k]
	for _, v := range []interface{}{e.value, e.ptr} {
		if v == nil {
			continue
		}
		x.Op("%T at %s", v, p.name)
		boundAt(x, p, v, denoted(e.bits, v), "encoder")
	}
	x.State(p.name, fmt.Sprint(k))
}

type bound struct {
	v    interface{}
	want []kit.Tok
	list bool // a list alone is spread
}

type rangeValuer struct{ lo, hi int64 }

func (r rangeValuer) IsNull() bool { return false }
func (r rangeValuer) BoundTypes() (lower, upper pgtype.BoundType) {
	return pgtype.Inclusive, pgtype.Exclusive
}
func (r rangeValuer) Bounds() (lower, upper interface{}) { return r.lo, r.hi }

// asTime is convertible to a time without being one.
type named struct {
	stmt.Raw
}

var someBound = func() []bound {
	var out []bound
	self := func(list bool, vs ...interface{}) {
		for _, v := range vs {
			out = append(out, bound{v, kit.S(v), list})
		}
	}
	for _, c := range allContents {
		for _, v := range c.vals {
			out = append(out, bound{v, kit.S(encoded(v)), c.list})
		}
	}
	t := time.Date(2020, 1, 2, 3, 4, 5, 6, time.FixedZone("z", -7200))
	ts := "s"
	out = append(out,
		bound{nil, kit.R("NULL"), true}, bound{(*time.Time)(nil), kit.R("NULL"), false},
		bound{&t, kit.S(t), false}, bound{&time.Time{}, kit.S(time.Time{}), false},
		bound{stmt.NewValue(nil), kit.R("NULL"), false}, bound{lk.Value(&ts), kit.S(&ts), false},
		bound{lk.Value(strEnc{"x"}), kit.S(strEnc{"x"}), false}, bound{lk.Value(struct{ A int }{1}), kit.S(struct{ A int }{1}), false},
		bound{lk.Value(uintptr(3)), kit.S(uintptr(3)), false}, bound{lk.Value([]int{1, 2}), kit.S([]int{1, 2}), false},
		bound{lk.Value(complex(1, 2)), kit.S(complex(1, 2)), false}, bound{lk.Value((*time.Time)(nil)), kit.S((*time.Time)(nil)), false},
		bound{lk.Value([]interface{}{1, nil}), kit.S([]interface{}{1, nil}), false}, bound{lk.Value(lk.Raw("x")), kit.S(lk.Raw("x")), false},
		bound{lk.Raw("now()"), verbatim("now()"), false}, bound{named{lk.Raw("later()")}, verbatim("later()"), false}, bound{&named{lk.Raw("later()")}, verbatim("later()"), false},
		bound{time.Second, kit.S("1s"), false}, bound{time.March, kit.S("March"), false}, bound{&url.URL{Host: "h"}, kit.S("//h"), false},
		bound{big.NewInt(7), kit.S(int64(7)), false}, bound{stmtEnc{lk.Raw("enc()")}, verbatim("enc()"), false},
		bound{stmtEnc{stmt.NewValue(5)}, kit.S(5), false}, bound{stmtEnc{stmt.NewValue(nil)}, kit.R("NULL"), false},
	)
	self(false, pgtype.Range[pgtype.Int8]{}, pgtype.Range[pgtype.Int8]{Lower: pgtype.Int8{Int64: 1, Valid: true}, Upper: pgtype.Int8{Int64: 9, Valid: true}, LowerType: pgtype.Inclusive, UpperType: pgtype.Exclusive, Valid: true}, rangeValuer{1, 2}, &rangeValuer{3, 4},
		pgtype.FlatArray[string]{"a", "b"}, pgtype.FlatArray[int64]{1, 2}, pgtype.FlatArray[string]{}, pgtype.FlatArray[int64](nil),
		pgtype.Text{String: "x", Valid: true}, pgtype.Text{}, pgtype.Int8{Int64: 3, Valid: true}, pgtype.Timestamptz{}, pgtype.Hstore{"a": nil}, pgtype.Bool{Bool: true, Valid: true},
		sql.NullInt64{}, sql.NullInt64{Int64: 4, Valid: true}, sql.NullBool{Bool: true, Valid: true}, sql.NullFloat64{Float64: math.Pi, Valid: true}, sql.NullTime{Time: t, Valid: true}, sql.NullTime{}, &sql.NullString{String: "p", Valid: true},
		(*ptrValuer)(nil), (*sql.NullString)(nil), valuerList{1, 2}, valuerList(nil), sql.Null[int]{V: 1, Valid: true},
	)
	self(true, []string(nil), []int64(nil), []string{}, []int64{}, []string{"a", "", "b"}, []int64{1, 0, -5})
	return out
}()

// c23Types: every supported value at every position.
func c23Types(x *engine.X) {
	p := positions[x.Pick(len(positions), "position")]
	k := x.Pick(len(someBound), "value")
	b := someBound[k]
	if b.list && p.spreads {
		x.Skip()
	}
	x.Op("%T at %s", b.v, p.name)
	boundAt(x, p, b.v, b.want, "type")
	x.State(p.name, fmt.Sprint(k))
}

type (
	myStr   string
	myInt64 int64
	myBool  bool
	myTime  time.Time
	myFloat float64
	myBytes []byte
	myMap   map[string]interface{}
)

// unsupportedValues are refused.
var unsupportedValues = []interface{}{
	complex64(1), complex(1, 2), uintptr(1), make(chan int), func() {}, struct{}{}, struct{ A int }{1}, new(int), new(string), new(bool), new(interface{}), new([]byte),
	[2]int{1, 2}, [1]string{"a"}, map[int]string{}, map[string]int{}, map[string][]string{}, myStr("a"), myInt64(1), myBool(true), myTime{}, myFloat(1), myMap{},
	[][]string{{"a"}}, []time.Time{{}}, []error{nil}, []struct{}{{}}, errors.New("x"), &myTime{}, new(*time.Time), (*int)(nil), (*string)(nil), (chan int)(nil), (func())(nil), lk.Column("c"), lk.Table("t"), lk.Order("o"), lk.Pair("a", 1), lk.Limit(3),
	lk.Insert("t").Values(1), lk.Update("t").Set(lk.Pair("a", 1)), lk.Delete("t"), &builder.Insert{}, (*lkSelect)(nil), stmtEnc{nil}, stmtEnc{lk.Table("t")}, stmtEnc{lk.Insert("t").Statement()}, stmtEnc{lk.Column("a")}, lk.DoNothing(),
}

// lists which are bound nowhere as a whole.
var unsupportedWhole = []interface{}{[]int{1}, []uint{1}, []bool{true}, []float64{1}, []interface{}{1}, [][]byte{{1}}, []int32{1}, []uint64{1}, []int8{1}, []stmt.Expression{lk.Raw("x")}, []int16{}, []float32{}}

// c23Unsupported: every unsupported value at every position.
func c23Unsupported(x *engine.X) {
	p := positions[x.Pick(len(positions), "position")]
	vs := unsupportedValues
	if !p.spreads {
		vs = append(append([]interface{}{}, vs...), unsupportedWhole...)
	}
	v := vs[x.Pick(len(vs), "value")]
	x.Op("%T at %s", v, p.name)
	if _, rows := v.([][]string); rows && strings.HasPrefix(p.name, "Values ") {
		x.Skip() // a list of rows
	}
	mustRefuse(x, "unsupported", fmt.Sprintf("%T at %s", v, p.name), func() { _, _ = p.build(v).Query() })
	x.State(p.name, fmt.Sprintf("%T", v))
}

// c23Mixed: several values at once keep their own types.
func c23Mixed(x *engine.X) {
	n := tier(x, 3, 4)
	pool := []interface{}{1, int64(1), int8(1), uint(1), "1", []byte("1"), 1.0, float32(1), true, encTime, &encTime, nil, intEnc{1}, strEnc{"1"}, boolEnc{true}, timeEnc{encTime}, valuer{"1"}, []string{"1"}, []int64{1}, map[string]string{"1": "1"}, encoders[0].value, pgtype.FlatArray[int64]{1}, (*time.Time)(nil)}
	tok := func(v interface{}) []kit.Tok {
		switch e := v.(type) {
		case *time.Time:
			if e == nil {
				return kit.R("NULL")
			}
			return kit.S(*e)
		case stmt.StatementEncoder:
			return kit.R("the_statement")
		}
		return kit.S(encoded(v))
	}
	var vs []interface{}
	var ts [][]kit.Tok
	for i := 0; i < n; i++ {
		v := pool[x.Pick(len(pool), "value")]
		vs, ts = append(vs, v), append(ts, tok(v))
	}
	x.Op("%v", vs)
	row := kit.Paren(kit.List(ts...))
	h := kit.H{N: lk.Insert("t").Values(vs...), M: kit.Model{Kind: kit.Insert, Into: kit.I("t"), Values: row}}
	verify(x, h, kit.FAll, "mixed", "Values")
	s := kit.H{S: lk.Select("a").From("f").Where(lk.Condition("c").NotIn(vs...)), M: whereModel(kit.Paren(kit.I("c"), kit.R("NOT IN"), row))}
	verify(x, s, kit.FAll, "mixed", "NotIn")
	u := kit.H{U: lk.Update("t").Set("a", "b").Using(vs...), M: kit.Model{Kind: kit.Update, Table: kit.I("t"), SetCols: []string{"a", "b"}, SetExprs: ts}}
	verify(x, u, kit.FQuery, "mixed", "Using")
	x.State(h.M.Key())
}

func init() {
	register("C23", func() engine.Check {
		return engine.Check{ID: "C23", Scenarios: []engine.Scenario{
			{Name: "types", Fn: c23Types, Bounds: fmt.Sprintf("%d values of every supported type x %d positions", len(someBound), len(positions))},
			{Name: "encoders", Fn: c23Encoders, Bounds: fmt.Sprintf("every combination of the 6 interfaces of a value (63), by value, by pointer and with pointer receivers x %d positions", len(positions))},
			{Name: "unsupported", Fn: c23Unsupported, Bounds: fmt.Sprintf("%d values of unsupported types x %d positions", len(unsupportedValues)+len(unsupportedWhole), len(positions))},
			{Name: "mixed", Fn: c23Mixed, Bounds: "every sequence of 3 (thorough 4) of 23 values of different types denoting 1, in VALUES, NOT IN and Using"},
		}, Assumptions: []string{
			"a driver.Valuer is bound as itself even when it is an encoder as well",
			"loukoum.Value binds what it is given, whatever it is",
		}}
	})
}
