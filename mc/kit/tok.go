// Package kit holds the reference model of the statements (as expected token
// sequences) and the operations that advance, in step, a real builder and its
// model.
package kit

import (
	"bytes"
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ulule/loukoum/v3/builder"

	"verifmc/pg"
)

// Tok is an expected token: a fixed one or the slot of a value.
type Tok struct {
	pg.Tok
	Slot bool
	V    interface{}
}

var rawCache sync.Map

// R lexes SQL text given by the model itself.
func R(text string) []Tok {
	if c, ok := rawCache.Load(text); ok {
		return c.([]Tok)
	}
	ts, err := pg.Lex(text, pg.Options{})
	if err != nil {
		panic("kit: bad raw text " + text + ": " + err.Error())
	}
	out := make([]Tok, len(ts))
	for i, t := range ts {
		out[i] = Tok{Tok: t}
	}
	if len(text) < 64 {
		rawCache.Store(text, out)
	}
	return out
}

// I is an identifier: quoted parts separated by dots.
func I(name string) []Tok {
	var out []Tok
	for i, p := range strings.Split(name, ".") {
		if i > 0 {
			out = append(out, P(".")...)
		}
		out = append(out, Tok{Tok: pg.Tok{K: pg.QIdent, S: p}})
	}
	return out
}

var puncts = map[string][]Tok{}

func init() {
	for _, p := range []string{"(", ")", ",", ".", ";"} {
		puncts[p] = []Tok{{Tok: pg.Tok{K: pg.Punct, S: p, Raw: p}}}
	}
}

// P is a punctuation token.
func P(s string) []Tok { return puncts[s] }

// S is the slot of a value. A nil value is NULL.
func S(v interface{}) []Tok {
	if v == nil {
		return R("NULL")
	}
	return []Tok{{Slot: true, V: v}}
}

// Cat concatenates.
func Cat(parts ...[]Tok) []Tok {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := make([]Tok, 0, n)
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// Paren encloses.
func Paren(t ...[]Tok) []Tok { return Cat(P("("), Cat(t...), P(")")) }

// List separates with commas.
func List(items ...[]Tok) []Tok {
	var out []Tok
	for i, it := range items {
		if i > 0 {
			out = append(out, P(",")...)
		}
		out = append(out, it...)
	}
	return out
}

// Binary is a parenthesized infix expression.
func Binary(l []Tok, op string, r []Tok) []Tok { return Paren(l, R(op), r) }

// CommentTok is the comment at the end of a statement.
func CommentTok(text string) []Tok {
	text = strings.NewReplacer("\r", " ", "\n", " ").Replace(text)
	return []Tok{{Tok: pg.Tok{K: pg.Comment, S: " " + text}}}
}

// Text writes expected tokens for messages and state hashes.
func Text(toks []Tok) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			b.WriteByte(' ')
		}
		if t.Slot {
			fmt.Fprintf(&b, "<%T %v>", t.V, Show(t.V))
		} else {
			b.WriteString(t.Tok.String())
		}
	}
	return b.String()
}

// Show is %v without running encoders.
func Show(v interface{}) string {
	switch t := v.(type) {
	case string:
		if len(t) > 60 {
			return strconv.Quote(t[:60]) + "..."
		}
		return strconv.Quote(t)
	case []byte:
		return hex.EncodeToString(t)
	case time.Time:
		return t.Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%+v", v)
}

// Values lists the slots in order.
func Values(toks []Tok) []interface{} {
	var out []interface{}
	for _, t := range toks {
		if t.Slot {
			out = append(out, t.V)
		}
	}
	return out
}

// SameValue compares dynamic type and content.
func SameValue(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch x := a.(type) {
	case string:
		return x == b.(string)
	case int:
		return x == b.(int)
	case float64:
		return math.Float64bits(x) == math.Float64bits(b.(float64))
	case float32:
		return math.Float32bits(x) == math.Float32bits(b.(float32))
	case time.Time:
		y := b.(time.Time)
		return x.Equal(y) && x.Location().String() == y.Location().String()
	case []byte:
		y := b.([]byte)
		return bytes.Equal(x, y) && (x == nil) == (y == nil)
	}
	if reflect.TypeOf(a).Kind() == reflect.Ptr {
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}
	return reflect.DeepEqual(a, b)
}

// Literal is the expected literal of a value in String(). It answers false
// for values that have no SQL literal.
func Literal(v interface{}) ([]pg.Tok, bool) {
	lex := func(s string) ([]pg.Tok, bool) {
		t, err := pg.Lex(s, pg.Options{})
		return t, err == nil
	}
	str := func(s string) ([]pg.Tok, bool) { return []pg.Tok{{K: pg.Str, S: s}}, true }
	switch x := v.(type) {
	case nil:
		return lex("NULL")
	case string:
		return str(x)
	case []byte:
		if x == nil { // what drivers bind for it
			return lex("NULL")
		}
		return lex("decode('" + hex.EncodeToString(x) + "', 'hex')")
	case time.Time:
		u := x.UTC()
		s := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", u.Year(), int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second())
		if us := u.Nanosecond() / 1000; us > 0 {
			s += strings.TrimRight(fmt.Sprintf(".%06d", us), "0")
		}
		return str(s + "+00")
	case driver.Valuer:
		rv := reflect.ValueOf(x)
		if rv.Kind() == reflect.Ptr && rv.IsNil() {
			return lex("NULL")
		}
		d, err := x.Value()
		if err != nil {
			return nil, false
		}
		return Literal(d)
	case bool:
		if x {
			return lex("true")
		}
		return lex("false")
	case float32:
		if f := float64(x); math.IsInf(f, 0) || math.IsNaN(f) {
			return nil, false
		}
		return lex(strconv.FormatFloat(float64(x), 'f', -1, 64))
	case float64:
		if math.IsInf(x, 0) || math.IsNaN(x) {
			return nil, false
		}
		return lex(strconv.FormatFloat(x, 'f', -1, 64))
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return lex(fmt.Sprintf("%d", x))
	}
	return nil, false
}

// Rendering is what the three forms of a builder gave.
type Rendering struct {
	Query  string
	Args   []interface{}
	Named  string
	NArgs  map[string]interface{}
	String string
}

// Render renders a builder in the three forms.
func Render(b builder.Builder) (r Rendering) {
	r.Query, r.Args = b.Query()
	r.Named, r.NArgs = b.NamedQuery()
	r.String = b.String()
	return r
}

// Key identifies a rendering exactly (arguments by type and content).
func (r Rendering) Key() string {
	var b strings.Builder
	b.WriteString(r.Query)
	b.WriteByte(0)
	for _, a := range r.Args {
		fmt.Fprintf(&b, "%T:%s\x00", a, Show(a))
	}
	b.WriteString(r.Named)
	b.WriteByte(0)
	for i := 1; i <= len(r.NArgs); i++ {
		a := r.NArgs["arg_"+strconv.Itoa(i)]
		fmt.Fprintf(&b, "%T:%s\x00", a, Show(a))
	}
	b.WriteString(r.String)
	return b.String()
}

// Forms selects renderings to match.
type Forms uint8

// Forms.
const (
	FQuery Forms = 1 << iota
	FNamed
	FString
	FAll = FQuery | FNamed | FString
)

// Match compares the renderings of a builder with the expectation.
func Match(b builder.Builder, want []Tok, forms Forms) error {
	if forms&FQuery != 0 {
		q, args := b.Query()
		if err := MatchQuery(q, args, want); err != nil {
			return err
		}
	}
	if forms&FNamed != 0 {
		q, args := b.NamedQuery()
		if err := MatchNamed(q, args, want); err != nil {
			return err
		}
	}
	if forms&FString != 0 {
		if err := MatchString(b.String(), want); err != nil {
			return err
		}
	}
	return nil
}

func mismatch(form, text string, args interface{}, want []Tok, why string) error {
	return fmt.Errorf("%s: %s\n  got      %s\n  args     %s\n  expected %s", form, why, text, ShowArgs(args), Text(want))
}

// ShowArgs writes arguments for messages.
func ShowArgs(args interface{}) string {
	var b strings.Builder
	switch a := args.(type) {
	case []interface{}:
		for i, v := range a {
			if i == 30 {
				fmt.Fprintf(&b, "... %d arguments", len(a))
				break
			}
			fmt.Fprintf(&b, "[%d]=%T(%s) ", i, v, Show(v))
		}
	case map[string]interface{}:
		for i := 1; i <= len(a)+1; i++ {
			if v, ok := a["arg_"+strconv.Itoa(i)]; ok && i < 30 {
				fmt.Fprintf(&b, "arg_%d=%T(%s) ", i, v, Show(v))
			}
		}
		fmt.Fprintf(&b, "(%d arguments)", len(a))
	}
	return b.String()
}

// emptyIdent tells whether an empty identifier is expected (a name such as
// "a..b", that PostgreSQL refuses but that has to stay where it is).
func emptyIdent(want []Tok) bool {
	for i := range want {
		if want[i].K == pg.QIdent && want[i].S == "" && !want[i].Slot {
			return true
		}
	}
	return false
}

// MatchQuery checks a positional rendering.
func MatchQuery(q string, args []interface{}, want []Tok) error {
	got, err := pg.Lex(q, pg.Options{EmptyIdent: emptyIdent(want)})
	if err != nil {
		return mismatch("Query", q, args, want, err.Error())
	}
	k := 0
	for i, w := range want {
		if i >= len(got) {
			return mismatch("Query", q, args, want, fmt.Sprintf("ends before expected token %d (%s)", i, Text(want[i:i+1])))
		}
		if w.Slot {
			k++
			if got[i].K != pg.Param || got[i].S != strconv.Itoa(k) {
				return mismatch("Query", q, args, want, fmt.Sprintf("token %d is %s instead of placeholder $%d", i, got[i], k))
			}
			if k > len(args) {
				return mismatch("Query", q, args, want, fmt.Sprintf("no argument for $%d", k))
			}
			if !SameValue(w.V, args[k-1]) {
				return mismatch("Query", q, args, want, fmt.Sprintf("argument %d is %T(%s) instead of %T(%s)", k, args[k-1], Show(args[k-1]), w.V, Show(w.V)))
			}
			continue
		}
		if !got[i].Same(w.Tok) {
			return mismatch("Query", q, args, want, fmt.Sprintf("token %d is %s instead of %s", i, got[i], w.Tok))
		}
	}
	if len(got) != len(want) {
		return mismatch("Query", q, args, want, fmt.Sprintf("goes on with unexpected %s", got[len(want)]))
	}
	if len(args) != k {
		return mismatch("Query", q, args, want, fmt.Sprintf("%d arguments for %d placeholders", len(args), k))
	}
	return nil
}

// MatchNamed checks a named rendering.
func MatchNamed(q string, args map[string]interface{}, want []Tok) error {
	got, err := pg.Lex(q, pg.Options{EmptyIdent: emptyIdent(want)})
	if err != nil {
		return mismatch("NamedQuery", q, args, want, err.Error())
	}
	k := 0
	for i, w := range want {
		if i >= len(got) {
			return mismatch("NamedQuery", q, args, want, fmt.Sprintf("ends before expected token %d (%s)", i, Text(want[i:i+1])))
		}
		if w.Slot {
			k++
			name := "arg_" + strconv.Itoa(k)
			if got[i].K != pg.Param || got[i].S != ":"+name {
				return mismatch("NamedQuery", q, args, want, fmt.Sprintf("token %d is %s instead of placeholder :%s", i, got[i], name))
			}
			v, ok := args[name]
			if !ok {
				return mismatch("NamedQuery", q, args, want, "no argument "+name)
			}
			if !SameValue(w.V, v) {
				return mismatch("NamedQuery", q, args, want, fmt.Sprintf("argument %s is %T(%s) instead of %T(%s)", name, v, Show(v), w.V, Show(w.V)))
			}
			continue
		}
		if !got[i].Same(w.Tok) {
			return mismatch("NamedQuery", q, args, want, fmt.Sprintf("token %d is %s instead of %s", i, got[i], w.Tok))
		}
	}
	if len(got) != len(want) {
		return mismatch("NamedQuery", q, args, want, fmt.Sprintf("goes on with unexpected %s", got[len(want)]))
	}
	if len(args) != k {
		return mismatch("NamedQuery", q, args, want, fmt.Sprintf("%d arguments for %d placeholders", len(args), k))
	}
	return nil
}

// MatchString checks a rendering with literals. Statements binding a value
// without SQL literal are not checked.
func MatchString(q string, want []Tok) error {
	exp := make([]pg.Tok, 0, len(want))
	for _, w := range want {
		if !w.Slot {
			exp = append(exp, w.Tok)
			continue
		}
		lit, ok := Literal(w.V)
		if !ok {
			return nil
		}
		exp = append(exp, lit...)
	}
	got, err := pg.Lex(q, pg.Options{Backslash: true, EmptyIdent: emptyIdent(want)})
	if err != nil {
		return mismatch("String", q, nil, want, err.Error())
	}
	for i, e := range exp {
		if i >= len(got) {
			return mismatch("String", q, nil, want, fmt.Sprintf("ends before expected token %d (%s)", i, e))
		}
		if !got[i].Same(e) {
			return mismatch("String", q, nil, want, fmt.Sprintf("token %d is %s instead of %s", i, got[i], e))
		}
	}
	if len(got) != len(exp) {
		return mismatch("String", q, nil, want, fmt.Sprintf("goes on with unexpected %s", got[len(exp)]))
	}
	return nil
}

// PG is the expectation as tokens, slots being placeholders.
func PG(toks []Tok) []pg.Tok {
	out := make([]pg.Tok, len(toks))
	for i, t := range toks {
		out[i] = t.Tok
		if t.Slot {
			out[i] = pg.Tok{K: pg.Param, S: "?"}
		}
	}
	return out
}
