package checks

import (
	"database/sql"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
	"verifmc/pg"
)

// shownAt gives the tokens which String() writes for a value, in some place;
// the rest of the statement is checked.
func shownAt(x *engine.X, place int, v interface{}) (toks []pg.Tok, text string) {
	var before, after []kit.Tok
	switch place {
	case 0:
		text = lk.Delete("t").Where(lk.Condition("c").Equal(v)).And(lk.Condition("d").Equal("end")).String()
		before = kit.Cat(kit.R("DELETE FROM"), kit.I("t"), kit.R("WHERE (("), kit.I("c"), kit.R("="))
		after = kit.Cat(kit.R(") AND ("), kit.I("d"), kit.R("= 'end' ))"))
	case 1:
		text = lk.Insert("t").Columns("a", "b", "c").Values("first", v, "last").String()
		before = kit.Cat(kit.R("INSERT INTO"), kit.I("t"), kit.Paren(kit.List(kit.I("a"), kit.I("b"), kit.I("c"))), kit.R("VALUES ('first' ,"))
		after = kit.R(", 'last')")
	case 2:
		text = lk.Update("t").Set(lk.Pair("a", v), lk.Pair("b", "last")).Where(lk.Condition("c").Equal(lk.Raw("x"))).String()
		before = kit.Cat(kit.R("UPDATE"), kit.I("t"), kit.R("SET"), kit.I("a"), kit.R("="))
		after = kit.Cat(kit.P(","), kit.I("b"), kit.R("= 'last' WHERE ("), kit.I("c"), kit.R("= x )"))
	case 3:
		text = lk.Select("a").From("t").Where(lk.Condition("c").In("x", v, "y")).String()
		before = kit.Cat(kit.R("SELECT"), kit.I("a"), kit.R("FROM"), kit.I("t"), kit.R("WHERE ("), kit.I("c"), kit.R("IN ('x' ,"))
		after = kit.R(", 'y' ))")
	case 4:
		left, ok := v.(stmt.Value)
		if !ok {
			left = lk.Value(v)
		}
		text = lk.Select("a").From("t").Where(left.Overlap(v)).String()
		before = kit.Cat(kit.R("SELECT"), kit.I("a"), kit.R("FROM"), kit.I("t"), kit.R("WHERE ("))
		after = kit.R(")")
	}
	x.Checked()
	got, err := pg.Lex(text, pg.Options{Backslash: true})
	if err != nil {
		x.Fail("literal", "%T(%s): %v\n  in %s", v, kit.Show(v), err, short(text))
	}
	if len(got) < len(before)+len(after)+1 {
		x.Fail("literal", "%T(%s) swallows what follows\n  in %s", v, kit.Show(v), short(text))
	}
	for i, w := range before {
		if !got[i].Same(w.Tok) {
			x.Fail("literal", "%T(%s) changes what precedes it\n  in %s", v, kit.Show(v), short(text))
		}
	}
	off := len(got) - len(after)
	for i, w := range after {
		if !got[off+i].Same(w.Tok) {
			x.Fail("literal", "%T(%s) changes what follows it\n  in %s", v, kit.Show(v), short(text))
		}
	}
	return got[len(before):off], text
}

var timeText = regexp.MustCompile(`^(\d{4,})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?\+00(?::?00)?$`)

// denotes tells whether a literal is the value.
func denotes(toks []pg.Tok, v interface{}) bool {
	one := func(k pg.Kind) bool { return len(toks) == 1 && toks[0].K == k }
	word := func(w string) bool { return one(pg.Word) && strings.EqualFold(toks[0].S, w) }
	num := func() (string, bool) {
		t := toks
		for len(t) >= 3 && t[0].S == "(" && t[len(t)-1].S == ")" {
			t = t[1 : len(t)-1]
		}
		sign := ""
		if len(t) == 2 && t[0].K == pg.Op && t[0].S == "-" {
			sign, t = "-", t[1:]
		}
		if len(t) != 1 || t[0].K != pg.Num {
			return "", false
		}
		return sign + t[0].S, true
	}
	integer := func(b *big.Int) bool {
		s, ok := num()
		if !ok {
			return false
		}
		n, ok := new(big.Int).SetString(s, 10)
		return ok && n.Cmp(b) == 0
	}
	switch t := v.(type) {
	case nil:
		return word("NULL")
	case string:
		return one(pg.Str) && toks[0].S == t
	case []byte:
		if t == nil { // what drivers bind for it
			return word("NULL")
		}
		// decode('...', 'hex'), or '\x...'.
		if len(toks) == 6 && strings.EqualFold(toks[0].S, "decode") && toks[1].S == "(" && toks[2].K == pg.Str && toks[3].S == "," && toks[4].S == "hex" && toks[5].S == ")" {
			b, err := hex.DecodeString(toks[2].S)
			return err == nil && string(b) == string(t)
		}
		return one(pg.Str) && strings.HasPrefix(toks[0].S, `\x`) && toks[0].S[2:] == hex.EncodeToString(t)
	case bool:
		return t && word("true") || !t && word("false")
	case time.Time:
		if !one(pg.Str) {
			return false
		}
		m := timeText.FindStringSubmatch(toks[0].S)
		if m == nil {
			return false
		}
		n := func(i int) int { k, _ := strconv.Atoi(m[i]); return k }
		us := 0
		if m[7] != "" {
			us, _ = strconv.Atoi((m[7] + "000000")[:6])
		}
		u := time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), us*1000, time.UTC)
		d := t.Sub(u)
		return d >= 0 && d < time.Microsecond
	case float64:
		s, ok := num()
		if !ok {
			return false
		}
		f, err := strconv.ParseFloat(s, 64)
		return err == nil && f == t
	case float32:
		s, ok := num()
		if !ok {
			return false
		}
		f, err := strconv.ParseFloat(s, 32)
		return err == nil && float32(f) == t
	case uint, uint8, uint16, uint32, uint64:
		b, _ := new(big.Int).SetString(fmt.Sprintf("%d", t), 10)
		return integer(b)
	case int, int8, int16, int32, int64:
		b, _ := new(big.Int).SetString(fmt.Sprintf("%d", t), 10)
		return integer(b)
	}
	return false
}

func checkLiteral(x *engine.X, place int, v, means interface{}) {
	toks, text := shownAt(x, place, v)
	if place == 4 {
		// value && value
		if len(toks)%2 == 0 || !denotes(toks[:len(toks)/2], means) || toks[len(toks)/2].S != "&&" || !denotes(toks[len(toks)/2+1:], means) {
			x.Fail("literal", "%T(%s) is shown as %v\n  in %s", v, kit.Show(v), toks, short(text))
		}
		return
	}
	if !denotes(toks, means) {
		x.Fail("literal", "%T(%s) is shown as %v\n  in %s", v, kit.Show(v), toks, short(text))
	}
}

// forms gives a value and the drivers and encoders which produce it.
func forms(v interface{}) []interface{} {
	out := []interface{}{v, valuer{v}, valuer{valuer{v}}, &ptrValuer{v}}
	switch t := v.(type) {
	case string:
		out = append(out, strEnc{t}, sql.NullString{String: t, Valid: true})
	case int64:
		out = append(out, intEnc{t}, sql.NullInt64{Int64: t, Valid: true})
	case bool:
		out = append(out, boolEnc{t}, sql.NullBool{Bool: t, Valid: true})
	case time.Time:
		out = append(out, timeEnc{t}, sql.NullTime{Time: t, Valid: true})
	case float64:
		out = append(out, sql.NullFloat64{Float64: t, Valid: true})
	case nil:
		out = append(out, sql.NullString{String: "x"}, (*ptrValuer)(nil), (*time.Time)(nil), sql.NullInt64{Int64: 3})
	}
	return out
}

func checkForms(x *engine.X, v interface{}) {
	places := 4
	for i, f := range forms(v) {
		if i > 0 && !x.Thorough {
			places = 1
		}
		for p := 0; p < places; p++ {
			checkLiteral(x, p, f, v)
		}
		// lk.Value binds an encoder itself: only values and drivers there.
		switch f.(type) {
		case strEnc, intEnc, boolEnc, timeEnc:
		case *time.Time:
		default:
			checkLiteral(x, 4, f, v)
		}
	}
}

// Named types, which lk.Value binds as they are.
type (
	namedString  string
	shownText    string
	namedBytes   []byte
	namedInt     int
	namedInt8    int8
	namedInt64   int64
	namedUint8   uint8
	namedUint32  uint32
	namedUint64  uint64
	namedFloat32 float32
	namedFloat64 float64
	namedBool    bool
)

func (shownText) String() string { return "') OR ('" }

// namedForms gives values of named types and pointers which hold a value.
func namedForms(v interface{}) []interface{} {
	switch t := v.(type) {
	case string:
		n, m := namedString(t), shownText(t)
		p, q := &t, &n
		return []interface{}{n, m, p, q, &p, &m, &q, valuer{n}, valuer{m}, valuer{p}, &ptrValuer{q}}
	case []byte:
		n := namedBytes(t)
		r := json.RawMessage(t)
		return []interface{}{n, r, &t, &n, &r, valuer{n}, valuer{&r}}
	case int64:
		n := namedInt64(t)
		out := []interface{}{n, &t, &n, time.Duration(t), valuer{n}, namedInt(t)}
		if t >= -128 && t < 128 {
			m := namedInt8(t)
			out = append(out, m, &m)
		}
		if t >= 0 {
			m := namedUint64(t)
			out = append(out, m, &m)
		}
		if t >= 0 && t < 1<<32 {
			m := namedUint32(t)
			out = append(out, m, &m)
		}
		if t >= 0 && t < 256 {
			m := namedUint8(t)
			out = append(out, m, &m, valuer{&m})
		}
		return out
	case float64:
		n := namedFloat64(t)
		out := []interface{}{n, &t, &n, valuer{n}}
		if m := namedFloat32(t); float64(m) == t {
			out = append(out, m, &m)
		}
		return out
	case bool:
		n := namedBool(t)
		p := &n
		return []interface{}{n, &t, p, &p, valuer{n}}
	case time.Time:
		p := &t
		return []interface{}{p, &p, valuer{p}}
	}
	return []interface{}{(*string)(nil), (*namedString)(nil), (*int)(nil), (*namedBool)(nil), (*float64)(nil), (*[]byte)(nil), (*time.Time)(nil), valuer{(*string)(nil)}, valuer{(*time.Time)(nil)}}
}

// c17Named: values of named types and pointers.
func c17Named(x *engine.X) {
	var v interface{}
	switch x.Pick(7, "type") {
	case 0:
		s := ""
		for i := x.Pick(tier(x, 3, 4), "pieces"); i > 0; i-- {
			s += textPieces[x.Pick(len(textPieces), "piece")]
		}
		v = s
	case 1:
		b := make([]byte, x.Pick(3, "bytes"))
		for i := range b {
			b[i] = []byte{0, 1, '0', '\'', '\\', 'a', 0x7f, 0x80, 0xff}[x.Pick(9, "byte")]
		}
		v = b
	case 2:
		n := int64(1)<<uint(x.Pick(64, "exponent")) + int64(x.Pick(3, "distance")) - 1
		if x.PickBool("negative") {
			n = -n
		}
		v = n
	case 3:
		f := math.Ldexp([]float64{0, 1, 1.1, 1.5, 0x1.fffffep0, math.Pi, -1, -4.0 / 3}[x.Pick(8, "mantissa")], x.Pick(2097, "exponent")-1074)
		if math.IsInf(f, 0) {
			x.Skip()
		}
		v = f
	case 4:
		v = x.PickBool("value")
	case 5:
		v = time.Date([]int{1, 1969, 2024, 9999}[x.Pick(4, "year")], 12, 31, 23, 59, 59, []int{0, 1000, 999999999, 120000000}[x.Pick(4, "fraction")], []*time.Location{time.FixedZone("", -3600), time.UTC, time.FixedZone("", 3600), time.FixedZone("UTC", 7200)}[x.Pick(4, "zone")])
	}
	x.Op("%T", v)
	for i, f := range namedForms(v) {
		for p := 0; p < 4; p++ {
			if p == 0 || x.Thorough || i%4 == p {
				checkLiteral(x, p, lk.Value(f), v)
			}
		}
		checkLiteral(x, 4, lk.Value(f), v)
	}
	x.State(fmt.Sprintf("%T%s", v, kit.Show(v)))
}

// c17Runes: every character, alone and among others.
func c17Runes(x *engine.X) {
	page := x.Pick(0x110000/256, "block")
	for i := 0; i < 256; i++ {
		r := rune(page*256 + i)
		if !utf8.ValidRune(r) {
			continue
		}
		x.Op("U+%04X", r)
		s := string(r)
		checkLiteral(x, 0, s, s)
		for _, o := range []string{"'", `\`} {
			checkLiteral(x, 1, s+o, s+o)
			checkLiteral(x, 2, o+s, o+s)
		}
		if page < 8 || x.Thorough {
			checkLiteral(x, 3, valuer{s + "'" + s}, s+"'"+s)
			checkLiteral(x, 3, strEnc{"a" + s + `\`}, "a"+s+`\`)
		}
	}
	x.State(fmt.Sprint(page))
}

// textPieces are the pieces of text that matter in a literal.
var textPieces = []string{"'", `\`, "\n", "\r", "\t", "\x00", `"`, "n", "a", "x27", "u0027", "$1", "--", "/*", "*/", ";", "é", "😀", "\u2028", "\b", "E", "$$", "?", ":arg_1", "0", "\x7f", ""}

// c17Strings: every short string of the characters that matter.
func c17Strings(x *engine.X) {
	alpha := textPieces
	n := tier(x, 3, 4)
	s := ""
	for i := 0; i < n; i++ {
		s += alpha[x.Pick(len(alpha), "piece")]
	}
	x.Op("%q", s)
	p := 0
	if n%2 == 1 {
		p = len(s) % 4
	}
	checkLiteral(x, p, s, s)
	checkLiteral(x, 4, s, s)
	checkLiteral(x, 0, valuer{s}, s)
	checkLiteral(x, 0, strEnc{s}, s)
	x.State(s)
}

// c17Long: long strings and bytes.
func c17Long(x *engine.X) {
	n := []int{63, 64, 65, 255, 256, 1023, 4096, 70000}[x.Pick(8, "length")]
	u := []string{"'", `\`, "a", "é", "\n", "''\\", "\x00"}[x.Pick(7, "unit")]
	s := strings.Repeat(u, n)
	for _, v := range []interface{}{s, s + "'", `\` + s, []byte(s)} {
		checkForms(x, v)
	}
	x.State(u, fmt.Sprint(n))
}

// c17Lengths: texts and bytes of every length up to some thousands and around
// powers of two and of ten, where a literal written in blocks would show.
func c17Lengths(x *engine.X) {
	kind := x.Pick(6, "kind")
	block := x.Pick(tier(x, 70, 260)+2*len(longLengths), "lengths")
	from, to := block*32, block*32+32
	if k := block - tier(x, 70, 260); k >= 0 {
		from = longLengths[k%len(longLengths)] - 2
		if k >= len(longLengths) {
			from *= 3
		}
		to = from + 5
	}
	for n := from; n < to; n++ {
		x.Op("%d", n)
		var v interface{}
		switch kind {
		case 0, 1:
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i*7 + i>>8 + 1)
			}
			v = b
			if kind == 1 && n > 0 {
				b[n-1] = 0
				b[0] = 0xff
			}
		case 2:
			v = strings.Repeat("abcdefghijk", n/11+1)[:n]
		case 3:
			v = strings.Repeat("z", n%2) + strings.Repeat("é", n/2)
		case 4:
			v = strings.Repeat("x", n) + "'"
		case 5:
			v = strings.Repeat("\\", n) + "y"
		}
		checkLiteral(x, n%5, v, v)
	}
	x.State(fmt.Sprint(kind, block))
}

var longLengths = []int{4096, 5000, 8000, 8192, 10000, 12288, 16000, 16384, 20000, 32000, 32768, 40000, 50000, 60000, 65000, 65535, 65536, 70000, 100000, 131072, 200000, 262144, 500000, 1000000, 1048576}

// c17Bytes: all pairs of bytes.
func c17Bytes(x *engine.X) {
	a := byte(x.Pick(256, "first byte"))
	checkForms(x, []byte{a})
	for b := 0; b < 256; b++ {
		v := []byte{a, byte(b)}
		x.Op("%x", v)
		checkLiteral(x, b%5, v, v)
		checkLiteral(x, b%4, valuer{v}, v)
	}
	checkForms(x, []byte{})
	checkForms(x, []byte(nil))
	checkLiteral(x, 4, lk.Value(namedBytes(nil)), []byte(nil))
	x.State(fmt.Sprint(a))
}

// c17Numbers: integers of every type around the powers of two.
func c17Numbers(x *engine.X) {
	base := new(big.Int).Lsh(big.NewInt(1), uint(x.Pick(65, "exponent")))
	d := tier(x, 2, 50)
	base.Add(base, big.NewInt(int64(x.Pick(2*d+1, "distance")-d)))
	if x.PickBool("negative") {
		base.Neg(base)
	}
	for _, n := range exactly(base) {
		if !n.must {
			continue
		}
		if _, ok := n.v.(string); ok {
			continue
		}
		x.Op("%T(%v)", n.v, n.v)
		checkForms(x, n.v)
	}
	x.State(base.String())
}

// c17Floats: every exponent with patterns of mantissas.
func c17Floats(x *engine.X) {
	e := x.Pick(2047, "exponent")
	mantissas := []uint64{0, 1, 2, 3, 1 << 51, 1<<52 - 1, 0x5555555555555, 0xAAAAAAAAAAAAA, 1 << 29, 1<<29 - 1, 0x123456789abcd}
	for _, m := range mantissas {
		for s := uint64(0); s < 2; s++ {
			f := math.Float64frombits(s<<63 | uint64(e)<<52 | m)
			x.Op("%g", f)
			checkForms(x, f)
		}
	}
	if e < 255 {
		for m := uint32(0); m < 1<<23; m += tierU(x, 104729, 1009) {
			for s := uint32(0); s < 2; s++ {
				f := math.Float32frombits(s<<31 | uint32(e)<<23 | m)
				checkLiteral(x, int(m)%5, f, f)
			}
		}
	}
	// Decimal ones.
	f, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", e-1023), 64)
	if !math.IsInf(f, 0) {
		checkForms(x, f)
		checkForms(x, -f)
	}
	checkForms(x, float64(e)/10)
	checkForms(x, float32(e)/100)
	x.State(fmt.Sprint(e))
}

func tierU(x *engine.X, quick, thorough uint32) uint32 {
	if x.Thorough {
		return thorough
	}
	return quick
}

// c17Times: dates, fractions of a second and zones.
func c17Times(x *engine.X) {
	years := []int{1, 99, 100, 999, 1000, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2016, 2023, 2024, 2038, 2100, 9998}
	y := years[x.Pick(len(years), "year")]
	md := [][2]int{{1, 1}, {2, 28}, {2, 29}, {3, 1}, {6, 30}, {9, 9}, {10, 10}, {12, 31}}
	z := []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("a", -3600*11), time.FixedZone("b", 19800), time.FixedZone("c", 14*3600), time.FixedZone("d", 1), time.FixedZone("e'", -59), time.FixedZone("UTC", 3600), time.FixedZone("GMT", -7200), time.FixedZone("Z", 19800), time.FixedZone("Local", 60)}[x.Pick(11, "zone")]
	for _, d := range md {
		for _, h := range [][3]int{{0, 0, 0}, {23, 59, 59}, {9, 5, 7}, {12, 30, 1}} {
			for _, ns := range []int{0, 1, 999, 1000, 1001, 10000, 100000, 500000, 999000, 999999, 1000000, 120000000, 123456000, 123456789, 999999000, 999999499, 999999500, 999999999} {
				t := time.Date(y, time.Month(d[0]), d[1], h[0], h[1], h[2], ns, z)
				if t.UTC().Year() < 1 {
					continue // a date before Christ
				}
				x.Op("%v", t)
				checkForms(x, t)
				checkLiteral(x, 0, &t, t)
			}
		}
	}
	x.State(fmt.Sprint(y), z.String())
}

// c17Small: booleans and NULL.
func c17Small(x *engine.X) {
	for _, v := range []interface{}{true, false} {
		checkForms(x, v)
	}
	for _, v := range forms(nil) {
		if v == nil {
			continue
		}
		for p := 0; p < 4; p++ {
			checkLiteral(x, p, v, nil)
		}
	}
	x.State("small")
}

func init() {
	register("C17", func() engine.Check {
		return engine.Check{ID: "C17", Scenarios: []engine.Scenario{
			{Name: "characters", Fn: c17Runes, Bounds: "all 1,112,064 characters, alone and next to a quote or a backslash"},
			{Name: "strings", Fn: c17Strings, Bounds: "every sequence of 3 (thorough 4) of 27 pieces of text"},
			{Name: "long", Fn: c17Long, Bounds: "8 lengths x 7 contents, as string and bytes"},
			{Name: "lengths", Fn: c17Lengths, Bounds: "bytes and texts (one or two bytes a character, a quote at the end, backslashes) of every length up to 2239 (thorough 8319) and within 2 of 50 lengths up to 3 million"},
			{Name: "bytes", Fn: c17Bytes, Bounds: "all sequences of 1 and 2 bytes"},
			{Name: "integers", Fn: c17Numbers, Bounds: "every power of 2 plus or minus 2 (thorough 50), and its opposite, in every integer type"},
			{Name: "floats", Fn: c17Floats, Bounds: "float64: every exponent x 11 mantissas x both signs, and powers of 10; float32: every exponent x a mantissa in 104729 (thorough 1009)"},
			{Name: "times", Fn: c17Times, Bounds: "18 years x 8 days x 4 hours x 18 fractions of a second x 7 zones"},
			{Name: "named", Fn: c17Named, Bounds: "named types and pointers (1-2 levels) given by lk.Value or produced by a driver: texts of 0-2 (thorough 3) of 27 pieces, 0-2 of 9 bytes, powers of 2 and neighbours, float64 of 8 mantissas x all exponents, booleans, times, NULL"},
			{Name: "small", Fn: c17Small, Bounds: "booleans and NULL, in all the forms"},
		}, Assumptions: []string{
			"strings are valid UTF-8; dates are in the years 1 to 9999",
			"literals are read with backslash escapes, as String() writes them; a driver.Valuer which fails cannot be shown",
			"slices, maps, NaN and infinities have no literal in SQL",
		}}
	})
}
