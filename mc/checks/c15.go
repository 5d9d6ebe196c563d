package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"

	"verifmc/engine"
	"verifmc/kit"
)

// number is a representation of a number: exact tells which one it is (nil:
// none), must whether it has to be accepted when it is legal.
type number struct {
	v     interface{}
	exact *big.Int
	must  bool
}

type myInt int
type myString string

var decimal = regexp.MustCompile(`^[+-]?[0-9]+$`)
var canonical = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)

func textNumber(s string) number {
	n := number{v: s}
	if decimal.MatchString(s) {
		n.exact, _ = new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
		n.must = canonical.MatchString(s)
	}
	return n
}

// checkNumber decides a number as limit and as offset.
func checkNumber(x *engine.X, n number, where int) {
	for _, limit := range []bool{true, false} {
		legal := n.exact != nil && n.exact.IsInt64() && (n.exact.Sign() > 0 || n.exact.Sign() == 0 && !limit)
		clause := "OFFSET"
		if limit {
			clause = "LIMIT"
		}
		what := fmt.Sprintf("%s %T(%v)", clause, n.v, n.v)
		x.Op("%s", what)
		x.Checked()
		h := kit.H{M: kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("t"), Suffix: kit.R("FOR UPDATE")}}
		p, v := x.Try(func() {
			set := func(s lkSelect) lkSelect {
				if limit {
					return s.Limit(n.v)
				}
				return s.Offset(n.v)
			}
			switch where {
			case 0:
				h.S = set(lk.Select("a").From("t").Suffix("FOR UPDATE"))
			case 1: // with the other clause
				if limit {
					h.S = set(lk.Select("a").Offset(77).From("t").Suffix("FOR UPDATE"))
				} else {
					h.S = set(lk.Select("a").From("t").Suffix("FOR UPDATE").Limit(77))
				}
			case 2: // in a subquery
				h.S = set(lk.Select("a").From("t").Suffix("FOR UPDATE"))
			}
		})
		if p {
			if legal && n.must {
				x.Fail("refused", "%s was refused: %v", what, v)
			}
			continue
		}
		if !legal {
			s := ""
			x.Try(func() { s = h.S.String() })
			x.Fail("accepted", "%s was not refused: %s", what, s)
		}
		if where == 1 {
			if limit {
				h.M.Offset = kit.R("77")
			} else {
				h.M.Limit = kit.R("77")
			}
		}
		t := kit.R(n.exact.String())
		if limit {
			h.M.Limit = t
		} else if n.exact.Sign() > 0 {
			h.M.Offset = t
		}
		if where == 2 {
			ts, _ := h.M.Body()
			h = kit.H{D: lk.Delete("d").Where(lk.Condition("c").In(h.S)), M: kit.Model{Kind: kit.Delete, From: kit.I("d"), Where: kit.Paren(kit.I("c"), kit.R("IN"), kit.Paren(ts))}}
		}
		verify(x, h, kit.FAll, "number", what)
	}
}

func bi(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return b
}

// exactly lists every type which can hold b, holding it.
func exactly(b *big.Int) []number {
	var out []number
	add := func(v interface{}, must bool) { out = append(out, number{v, b, must}) }
	fits := func(lo, hi string) bool { return b.Cmp(bi(lo)) >= 0 && b.Cmp(bi(hi)) <= 0 }
	if b.IsInt64() {
		n := b.Int64()
		add(n, true)
		add(int(n), true)
		if n > 0 {
			add(stmt.NewLimit(n), false)
		}
		add(myInt(n), false)
		add(&n, false)
	}
	if fits("-128", "127") {
		add(int8(b.Int64()), true)
	}
	if fits("-32768", "32767") {
		add(int16(b.Int64()), true)
	}
	if fits("-2147483648", "2147483647") {
		add(int32(b.Int64()), true)
	}
	if b.Sign() >= 0 && b.IsUint64() {
		u := b.Uint64()
		add(u, true)
		add(uint(u), true)
		add(uintptr(u), false)
		if u <= 255 {
			add(uint8(u), true)
		}
		if u <= 65535 {
			add(uint16(u), true)
		}
		if u <= math.MaxUint32 {
			add(uint32(u), true)
		}
	}
	out = append(out, textNumber(b.String()))
	add(json.Number(b.String()), false)
	add(myString(b.String()), false)
	add(*b, false)
	add(b, false)
	return out
}

// c15Boundaries: the numbers around the powers of 2 and of 10, in every type.
func c15Boundaries(x *engine.X) {
	where := x.Pick(3, "place")
	base := big.NewInt(1)
	if x.PickBool("decimal") {
		base.Exp(big.NewInt(10), big.NewInt(int64(x.Pick(21, "exponent"))), nil)
	} else {
		base.Lsh(base, uint(x.Pick(67, "exponent")))
	}
	d := tier(x, 2, 40)
	base.Add(base, big.NewInt(int64(x.Pick(2*d+1, "distance")-d)))
	if x.PickBool("negative") {
		base.Neg(base)
	}
	for _, n := range exactly(base) {
		if l, ok := n.v.(stmt.Limit); ok {
			checkStatementNumber(x, l.Count)
			continue
		}
		checkNumber(x, n, where)
	}
	x.State(base.String(), fmt.Sprint(where))
}

// checkStatementNumber decides the Limit and Offset statements, whatever they
// hold.
func checkStatementNumber(x *engine.X, n int64) {
	for _, limit := range []bool{true, false} {
		legal := n > 0 || n == 0 && !limit
		h := kit.H{M: kit.Model{Kind: kit.Select, Exprs: kit.I("a"), From: kit.I("t")}}
		x.Checked()
		p, v := x.Try(func() {
			if limit {
				h.S = lk.Select("a").From("t").Limit(lk.Limit(n))
			} else {
				h.S = lk.Select("a").From("t").Offset(lk.Offset(n))
			}
		})
		if p == legal {
			x.Fail("statement", "statement of %d given as limit (%v) or offset: refused is %v (%v)", n, limit, p, v)
		}
		if p {
			continue
		}
		if limit {
			h.M.Limit = kit.R(fmt.Sprint(n))
		} else if n > 0 {
			h.M.Offset = kit.R(fmt.Sprint(n))
		}
		verify(x, h, kit.FAll, "statement", fmt.Sprintf("statement of %d", n))
	}
}

// c15All: every number of 16 bits, in every type.
func c15All(x *engine.X) {
	hi := x.Pick(512, "high bits") - 256
	for lo := 0; lo < 256; lo++ {
		n := int64(hi)*256 + int64(lo)
		b := big.NewInt(n)
		for _, e := range exactly(b) {
			if _, ok := e.v.(stmt.Limit); !ok {
				checkNumber(x, e, 0)
			}
		}
		checkStatementNumber(x, n)
	}
	x.State(fmt.Sprint(hi))
}

// c15Texts: every short text, and every text around the largest numbers.
func c15Texts(x *engine.X) {
	alpha := []string{"0", "1", "9", "-", "+", " ", ".", "e", "x", "_", "a", "\x00", "٣", "\n", ",", "'"}
	n := x.Pick(tier(x, 5, 6), "length")
	s := ""
	for i := 0; i < n; i++ {
		s += alpha[x.Pick(len(alpha), "character")]
	}
	checkNumber(x, textNumber(s), 0)
	x.State(s)
}

// c15Others: what is no number.
func c15Others(x *engine.X) {
	n := 5
	var f interface{} = struct{}{}
	others := []interface{}{nil, true, false, 5.0, float32(5), math.NaN(), math.Inf(1), 1e300, complex(5, 0), []byte("5"), []int{5}, [1]int{5}, &n, map[string]int{"a": 5}, f, func() int { return 5 },
		make(chan int), lk.Raw("5"), lk.Value(5), lk.Condition("a"), intEnc{5}, strEnc{"5"}, valuer{int64(5)}, lk.Select("a"), 'a' - 'a' - 1, "five", "", " ", "5 ", " 5", "5;", "5; DROP TABLE t", "1e3", "0x5", "0b1", "0o7", "1_000", "5.0", "5.", ".5", "--5", "+-5", "９", "٣", "NULL", "ALL",
		"9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "00000000000000000000000000000000", "000000000000000000000000000000005", "-0", "+0", "+5"}
	v := others[x.Pick(len(others), "value")]
	num := number{v: v}
	if s, ok := v.(string); ok {
		num = textNumber(s)
	}
	switch v.(type) {
	case intEnc, strEnc, valuer, *int, stmt.Raw, stmt.Value, float32, float64, complex128, []byte, []int, [1]int:
		// Could be read as 5, if at all.
		num.exact = big.NewInt(5)
		if f, ok := v.(float64); ok && f != 5 {
			num.exact = nil
		}
		if _, ok := v.(stmt.Raw); ok {
			num.exact = nil
		}
	}
	for where := 0; where < 3; where++ {
		checkNumber(x, num, where)
	}
	// One statement for the other.
	mustRefuse(x, "statement", "an Offset given as limit", func() { lk.Select("a").Limit(lk.Offset(5)) })
	mustRefuse(x, "statement", "a Limit given as offset", func() { lk.Select("a").Offset(lk.Limit(5)) })
	x.State(fmt.Sprintf("%T%v", v, v))
}

func init() {
	register("C15", func() engine.Check {
		return engine.Check{ID: "C15", Scenarios: []engine.Scenario{
			{Name: "boundaries", Fn: c15Boundaries, Bounds: "every power of 2 up to 2^66 and of 10 up to 10^20, plus or minus at most 2 (thorough 40), and their opposites, in every Go type which can hold them, as text and as statements, alone, with the other clause and in a subquery"},
			{Name: "all", Fn: c15All, Bounds: "every number from -65536 to 65535 in every Go type which can hold it, as text and as statements"},
			{Name: "texts", Fn: c15Texts, Bounds: "every text of at most 4 (thorough 5) of 16 characters"},
			{Name: "others", Fn: c15Others, Bounds: "values of other types and texts which are no decimal number"},
		}, Assumptions: []string{"types and texts which are not documented as numbers (named types, pointers, signs, leading zeros) may be refused; when accepted they give the number they hold"}}
	})
}
