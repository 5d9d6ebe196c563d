package checks

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"

	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/token"

	"verifmc/engine"
)

// lexTok is what the specification of the lexer says about a piece of input.
type lexTok struct {
	t token.Type
	v string
}

// keywords of the lexer, listed independently.
var sqlKeywords = []string{"SELECT", "UPDATE", "INSERT", "DELETE", "FROM", "WHERE", "AND", "OR", "LIMIT", "OFFSET", "SET", "AS",
	"INNER", "CROSS", "LEFT", "RIGHT", "JOIN", "ON", "GROUP", "BY", "HAVING", "ORDER", "DISTINCT", "ONLY", "USING", "RETURNING",
	"VALUES", "INTO", "CONFLICT", "DO", "NOTHING", "WITH", "NOT", "EXISTS", "COUNT", "MAX", "MIN", "SUM"}

var keywordSet = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range sqlKeywords {
		m[k] = true
	}
	return m
}()

func wordRune(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.'
}

// specLex is the specification: words, and single runes otherwise.
func specLex(s string) []lexTok {
	var out []lexTok
	rs := []rune(s)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case r == ' ' || r == '\t' || r == '\n' || r == '\r':
			i++
		case wordRune(r):
			j := i
			for j < len(rs) && wordRune(rs[j]) {
				j++
			}
			w := string(rs[i:j])
			t := token.Literal
			if u := strings.ToUpper(w); keywordSet[u] {
				t = token.Type(u)
			}
			out = append(out, lexTok{t, w})
			i = j
		default:
			t := token.Illegal
			if strings.ContainsRune("=*;,:()", r) {
				t = token.Type(string(r))
			}
			out = append(out, lexTok{t, string(r)})
			i++
		}
	}
	return out
}

// chunks delivers an input in pieces.
type chunks struct {
	data  string
	cuts  uint // bit i: a chunk ends after byte i
	zero  uint // bit i: an empty read before byte i
	fault int  // an error before byte fault (-1: none)
	kind  int  // which error
	with  bool // the last piece comes along with the end or the error
	pos   int
	err   error
	zeros uint
}

// readErrors are errors of readers that are not the end of the input.
var readErrors = []error{errors.New("fault"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite,
	context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, os.ErrClosed, errors.New("EOF"), fmt.Errorf("reading: %w", io.EOF),
	bufio.ErrBufferFull, bufio.ErrNegativeCount, net.ErrClosed, &os.PathError{Op: "read", Path: "f", Err: io.ErrUnexpectedEOF}, emptyError{}}

// emptyError says nothing.
type emptyError struct{}

func (emptyError) Error() string { return "" }

func (c *chunks) end() error {
	if c.fault >= 0 {
		return readErrors[c.kind]
	}
	return io.EOF
}

func (c *chunks) Read(p []byte) (int, error) {
	limit := len(c.data)
	if c.fault >= 0 {
		limit = c.fault
	}
	if c.pos < 60 && c.zero>>uint(c.pos)&1 == 1 && c.zeros>>uint(c.pos)&1 == 0 {
		c.zeros |= 1 << uint(c.pos)
		return 0, nil
	}
	if c.pos >= limit {
		return 0, c.end()
	}
	n := 0
	for n < len(p) && c.pos < limit {
		p[n] = c.data[c.pos]
		n++
		c.pos++
		if c.pos <= 60 && c.cuts>>uint(c.pos-1)&1 == 1 {
			break
		}
	}
	if c.with && c.pos >= limit {
		return n, c.end()
	}
	return n, nil
}

// lexAll reads every token; it reports a panic of the lexer.
func lexAll(x *engine.X, r io.Reader, bound int, iterator bool) (out []lexTok, panicked bool, val interface{}) {
	panicked, val = x.Try(func() {
		l := lexer.New(r)
		if iterator {
			it := l.Iterator()
			for it.HasNext() {
				t := it.Next()
				out = append(out, lexTok{t.Type, t.Value})
				if len(out) > bound {
					return
				}
			}
			return
		}
		for {
			t := l.Next()
			if t.Type == token.EOF {
				// The end stays the end.
				for i := 0; i < 3; i++ {
					if u := l.Next(); u.Type != token.EOF {
						out = append(out, lexTok{t.Type, t.Value}, lexTok{u.Type, u.Value})
						return
					}
				}
				return
			}
			out = append(out, lexTok{t.Type, t.Value})
			if len(out) > bound {
				return
			}
		}
	})
	return
}

func sameToks(a, b []lexTok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func checkLex(x *engine.X, s string, r func() io.Reader, how string) {
	want := specLex(s)
	for _, iterator := range []bool{false, true} {
		x.Checked()
		got, p, v := lexAll(x, r(), len(s)+4, iterator)
		if p {
			x.Fail("tokens", "%s %s: panic %v", short(s), how, v)
		}
		if !sameToks(got, want) {
			if len(got) > 40 {
				got = got[:40]
			}
			if len(want) > 40 {
				want = want[:40]
			}
			x.Fail("tokens", "%s %s (iterator %v):\n  got      %q\n  expected %q", short(s), how, iterator, got, want)
		}
	}
}

var lexAlphabet = []string{"a", "Z", "0", "_", ".", "=", "*", "(", ")", ";", ",", ":", " ", "\n", "\t", "\r", "-", "\"", "'", "\x00", "é", "\ufffd", "😀", "\u00a0", "\u2028", "\f", "N", "o"}

func c13Strings(x *engine.X) {
	n := tier(x, 4, 5)
	var b strings.Builder
	k := x.Pick(n+1, "length")
	for i := 0; i < k; i++ {
		b.WriteString(lexAlphabet[x.Pick(len(lexAlphabet), "rune")])
	}
	s := b.String()
	x.Op("%q", s)
	checkLex(x, s, func() io.Reader { return strings.NewReader(s) }, "")
	x.State(s)
}

// c13Delivery: all the ways of delivering short inputs.
func c13Delivery(x *engine.X) {
	alpha := []string{"a", "=", " ", "\n", "é", "On", "\x00", "😀"}
	n := tier(x, 4, 5)
	var b strings.Builder
	k := 1 + x.Pick(n, "length")
	for i := 0; i < k; i++ {
		b.WriteString(alpha[x.Pick(len(alpha), "rune")])
	}
	s := b.String()
	cuts := 1 << uint(len(s)-1)
	if len(s) > 9 {
		cuts = 1 << 8
	}
	with := x.PickBool("end with the last piece")
	for c := 0; c < cuts; c++ {
		x.Op("%q cut at %b, end with the last piece: %v", s, c, with)
		mk := func() io.Reader { return &chunks{data: s, cuts: uint(c), fault: -1, with: with} }
		checkLex(x, s, mk, fmt.Sprintf("cut at %b", c))
		if c&(c-1) == 0 || x.Thorough {
			mk := func() io.Reader { return &chunks{data: s, cuts: uint(c), zero: uint(c)<<1 | 1, fault: -1, with: with} }
			checkLex(x, s, mk, fmt.Sprintf("cut at %b with empty reads", c))
		}
		// A fault at every place.
		for f := 0; f <= len(s); f++ {
			kind := (c + f) % len(readErrors)
			if !x.Thorough && c&(c-1) != 0 && c != cuts-1 {
				break
			}
			x.Checked()
			for _, it := range []bool{false, true} {
				got, p, _ := lexAll(x, &chunks{data: s, cuts: uint(c), fault: f, kind: kind, with: with}, len(s)+4, it)
				if !p {
					x.Fail("fault", "%q with the read error %q after %d bytes: the lexer ended with %q as if it were the end of the input", s, readErrors[kind], f, got)
				}
			}
		}
	}
	x.State(s, fmt.Sprint(with))
}

// c13Errors: every error of a reader, at every place of an input.
func c13Errors(x *engine.X) {
	kind := x.Pick(len(readErrors), "error")
	s := []string{"", "a", "on a.b = c.d", "é😀 (", " \n", "a = b;", "left"}[x.Pick(7, "input")]
	f := x.Pick(len(s)+1, "place")
	c := &chunks{data: s, fault: f, kind: kind, with: x.PickBool("error with the last piece")}
	if x.PickBool("byte by byte") {
		c.cuts = 1<<uint(len(s)) - 1
	}
	iterator := x.PickBool("iterator")
	x.Op("%q with the error %q after %d bytes", s, readErrors[kind], f)
	x.Checked()
	if got, p, _ := lexAll(x, c, len(s)+4, iterator); !p {
		x.Fail("fault", "%q with the read error %q after %d bytes: the lexer ended with %q as if it were the end of the input", s, readErrors[kind], f, got)
	}
	x.State(s, fmt.Sprint(kind, f, c.with, c.cuts, iterator))
}

// c13Boundaries: inputs around the size of the buffer of the reader.
func c13Boundaries(x *engine.X) {
	words := []string{"word", "on", "=", "é", "😀", "(", "\n", " ", "\x00", "LEFT"}
	sizes := []int{4096, 8192, 65536}
	if x.Thorough {
		sizes = append(sizes, 16, 512, 1024, 2048, 16384, 1<<20)
	}
	size := sizes[x.Pick(len(sizes), "size")]
	fill := []string{" ", "a", "\n", "=", "é"}[x.Pick(5, "filling")]
	w := words[x.Pick(len(words), "token")]
	d := x.Pick(2*len(w)+4, "offset")
	pre := size - len(w) - 1 + d - len(w)
	s := strings.Repeat(fill, pre/len(fill)) + strings.Repeat(" ", pre%len(fill)) + w + " t" + fill
	x.Op("%d bytes of %q, then %q", pre, fill, w)
	checkLex(x, s, func() io.Reader { return strings.NewReader(s) }, "")
	// With a fault at the end.
	x.Checked()
	if got, p, _ := lexAll(x, &chunks{data: s, fault: len(s)}, len(s)+4, false); !p {
		x.Fail("fault", "%s with a read error at its end: %d tokens and no error", short(s), len(got))
	}
	x.State(fmt.Sprint(size), fill, w, fmt.Sprint(d))
}

// c13Volume: large inputs, of many tokens or of a single one.
func c13Volume(x *engine.X) {
	sizes := []int{1000, 1023, 1024, 1025, 4097, 32767, 32768, 65535, 65536, 65537, 100001}
	if x.Thorough {
		sizes = append(sizes, 1<<20-1, 1<<20, 1<<20+1, 1<<22+1)
	}
	n := sizes[x.Pick(len(sizes), "size")]
	unit := []string{"a", "a ", "=", "é", " ", "\n", "a.b = c.d AND\n", "((a)", ";", "\x00"}[x.Pick(10, "unit")]
	end := []string{"", "z", " z", "=", "\n"}[x.Pick(5, "end")]
	s := strings.Repeat(unit, n/len(unit)+1) + end
	x.Op("%d bytes of %q, then %q", len(s), unit, end)
	checkLex(x, s, func() io.Reader { return strings.NewReader(s) }, "")
	checkLex(x, s, func() io.Reader { return &chunks{data: s, cuts: 0x5555555, fault: -1, with: true} }, "in pieces")
	x.State(unit, end, fmt.Sprint(n))
}

// c13Words: keywords in every case, and their neighbours.
func c13Words(x *engine.X) {
	k := sqlKeywords[x.Pick(len(sqlKeywords), "keyword")]
	check := func(s string) {
		x.Op("%q", s)
		checkLex(x, s, func() io.Reader { return strings.NewReader(s) }, "")
	}
	for m := 0; m < 1<<uint(len(k)); m++ {
		b := []byte(k)
		for i := range b {
			if m>>uint(i)&1 == 1 {
				b[i] += 'a' - 'A'
			}
		}
		check(string(b))
	}
	l := strings.ToLower(k)
	for _, s := range []string{k + "_", "_" + k, k + "1", "1" + l, k + "." + l, "." + k, k + ".", k[:len(k)-1], k[1:], k + k, k + " " + l, k + "(" + l + ")", k + "=" + k, k + "\x00", k + "é" + k} {
		check(s)
	}
	for i := 1; i < len(k); i++ {
		check(k[:i] + " " + k[i:])
		check(k[:i] + "\u017f" + k[i:])
	}
	x.State(k)
}

// c13Pairs: words and symbols next to each other.
func c13Pairs(x *engine.X) {
	pieces := []string{"a", "b.c", "SELECT", "on", "and", "=", "*", "(", ")", ";", ",", ":", "!", "é", "\x00", "'"}
	seps := []string{"", " ", "\n", "\t\r"}
	n := tier(x, 3, 4)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pieces[x.Pick(len(pieces), "piece")])
		b.WriteString(seps[x.Pick(len(seps), "separator")])
	}
	s := b.String()
	x.Op("%q", s)
	checkLex(x, s, func() io.Reader { return strings.NewReader(s) }, "")
	x.State(s)
}

func init() {
	register("C13", func() engine.Check {
		return engine.Check{ID: "C13", Scenarios: []engine.Scenario{
			{Name: "strings", Fn: c13Strings, Bounds: fmt.Sprintf("every string of at most 4 (thorough 5) runes over %d", len(lexAlphabet))},
			{Name: "pieces", Fn: c13Pairs, Bounds: "every sequence of 3 (thorough 4) of 16 words and symbols with 4 separators"},
			{Name: "delivery", Fn: c13Delivery, Bounds: "every string of 1 to 4 (thorough 5) of 8 pieces x every way of cutting its bytes in chunks (256 beyond 9 bytes) x the end given with or after the last chunk x empty reads x a read error at every byte"},
			{Name: "read errors", Fn: c13Errors, Bounds: fmt.Sprintf("%d errors other than the end of the input (sentinels of the standard library, wrapped, of the same text, empty) x 7 inputs x every byte x with or after the last piece x whole or byte by byte x lexer or iterator", len(readErrors))},
			{Name: "boundaries", Fn: c13Boundaries, Bounds: "10 tokens at every offset around the sizes of the reader's buffer, after 5 fillings"},
			{Name: "volume", Fn: c13Volume, Bounds: "10 repeated contents x 5 ends x sizes from 1000 bytes to 100001 (thorough 4 MiB), whole and in pieces"},
			{Name: "words", Fn: c13Words, Bounds: "every keyword in every combination of cases, its truncations, extensions and neighbours"},
		}, Assumptions: []string{"the input is valid UTF-8"}}
	})
}
