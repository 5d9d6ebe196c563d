// Package pg reads SQL text the way PostgreSQL does (with
// standard_conforming_strings on): an independent lexer and an expression
// parser with PostgreSQL's operator precedence.
package pg

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Kind of a token.
type Kind uint8

// Kinds.
const (
	Word    Kind = iota // unquoted identifier or keyword, upper-cased in S
	QIdent              // quoted identifier, decoded in S
	Num                 // numeric constant
	Str                 // string constant, decoded in S
	Param               // $1 (S = "1") or :name (S = ":name")
	Op                  // operator
	Punct               // ( ) [ ] , ; .
	Comment             // -- or /* */, text in S
)

// Tok is a lexical element.
type Tok struct {
	K   Kind
	S   string
	Raw string
	Pos int
}

func (t Tok) String() string {
	switch t.K {
	case QIdent:
		return `"` + t.S + `"`
	case Str:
		return "'" + t.S + "'"
	}
	if t.Raw != "" {
		return t.Raw
	}
	return t.S
}

// Same reports whether two tokens are the same for the parser.
func (t Tok) Same(u Tok) bool { return t.K == u.K && t.S == u.S }

// Options of the lexer.
type Options struct {
	// Backslash reads '...' with backslash escapes (what String() shows).
	Backslash bool
	// EmptyIdent accepts "" (PostgreSQL refuses it).
	EmptyIdent bool
}

const opChars = "+-*/<>=~!@#%^&|`?"

func isIdentStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func isSpace(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'
}

// Lex splits text in tokens. Comments are kept as tokens.
func Lex(s string, opt Options) ([]Tok, error) {
	toks := make([]Tok, 0, len(s)/4+4)
	i := 0
	n := len(s)
	add := func(k Kind, v string, from, to int) {
		toks = append(toks, Tok{K: k, S: v, Raw: s[from:to], Pos: from})
	}
	for i < n {
		c := s[i]
		switch {
		case isSpace(c):
			i++
		case c == '-' && i+1 < n && s[i+1] == '-':
			j := i
			for j < n && s[j] != '\n' && s[j] != '\r' {
				j++
			}
			add(Comment, s[i+2:j], i, j)
			i = j
		case c == '/' && i+1 < n && s[i+1] == '*':
			depth, j := 1, i+2
			for j < n && depth > 0 {
				switch {
				case strings.HasPrefix(s[j:], "/*"):
					depth++
					j += 2
				case strings.HasPrefix(s[j:], "*/"):
					depth--
					j += 2
				default:
					j++
				}
			}
			if depth > 0 {
				return toks, fmt.Errorf("unterminated comment at %d", i)
			}
			add(Comment, s[i+2:j-2], i, j)
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			closed := false
			for j < n {
				if s[j] == '"' {
					if j+1 < n && s[j+1] == '"' {
						b.WriteByte('"')
						j += 2
						continue
					}
					closed = true
					j++
					break
				}
				b.WriteByte(s[j])
				j++
			}
			if !closed {
				return toks, fmt.Errorf("unterminated quoted identifier at %d", i)
			}
			if b.Len() == 0 && !opt.EmptyIdent {
				return toks, fmt.Errorf("zero-length delimited identifier at %d", i)
			}
			add(QIdent, b.String(), i, j)
			i = j
		case c == '\'':
			v, j, err := lexString(s, i, opt.Backslash)
			if err != nil {
				return toks, err
			}
			add(Str, v, i, j)
			i = j
		case (c == 'e' || c == 'E') && i+1 < n && s[i+1] == '\'':
			v, j, err := lexString(s, i+1, true)
			if err != nil {
				return toks, err
			}
			add(Str, v, i, j)
			i = j
		case c == '$':
			j := i + 1
			for j < n && isDigit(s[j]) {
				j++
			}
			if j > i+1 {
				add(Param, s[i+1:j], i, j)
				i = j
				break
			}
			// Dollar-quoted string.
			for j < n && (isIdentStart(s[j]) || isDigit(s[j])) {
				j++
			}
			if j < n && s[j] == '$' {
				tag := s[i : j+1]
				end := strings.Index(s[j+1:], tag)
				if end < 0 {
					return toks, fmt.Errorf("unterminated dollar-quoted string at %d", i)
				}
				add(Str, s[j+1:j+1+end], i, j+1+end+len(tag))
				i = j + 1 + end + len(tag)
				break
			}
			return toks, fmt.Errorf("stray $ at %d", i)
		case c == ':':
			if i+1 < n && s[i+1] == ':' {
				add(Op, "::", i, i+2)
				i += 2
				break
			}
			j := i + 1
			for j < n && (isIdentStart(s[j]) || isDigit(s[j])) {
				j++
			}
			if j == i+1 {
				add(Punct, ":", i, j)
			} else {
				add(Param, s[i:j], i, j)
			}
			i = j
		case isIdentStart(c):
			j := i + 1
			for j < n && (isIdentStart(s[j]) || isDigit(s[j]) || s[j] == '$') {
				j++
			}
			add(Word, strings.ToUpper(s[i:j]), i, j)
			i = j
		case isDigit(c) || c == '.' && i+1 < n && isDigit(s[i+1]):
			j := i
			for j < n && isDigit(s[j]) {
				j++
			}
			if j < n && s[j] == '.' {
				j++
				for j < n && isDigit(s[j]) {
					j++
				}
			}
			if j < n && (s[j] == 'e' || s[j] == 'E') {
				k := j + 1
				if k < n && (s[k] == '+' || s[k] == '-') {
					k++
				}
				if k < n && isDigit(s[k]) {
					for k < n && isDigit(s[k]) {
						k++
					}
					j = k
				}
			}
			if j < n && isIdentStart(s[j]) {
				return toks, fmt.Errorf("trailing junk after number at %d", i)
			}
			add(Num, s[i:j], i, j)
			i = j
		case strings.IndexByte("()[],;.", c) >= 0:
			add(Punct, s[i:i+1], i, i+1)
			i++
		case strings.IndexByte(opChars, c) >= 0:
			j := i
			for j < n && strings.IndexByte(opChars, s[j]) >= 0 {
				if strings.HasPrefix(s[j:], "--") || strings.HasPrefix(s[j:], "/*") {
					break
				}
				j++
			}
			// A multi-character operator cannot end in + or - unless it
			// contains one of these characters.
			if j-i > 1 && !strings.ContainsAny(s[i:j], "~!@#%^&|`?") {
				for j-i > 1 && (s[j-1] == '+' || s[j-1] == '-') {
					j--
				}
			}
			op := s[i:j]
			if op == "!=" {
				op = "<>"
			}
			add(Op, op, i, j)
			i = j
		default:
			r, _ := utf8.DecodeRuneInString(s[i:])
			return toks, fmt.Errorf("unexpected character %q at %d", r, i)
		}
	}
	return toks, nil
}

func lexString(s string, i int, backslash bool) (string, int, error) {
	var b strings.Builder
	j := i + 1
	for j < len(s) {
		switch {
		case s[j] == '\'':
			if j+1 < len(s) && s[j+1] == '\'' {
				b.WriteByte('\'')
				j += 2
				continue
			}
			return b.String(), j + 1, nil
		case s[j] == '\\' && backslash:
			if j+1 >= len(s) {
				return "", j, fmt.Errorf("unterminated string at %d", i)
			}
			switch s[j+1] {
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			default:
				b.WriteByte(s[j+1])
			}
			j += 2
		default:
			b.WriteByte(s[j])
			j++
		}
	}
	return "", j, fmt.Errorf("unterminated string constant at %d", i)
}

// Text writes tokens for a message.
func Text(toks []Tok) string {
	parts := make([]string, len(toks))
	for i, t := range toks {
		parts[i] = t.String()
	}
	return strings.Join(parts, " ")
}
