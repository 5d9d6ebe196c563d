package pg

import (
	"fmt"
	"sort"
	"strings"
)

// Formula is a boolean formula over predicates.
type Formula struct {
	Op   string // "AND", "OR", "NOT" or "" for a predicate
	Kids []*Formula
	Leaf string // the predicate, placeholders written ?
}

// Key writes tokens as text, without the numbers of the placeholders.
func Key(toks []Tok) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			b.WriteByte(' ')
		}
		if t.K == Param {
			b.WriteByte('?')
		} else {
			b.WriteString(t.String())
		}
	}
	return b.String()
}

// ParseBool reads a boolean expression with the precedence of PostgreSQL:
// OR, AND, NOT, then predicates. What is not a combination of conditions is a
// predicate, kept as text.
func ParseBool(toks []Tok) (*Formula, error) {
	p := &boolParser{toks: toks}
	f, err := p.or()
	if err != nil {
		return nil, err
	}
	if p.i != len(toks) {
		return nil, fmt.Errorf("unexpected %s in %s", toks[p.i], Key(toks))
	}
	return f, nil
}

type boolParser struct {
	toks []Tok
	i    int
}

func (p *boolParser) word(s string) bool {
	return p.i < len(p.toks) && p.toks[p.i].K == Word && p.toks[p.i].S == s
}

func (p *boolParser) or() (*Formula, error) {
	l, err := p.and()
	for err == nil && p.word("OR") {
		p.i++
		var r *Formula
		r, err = p.and()
		l = &Formula{Op: "OR", Kids: []*Formula{l, r}}
	}
	return l, err
}

func (p *boolParser) and() (*Formula, error) {
	l, err := p.not()
	for err == nil && p.word("AND") {
		p.i++
		var r *Formula
		r, err = p.not()
		l = &Formula{Op: "AND", Kids: []*Formula{l, r}}
	}
	return l, err
}

func (p *boolParser) not() (*Formula, error) {
	if p.word("NOT") {
		p.i++
		f, err := p.not()
		return &Formula{Op: "NOT", Kids: []*Formula{f}}, err
	}
	return p.predicate()
}

func (p *boolParser) predicate() (*Formula, error) {
	from := p.i
	depth, between := 0, 0
	for p.i < len(p.toks) {
		t := p.toks[p.i]
		if t.K == Punct && t.S == "(" {
			depth++
		} else if t.K == Punct && t.S == ")" {
			depth--
			if depth < 0 {
				return nil, fmt.Errorf("unbalanced parentheses in %s", Key(p.toks))
			}
		} else if depth == 0 && t.K == Word {
			switch t.S {
			case "BETWEEN":
				between++
			case "OR":
				goto done
			case "AND":
				if between == 0 {
					goto done
				}
				between--
			}
		}
		p.i++
	}
done:
	if depth != 0 {
		return nil, fmt.Errorf("unbalanced parentheses in %s", Key(p.toks))
	}
	leaf := p.toks[from:p.i]
	if len(leaf) == 0 {
		return nil, fmt.Errorf("missing operand in %s", Key(p.toks))
	}
	if between != 0 {
		return nil, fmt.Errorf("BETWEEN without its second bound in %s", Key(leaf))
	}
	if inner, ok := group(leaf); ok {
		if inner[0].K == Word && (inner[0].S == "SELECT" || inner[0].S == "WITH" || inner[0].S == "VALUES") {
			return &Formula{Leaf: Key(leaf)}, nil
		}
		return ParseBool(inner)
	}
	return &Formula{Leaf: Key(leaf)}, nil
}

// group removes parentheses that enclose everything.
func group(toks []Tok) ([]Tok, bool) {
	if len(toks) < 3 || toks[0].K != Punct || toks[0].S != "(" {
		return nil, false
	}
	depth := 0
	for i, t := range toks {
		if t.K != Punct {
			continue
		}
		switch t.S {
		case "(":
			depth++
		case ")":
			depth--
			if depth == 0 && i != len(toks)-1 {
				return nil, false
			}
		case ",":
			if depth == 1 {
				return nil, false // a row
			}
		}
	}
	return toks[1 : len(toks)-1], true
}

// Leaves lists the predicates in order.
func (f *Formula) Leaves(out []string) []string {
	if f.Op == "" {
		return append(out, f.Leaf)
	}
	for _, k := range f.Kids {
		out = k.Leaves(out)
	}
	return out
}

// Eval computes the formula.
func (f *Formula) Eval(v map[string]bool) bool {
	switch f.Op {
	case "AND":
		return f.Kids[0].Eval(v) && f.Kids[1].Eval(v)
	case "OR":
		return f.Kids[0].Eval(v) || f.Kids[1].Eval(v)
	case "NOT":
		return !f.Kids[0].Eval(v)
	}
	return v[f.Leaf]
}

func (f *Formula) String() string {
	switch f.Op {
	case "AND", "OR":
		return "(" + f.Kids[0].String() + " " + f.Op + " " + f.Kids[1].String() + ")"
	case "NOT":
		return "NOT " + f.Kids[0].String()
	}
	return "[" + f.Leaf + "]"
}

// Canon writes a formula with its AND and OR flattened and their operands
// sorted. Two formulas of distinct predicates, each once, without NOT but on a
// predicate, have the same truth table if and only if they have the same Canon
// (a read-once formula is unique up to the order of its operands).
func (f *Formula) Canon() string {
	switch f.Op {
	case "":
		return "[" + f.Leaf + "]"
	case "NOT":
		return "NOT " + f.Kids[0].Canon()
	}
	var kids []string
	var flat func(k *Formula)
	flat = func(k *Formula) {
		if k.Op == f.Op {
			for _, c := range k.Kids {
				flat(c)
			}
			return
		}
		kids = append(kids, k.Canon())
	}
	flat(f)
	sort.Strings(kids)
	return f.Op + "(" + strings.Join(kids, " ") + ")"
}

// SameTruth compares the truth tables of two formulas. The leaves of want are
// the variables.
func SameTruth(want, got *Formula) error {
	ws, gs := want.Leaves(nil), got.Leaves(nil)
	vars := map[string]bool{}
	var names []string
	for _, w := range ws {
		if _, ok := vars[w]; !ok {
			vars[w] = false
			names = append(names, w)
		}
	}
	for _, g := range gs {
		if _, ok := vars[g]; !ok {
			return fmt.Errorf("unknown predicate [%s] in %s\n  expected %s", g, got, want)
		}
	}
	if len(names) > 12 {
		if len(names) != len(ws) {
			panic("pg: many predicates, and not each once")
		}
		if w, g := want.Canon(), got.Canon(); w != g {
			return fmt.Errorf("%s is read for %s (%s instead of %s)", got, want, g, w)
		}
		return nil
	}
	for a := 0; a < 1<<len(names); a++ {
		for i, n := range names {
			vars[n] = a>>i&1 == 1
		}
		if w, g := want.Eval(vars), got.Eval(vars); w != g {
			return fmt.Errorf("%s is read for %s (%t instead of %t for %v)", got, want, g, w, vars)
		}
	}
	return nil
}

// Clauses splits the tokens of one statement at its top-level clause keywords.
// Each clause has its keyword(s) as name; joins are JOIN (with the kind) and ON.
type Clause struct {
	Name string
	Toks []Tok
}

// Clauses splits a statement (or the inside of a subquery) into its clauses.
func Clauses(toks []Tok) []Clause {
	var out []Clause
	depth := 0
	start := 0
	name := ""
	flush := func(end int) {
		if name != "" || end > start {
			out = append(out, Clause{name, toks[start:end]})
		}
	}
	next := func(i, k int, s string) bool { return i+k < len(toks) && toks[i+k].K == Word && toks[i+k].S == s }
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if t.K == Punct {
			switch t.S {
			case "(":
				depth++
			case ")":
				depth--
			case ";":
				if depth == 0 {
					flush(i)
					name, start = ";", i+1
				}
			}
			continue
		}
		if depth != 0 || t.K != Word {
			continue
		}
		n, skip := "", 1
		switch t.S {
		case "WITH", "FROM", "WHERE", "HAVING", "LIMIT", "OFFSET", "RETURNING", "VALUES", "UPDATE", "USING", "SET", "SELECT", "INTO":
			if t.S == "SET" && name == "ON CONFLICT" || t.S == "UPDATE" && name == "ON CONFLICT" || t.S == "WHERE" && name == "ON CONFLICT" {
				continue
			}
			if t.S == "FROM" && i > 0 && next(i, -1, "DISTINCT") {
				continue // IS DISTINCT FROM
			}
			n = t.S
		case "GROUP", "ORDER":
			if next(i, 1, "BY") {
				n, skip = t.S+" BY", 2
			}
		case "DELETE", "INSERT":
			n = t.S
		case "INNER", "LEFT", "RIGHT":
			if next(i, 1, "JOIN") {
				n, skip = t.S+" JOIN", 2
			}
		case "JOIN":
			n = "JOIN"
		case "ON":
			if next(i, 1, "CONFLICT") {
				n, skip = "ON CONFLICT", 2
			} else if strings.HasSuffix(name, "JOIN") {
				n = "ON"
			}
		}
		if n != "" {
			flush(i)
			name, start = n, i+skip
			i += skip - 1
		}
	}
	flush(len(toks))
	return out
}

// Find gives the clauses of a name.
func Find(cs []Clause, name string) []Clause {
	var out []Clause
	for _, c := range cs {
		if c.Name == name {
			out = append(out, c)
		}
	}
	return out
}
