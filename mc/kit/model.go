package kit

import (
	"sort"
	"strings"

	"github.com/ulule/loukoum/v3/builder"

	"verifmc/pg"
)

// Kinds of builders.
const (
	Select = iota
	Insert
	Update
	Delete
	NKinds
)

// KindNames names them.
var KindNames = []string{"select", "insert", "update", "delete"}

// Assign is one assignment of a SET clause.
type Assign struct {
	Col  string
	Toks []Tok
}

// Model is the reference model of one statement: an immutable value.
type Model struct {
	Kind       int
	Prefix     []Tok
	With       [][]Tok
	Distinct   bool
	DistinctOn []Tok
	Exprs      []Tok
	From       []Tok
	Joins      [][]Tok
	Where      []Tok
	GroupBy    []Tok
	Having     []Tok
	Orders     [][]Tok
	Limit      []Tok
	Offset     []Tok
	Suffix     []Tok
	Comment    string

	Table     []Tok // update
	Only      bool
	Assoc     []Assign
	SetCols   []string
	SetExprs  [][]Tok
	Returning []Tok
	Using     []Tok
	Into      []Tok
	Columns   []Tok
	Values    []Tok
	Conflict  []Tok
}

// AddList appends without sharing.
func AddList(l [][]Tok, items ...[]Tok) [][]Tok {
	out := make([][]Tok, 0, len(l)+len(items))
	out = append(out, l...)
	return append(out, items...)
}

// SetPair is a last-write-wins assignment.
func (m Model) SetPair(col string, toks []Tok) Model {
	out := make([]Assign, 0, len(m.Assoc)+1)
	done := false
	for _, a := range m.Assoc {
		if a.Col == col {
			a.Toks, done = toks, true
		}
		out = append(out, a)
	}
	if !done {
		out = append(out, Assign{col, toks})
	}
	m.Assoc = out
	return m
}

// AddWhere combines a condition with the WHERE clause. wrap tells whether the
// condition is one that gets its own parentheses as an operand.
func (m Model) AddWhere(op string, c []Tok) (Model, bool) {
	if m.Where == nil {
		if op != "" {
			return m, false
		}
		m.Where = c
		return m, true
	}
	if op == "" {
		op = "AND"
	}
	m.Where = Binary(m.Where, op, c)
	return m, true
}

// AssocToks writes assignments sorted by column.
func AssocToks(as []Assign) []Tok {
	s := append([]Assign(nil), as...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Col < s[j].Col })
	var items [][]Tok
	for _, a := range s {
		items = append(items, Cat(I(a.Col), R("="), a.Toks))
	}
	return List(items...)
}

// Body is the expected statement without its comment; false when the
// statement is incomplete, so that rendering must be refused.
func (m Model) Body() ([]Tok, bool) {
	var t []Tok
	add := func(kw string, body []Tok) {
		if body == nil {
			return
		}
		if kw != "" {
			t = append(t, R(kw)...)
		}
		t = append(t, body...)
	}
	list := func(l [][]Tok) []Tok {
		if len(l) == 0 {
			return nil
		}
		return List(l...)
	}
	switch m.Kind {
	case Select:
		if len(m.Exprs) == 0 {
			return nil, false
		}
		add("", m.Prefix)
		add("WITH", list(m.With))
		t = append(t, R("SELECT")...)
		if m.DistinctOn != nil {
			add("DISTINCT ON", Paren(m.DistinctOn))
		}
		if m.Distinct {
			t = append(t, R("DISTINCT")...)
		}
		add("", m.Exprs)
		add("FROM", m.From)
		for _, j := range m.Joins {
			add("", j)
		}
		add("WHERE", m.Where)
		add("GROUP BY", m.GroupBy)
		add("HAVING", m.Having)
		add("ORDER BY", list(m.Orders))
		add("LIMIT", m.Limit)
		add("OFFSET", m.Offset)
		add("", m.Suffix)
	case Insert:
		if m.Into == nil {
			return nil, false
		}
		add("INSERT INTO", m.Into)
		if m.Columns != nil {
			add("", Paren(m.Columns))
		}
		add("VALUES", m.Values)
		add("ON CONFLICT", m.Conflict)
		add("RETURNING", m.Returning)
	case Update:
		set := m.SetToks()
		if m.Table == nil || set == nil {
			return nil, false
		}
		add("WITH", list(m.With))
		t = append(t, R("UPDATE")...)
		if m.Only {
			t = append(t, R("ONLY")...)
		}
		add("", m.Table)
		add("SET", set)
		add("FROM", m.From)
		add("WHERE", m.Where)
		add("RETURNING", m.Returning)
	case Delete:
		if m.From == nil {
			return nil, false
		}
		t = append(t, R("DELETE")...)
		add("FROM", m.From)
		add("USING", m.Using)
		add("WHERE", m.Where)
		add("RETURNING", m.Returning)
	}
	return t, true
}

// SetToks is the body of the SET clause.
func (m Model) SetToks() []Tok {
	if len(m.Assoc) > 0 {
		return AssocToks(m.Assoc)
	}
	if len(m.SetCols) > 0 && len(m.SetExprs) > 0 {
		var cols [][]Tok
		for _, c := range m.SetCols {
			cols = append(cols, I(c))
		}
		exprs := m.SetExprs
		if len(exprs) > 1 {
			// Several expressions: a subquery among them has its own parentheses.
			exprs = AddList(exprs)
			for i, e := range exprs {
				if len(e) > 0 && e[0].K == pg.Word && (e[0].S == "SELECT" || e[0].S == "WITH" || e[0].S == "EXPLAIN") {
					exprs[i] = Paren(e)
				}
			}
		}
		return Cat(Paren(List(cols...)), R("="), Paren(List(exprs...)))
	}
	return nil
}

// Toks is the expected statement with its comment.
func (m Model) Toks() ([]Tok, bool) {
	t, ok := m.Body()
	if !ok {
		return nil, false
	}
	if m.Comment != "" {
		t = Cat(t, P(";"), CommentTok(m.Comment))
	}
	return t, true
}

// Key hashes the model state.
func (m Model) Key() string {
	t, ok := m.Toks()
	if !ok {
		var b strings.Builder
		b.WriteString("incomplete ")
		b.WriteString(KindNames[m.Kind])
		for _, p := range [][]Tok{m.Table, m.Where, m.Columns, m.Values, m.Conflict, m.Returning, m.Exprs, m.From, m.Using} {
			b.WriteString(Text(p))
			b.WriteByte('|')
		}
		b.WriteString(strings.Join(m.SetCols, ","))
		return b.String()
	}
	return Text(t)
}

// H is a real builder and its model.
type H struct {
	S builder.Select
	N builder.Insert
	U builder.Update
	D builder.Delete
	M Model
}

// B is the builder.
func (h H) B() builder.Builder {
	switch h.M.Kind {
	case Select:
		return h.S
	case Insert:
		return h.N
	case Update:
		return h.U
	default:
		return h.D
	}
}

// Op is an operation on a builder: Real on the implementation, Mod on the
// model (false: the call must be refused).
type Op struct {
	Name string
	Real func(h *H)
	Mod  func(m Model) (Model, bool)
}
