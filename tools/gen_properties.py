#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the statements can be reviewed in one place."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=("Query()", "NamedQuery()", "String()"), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

B = "builder/%s.go"
ALLB = ["builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go"]

prop("C01", "Deriving a query never changes another one (builders are values)",
 "Every builder and condition is an immutable value: calling any method on it (also a call that panics) returns a new value and leaves the receiver, and every other value derived earlier from it, rendering exactly the same SQL and arguments as before. This holds whatever the order in which derived values are extended or rendered, and however many items were accumulated before the fork.",
 ["histories"], "all trees of builder calls (fork points, list lengths before the fork, renderings and failed calls in between)",
 "Tests build one chain and render it once; none keeps two values derived from a common base. Sharing shows only for certain accumulated lengths and call orders.",
 ALLB + ["stmt/set.go", "stmt/with.go", "stmt/where.go", "stmt/infix.go"],
 [("value receivers", "builder/*.go"), ("slices clipped before append, SET pairs cloned before write", "builder/select.go Join/With/OrderBy, builder/update.go Set/Using/With, builder/builder.go MergeSet")],
 [("Select.query.Joins/OrderBy/With", "slices shared between copies of a builder", "builder/select.go"), ("PairContainer.Map/Columns/Expressions", "SET assignments", "stmt/set.go")])

prop("C02", "Placeholders and arguments correspond one to one, in order",
 "In Query() the placeholders are $1..$n, each exactly once and numbered left to right, and the returned list has exactly n arguments, the i-th being the value the caller gave at the place of $i. In NamedQuery() they are :arg_1..:arg_n and the returned map has exactly the keys arg_1..arg_n with those values. Equal values keep separate placeholders, and nil is written NULL without placeholder or argument.",
 ["inputs", "programs"], "all statements of the API: any nesting, any number of values (0, 1, 9, 10, 11, 100...), any clause combination and any values, equal or not",
 "Tests check fixed statements with a few distinct values; numbering can break on equal values, on ten or more arguments, or in a combination of clauses that is not sampled.",
 ["types/context.go", "stmt/expression.go", "stmt/select.go", "stmt/update.go", "stmt/insert.go", "stmt/conflict.go"],
 [("Bind numbers and stores each value when it is written", "types/context.go"), ("clauses are written in the order of the text", "stmt/*.go Write")],
 [("StdContext.values / NamedContext.values", "arguments bound so far", "types/context.go")], ("Query()", "NamedQuery()"))

prop("C03", "Values never influence the SQL text (no injection by value)",
 "The text returned by Query() and NamedQuery() depends only on the shape of the statement: replacing a non-nil value by another one of the same Go type, whatever its content (quotes, comment marks, placeholders, SQL keywords, empty or zero values), gives a byte-identical text, and the value comes back untouched among the arguments.",
 ["inputs"], "all value positions of the API, all Go types accepted as values and all contents",
 "Tests use a handful of benign values; injection needs a hostile content at one particular position or type.",
 ["types/context.go", "stmt/expression.go", "stmt/set.go", "builder/insert.go"],
 [("values are wrapped in stmt.Value and only bound", "stmt/expression.go NewExpression, Value.Write"), ("Std and named contexts write a placeholder", "types/context.go Bind")],
 observe=("Query()", "NamedQuery()"))

prop("C04", "Query, NamedQuery and String render the same statement",
 "For every statement the three renderings agree: Query() and NamedQuery() differ only in the spelling of the placeholders and carry the same values in the same order, and String() is that same text where each placeholder is replaced by a literal of the value bound to it. If one of the three refuses (panics on) a statement, the others refuse it too (a driver.Valuer that fails apart, which only String() calls).",
 ["programs", "inputs"], "all statements of the API and all values",
 "Tests compare three hand-written strings for sampled statements; agreement over all combinations of clauses and values is not covered.",
 ["types/context.go"] + ALLB + ["format/format.go"],
 [("one Write per statement, parameterized by the context", "stmt/*.go"), ("RawContext, NamedContext, StdContext", "types/context.go")])

prop("C05", "Every identifier is quoted so that any name denotes itself",
 "At every place where the API takes a table, column or alias name, any non-empty name renders as dot-separated double-quoted identifiers that PostgreSQL reads back as exactly the dot-separated parts of that name (an embedded double quote is doubled, everything else is verbatim; CTE names, aggregate arguments and aliases, and ORDER BY expressions are raw SQL and stay so). No name, whatever its characters, can end its quotes and change the rest of the statement.",
 ["inputs"], "all names (quotes, backslashes, comment marks, spaces, control, non-ASCII and non-printable characters) at all identifier positions",
 "Tests only use lower-case ASCII words, for which any quoting works.",
 ["stmt/stmt.go", "stmt/column.go", "stmt/table.go", "stmt/expression.go", "builder/builder.go"],
 [("quote", "stmt/stmt.go"), ("Column.Write, Table.Write, Identifier.Write", "stmt/column.go, stmt/table.go, stmt/expression.go")])

prop("C06", "Conditions keep the boolean structure they were built with",
 "The condition PostgreSQL parses from WHERE, HAVING or JOIN ... ON, with its operator precedence, has the truth table of the tree the caller built with And, Or, AndOn, OrOn and the Where/And/Or builder methods (successive calls combine left to right). This holds for any nesting and any kind of leaf condition (raw SQL given as a condition being a single predicate).",
 ["programs"], "all trees of AND/OR built through all the equivalent routes of the API",
 "Tests cover a few trees; a missing pair of parentheses or a swapped operand only matters for particular mixes of AND and OR.",
 ["stmt/infix.go", "stmt/on.go", "stmt/where.go", "stmt/having.go", "stmt/in.go", "stmt/between.go", "builder/select.go"],
 [("every infix expression writes its own parentheses", "stmt/infix.go, stmt/on.go"), ("Where.And / Where.Or nest on the left", "stmt/where.go")])

prop("C07", "No condition given to a statement is ever lost",
 "Every condition accepted by Where, And, Or, Having or Join appears in the rendered statement exactly once; a statement given at least one WHERE condition never renders without WHERE. An undefined condition (nil, or built on an empty column or empty raw SQL, alone or nested at any depth) is refused with a panic, at the call or at rendering, instead of removing or widening the clause.",
 ["histories", "inputs"], "all sequences of condition calls on select, update and delete builders, with undefined conditions at any position",
 "Tests only pass well-formed conditions; the dangerous outcome (a DELETE without WHERE) needs a degenerate operand.",
 ["stmt/where.go", "stmt/having.go", "stmt/infix.go", "builder/select.go", "builder/update.go", "builder/delete.go"],
 [("undefined conditions are refused", "stmt/where.go, stmt/having.go, stmt/expression.go Identifier.IsEmpty"), ("clauses are written when not empty", "stmt/select.go, stmt/update.go, stmt/delete.go")])

prop("C08", "Clauses land in grammar order whatever the order of the calls",
 "The clauses of a statement appear in the order of the PostgreSQL grammar, each complete and exactly once, independently of the order in which the builder methods were called. Defining twice a clause that has a single definition (From, DistinctOn, GroupBy, Having, Limit, Offset, Suffix, Prefix, Into, Columns and Values of an insert, OnConflict, Using of a delete, Returning) panics, and defining it once is never refused because of other clauses.",
 ["histories"], "all orders of calls over all subsets of clauses of the four builders",
 "Tests call methods in one customary order, with a few clauses each.",
 ALLB + ["stmt/select.go", "stmt/update.go", "stmt/insert.go", "stmt/delete.go"],
 [("clauses are stored by name and written in a fixed order", "stmt/select.go writeHead/writeMiddle/writeTail"), ("guards against redefinition", "builder/*.go")])

prop("C09", "Assignments: each column once, with its own last value, deterministically",
 "Update.Set (one or several calls), Insert.Set and DoUpdate render every assigned column exactly once, paired with the value last assigned to it, whether the assignments come as pairs, maps or a mix (a map naming a column by one key only). The text and the arguments are the same for every iteration order of the maps and every grouping of the same assignments. In the column-list form, columns and expressions keep the order given to Set and Using.",
 ["inputs", "schedules"], "all groupings of assignments into pairs, maps and calls, all overwrite patterns and all map iteration orders",
 "Tests use single maps or pairs; the iteration order of a map is chosen at random by the runtime and overwrites across calls are barely sampled.",
 ["stmt/set.go", "builder/builder.go", "builder/update.go", "builder/insert.go", "stmt/conflict.go"],
 [("pairs keyed by column, sorted by name when written", "stmt/set.go Values"), ("MergeSet", "builder/builder.go")],
 [("PairContainer.Map", "last expression of each column", "stmt/set.go")])

prop("C10", "Rendering is pure and repeatable",
 "Rendering does not change the statement: any sequence of String(), Query(), NamedQuery() and Statement() calls on a builder, and any modification by the caller of the argument list or map a rendering returned, leaves every later rendering identical. Two identically built statements render identically.",
 ["histories"], "all sequences of rendering calls over all kinds of statements, with results modified in between",
 "Tests render each builder once per form and drop the result.",
 ["types/context.go", "stmt/set.go"] + ALLB,
 [("a fresh context per rendering", "builder/*.go"), ("columns copied before being sorted", "stmt/set.go Values")])

prop("C11", "Builders can be shared by goroutines",
 "Goroutines that concurrently render, extend or embed the same builders, conditions and statements obtain exactly the results they would obtain alone, for every interleaving and without data race. No state is shared between unrelated statements either.",
 ["schedules"], "all interleavings of 2 or 3 goroutines working on shared values",
 "Tests are sequential.",
 ALLB + ["stmt/set.go", "types/context.go", "builder/builder.go"],
 [("immutable values, fresh context per rendering, no package-level mutable state", "builder/*.go, types/context.go, token/token.go")],
 hook="none in /repo: scheduling points are inserted in an overlay copy at build time")

prop("C12", "A join given as text is either kept whole or refused",
 "For any text, parsing a join terminates without crashing: it either reports an error or yields the join kind, the table and every column comparison of the text, with the AND/OR operators in order and grouped left to right. No part of an accepted text is ignored, and every join of the documented form ([INNER|LEFT|RIGHT] JOIN table ON a = b [AND|OR c = d]..., with or without the leading kind, the table part, parentheses around the condition or a final semicolon) is accepted.",
 ["inputs"], "all token sequences, and all character strings, given as join condition",
 "Tests parse a dozen well-formed texts and no malformed one.",
 ["parser/join.go", "lexer/lexer.go", "lexer/iteratee.go", "builder/select.go"],
 [("ParseJoin refuses what it cannot use", "parser/join.go"), ("the iterator answers EOF when exhausted", "lexer/iteratee.go")],
 observe=("parser.ParseJoin", "Select.Join(...).String()"))

prop("C13", "The lexer loses nothing, whatever way the input is delivered",
 "For any valid UTF-8 input the lexer ends after finitely many tokens, which concatenated give back the input without its white space, each classified as keyword (case-insensitively), literal, delimiter, operator or illegal. The tokens do not depend on how the reader splits the input into chunks, and a read error is never taken for the end of the input.",
 ["inputs", "fault_sequences"], "all texts, all ways of splitting them into reads, and a read fault after any byte",
 "Tests feed a few strings in one piece from an infallible reader.",
 ["lexer/lexer.go", "lexer/iteratee.go", "token/token.go"],
 [("two-rune look-ahead on a buffered reader", "lexer/lexer.go read"), ("keyword table", "token/token.go Lookup")],
 [("Lexer.e0/en", "current and next runes", "lexer/lexer.go")], ("lexer.New(...).Next", "lexer.New(...).Iterator"))

prop("C14", "A subquery is embedded whole, parenthesized, with its arguments in place",
 "Wherever a select statement (builder or statement) is accepted as an operand - comparison, IN, EXISTS, LIKE, BETWEEN, IS, list items, CTE, SET, USING, VALUES, function argument, WHERE or HAVING condition - its own rendering appears enclosed in parentheses, with placeholders renumbered to follow the enclosing text, and its arguments spliced at that position. This holds at any nesting depth and for several subqueries in one statement.",
 ["programs"], "all positions accepting a subquery, combined and nested",
 "Tests sample one or two positions with a simple subquery, rarely with arguments on both sides.",
 ["stmt/expression.go", "stmt/subquery.go", "stmt/with.go", "stmt/in.go", "stmt/set.go", "stmt/between.go"],
 [("NewWrapper", "stmt/expression.go"), ("Exists/NotExists/WithQuery/In write parentheses", "stmt/subquery.go, stmt/with.go, stmt/in.go")])

prop("C15", "LIMIT and OFFSET carry exactly the number given",
 "For every accepted representation of a number (all integer types, decimal strings, Limit and Offset statements) the clause shows exactly that number in decimal, for the whole 64-bit signed range that is legal (LIMIT > 0, OFFSET >= 0, OFFSET 0 being the same as none). Everything else - negative, zero limit, out of range, not a number, unsupported type - is refused with a panic and never wraps around, truncates or drops the clause.",
 ["inputs"], "all integer types and strings, at and around every boundary",
 "Tests use 20 and a few types; conversion errors show at boundaries only.",
 ["builder/builder.go", "stmt/limit.go", "stmt/offset.go", "builder/select.go"],
 [("ToInt64, ToLimit, ToOffset", "builder/builder.go")])

prop("C16", "Inserted rows and IN lists keep every element at its place",
 "INSERT ... VALUES renders one parenthesized row per given row and one expression per cell, in the given order, and IN / NOT IN render one item per element of the list, for every supported list type, length and element content (nil cells included, which stay NULL in their column). No element is dropped, merged, expanded or reordered, and arguments follow the same order.",
 ["inputs"], "all list and row types, all dimensions up to the bound, all cell contents",
 "Tests use lists of 1 to 3 elements of a few types.",
 ["stmt/expression.go", "builder/insert.go", "stmt/in.go", "stmt/values.go"],
 [("NewArrayListExpression, NewArrayExpression, toArray", "stmt/expression.go")])

prop("C17", "Literals shown by String() delimit themselves and denote their value",
 "In String() every scalar value is shown as one literal that a reader of backslash-escaped SQL literals reads back as exactly that value: strings and bytes of any content, integers and finite floats of every type and magnitude, booleans, times to the microsecond in UTC, and driver values through what they produce. No value content can end its literal.",
 ["inputs"], "all values of the scalar Go types accepted",
 "Tests format a few benign values; the package format has no test of its own.",
 ["format/format.go", "types/context.go"],
 [("format.Value and per-type formatting", "format/format.go")], observe=("String()",))

prop("C18", "Equivalent ways of writing a statement give the same SQL",
 "Documented alternative spellings are interchangeable: column lists as strings, comma-separated string, []string or columns; tables as name or table; joins as text, On clauses or join statements; pairs or maps; Insert.Set or Columns and Values; And/Or as functions or methods; IsNull or Is(nil); variadic list or slice; numbers in any integer type; a builder or its statement. Each variant of a statement renders the same text and arguments; Select() without column means all columns (*).",
 ["programs"], "all combinations of equivalent spellings over the statements of the API",
 "Tests check some spellings side by side, one position at a time.",
 ["builder/builder.go", "builder/select.go", "builder/insert.go", "loukoum.go", "parser/join.go"],
 [("To* conversions", "builder/builder.go"), ("facade functions", "loukoum.go")])

prop("C19", "Kind predicates and Statement() tell the truth about a builder",
 "For each of the four builders, given by value or by pointer, exactly the matching one of IsSelectBuilder, IsInsertBuilder, IsUpdateBuilder and IsDeleteBuilder answers true, at every stage of construction, and all four answer false for any other implementation. Statement() returns the statement of that kind, which renders through any context exactly as the builder does.",
 ["inputs", "histories"], "all builders at all stages of construction, by value, by pointer and foreign",
 "No test calls the predicates with the values the API returns.",
 ["builder/builder.go"] + ALLB,
 [("type switches", "builder/builder.go"), ("Statement()", "builder/*.go")], observe=("Is*Builder", "Statement()"))

prop("C20", "A comment cannot escape and never changes the statement",
 "For any text given to Comment on any builder, PostgreSQL reads the rendered query as the same statement without the comment, followed by one comment holding the whole text (line breaks shown as blanks): no character of it (line breaks, comment or quote marks, semicolons, placeholders) is executed or binds an argument. A commented select used as a subquery leaves the enclosing statement intact.",
 ["inputs"], "all comment texts, on all builders, in all renderings, top-level and nested",
 "Tests use one-word comments.",
 ["stmt/comment.go", "stmt/select.go", "stmt/update.go", "stmt/insert.go", "stmt/delete.go", "stmt/expression.go"],
 [("Comment.Write keeps a single line", "stmt/comment.go"), ("the comment is written last", "stmt/*.go Write")])

prop("C21", "ON CONFLICT shows exactly the requested target and action",
 "An accepted OnConflict renders ON CONFLICT with exactly the given target columns in order and exactly the given action, DO NOTHING or DO UPDATE SET with every assignment and its argument, after the values and before RETURNING. Incomplete or contradictory requests (no argument, no action, DO UPDATE without target or without assignment, anything after the action, a second OnConflict) are refused with a panic and nothing is dropped silently.",
 ["inputs", "histories"], "all argument lists of OnConflict over targets and actions, combined with the other insert clauses",
 "Tests check two or three shapes.",
 ["builder/insert.go", "stmt/conflict.go", "loukoum.go"],
 [("OnConflict argument loop", "builder/insert.go"), ("OnConflict.Write", "stmt/conflict.go")])

prop("C22", "Each condition method produces its own operator and operands",
 "Every comparison method of identifiers, values and function calls renders its own SQL operator between its receiver and its operand, in that order, for every kind of operand (value, nil, raw SQL, subquery, list, call, encoder); NOT variants are negated and only they are. BETWEEN keeps its bounds in order, IsNull(true/false) selects IS NULL / IS NOT NULL.",
 ["inputs"], "all methods x all kinds of operands x all positions of the condition",
 "Tests cover most methods once with a plain value, and several not at all.",
 ["stmt/expression.go", "stmt/between.go", "stmt/in.go", "types/operator.go", "loukoum.go"],
 [("one constructor per operator", "stmt/expression.go"), ("operator constants", "types/operator.go")])

prop("C23", "Go values are bound as themselves or refused",
 "Every supported Go value - basic types, bytes, times and *time.Time, slices and maps bound as a whole, driver.Valuer, range and array types, and encoders (statement, int64, bool, time, string, in that order of preference) - reaches the arguments with its own dynamic type and content, or, for an encoder, with the encoded value; nil and a nil *time.Time mean NULL. A value of an unsupported type is refused with a panic, never replaced or dropped.",
 ["inputs"], "all dynamic types (also implementing several encoders at once) at all value positions",
 "Tests sample some types at one position each.",
 ["stmt/expression.go", "stmt/encoder.go"],
 [("NewExpression type switch", "stmt/expression.go")], observe=("Query()", "NamedQuery()"))

prop("C24", "Arguments can be reused by the caller after the call",
 "Once a builder or statement function has returned, modifying the slices or maps that were passed to it as lists of columns, tables, orders, conditions, rows, IN items, WITH queries or assignments changes no statement already built, and the library never modifies them. (A slice, map or pointer bound as one value stays the caller's.)",
 ["histories"], "all list- and map-taking functions x all modifications of the argument before or between renderings",
 "No test touches an argument after the call.",
 ["builder/builder.go", "stmt/with.go", "stmt/expression.go"] + ALLB,
 [("slices are copied", "builder/builder.go ToColumns/ToSelectExpressions, stmt/with.go NewWith, stmt/expression.go NewCall")])

prop("C25", "Incomplete statements are refused, never rendered malformed",
 "A statement made with the builders and lacking something its SQL needs - a table, a column list, an assignment, a cell in a row, a condition, a join condition, a name or query in WITH, or with an empty item in one of its lists (an insert without values and an empty IN list, accepted on purpose, apart) - is refused with a panic, when it is defined or in each of the three renderings alike. It is never rendered with the part silently left out or with an empty item in its place.",
 ["histories", "inputs"], "all statements with any subset of their parts missing or empty, and all complete ones",
 "Tests check a dozen panics and only well-formed statements.",
 ALLB + ["builder/builder.go", "stmt/select.go", "stmt/insert.go", "stmt/update.go", "stmt/delete.go"],
 [("IsEmpty checks in Write and in To* conversions", "stmt/*.go, builder/builder.go")])

prop("C26", "Select items, tables, joins, CTEs and orders appear as requested",
 "Aliases, DISTINCT, DISTINCT ON, aggregates (function, distinct flag, alias), ONLY, join kinds, RETURNING items, GROUP BY columns, CTE names and ORDER BY directions each apply to exactly the item they were requested for, and every list appears complete and in the order given, over any number of items and calls. Prefix and Suffix frame the statement verbatim.",
 ["inputs", "histories"], "all lists up to the bound over all item kinds and modifiers, split over any number of calls",
 "Tests use one modifier at a time on lists of one to three items.",
 ["stmt/aggregate.go", "stmt/column.go", "stmt/table.go", "stmt/join.go", "stmt/orderby.go", "stmt/order.go", "stmt/with.go", "stmt/returning.go", "stmt/groupby.go", "stmt/distinct_on.go", "builder/select.go"],
 [("one Write per item", "stmt/*.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
