From 583ca5feb9654c0b1e1859c7e2d89ac502c33219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 01/46] fix: quote identifiers with the SQL rule (double the
 quote), not with Go escapes

strconv.Quote escapes an embedded double quote as \" which closes the
identifier for PostgreSQL, and rewrites backslashes, control and non
printable characters so that another name reaches the database.
---
 stmt/stmt.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stmt/stmt.go b/stmt/stmt.go
index bf81364..b172a94 100644
--- a/stmt/stmt.go
+++ b/stmt/stmt.go
@@ -1,7 +1,6 @@
 package stmt
 
 import (
-	"strconv"
 	"strings"
 
 	"github.com/ulule/loukoum/v3/types"
@@ -20,7 +19,7 @@ func quote(ident string) string {
 	split := strings.Split(ident, ".")
 	quoted := make([]string, 0, len(split))
 	for i := range split {
-		quoted = append(quoted, strconv.Quote(split[i]))
+		quoted = append(quoted, `"`+strings.ReplaceAll(split[i], `"`, `""`)+`"`)
 	}
 	return strings.Join(quoted, ".")
 }
-- 
2.43.0


From 55351318531cc2769ce86da56d7096f33f08e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 02/46] fix: guard DistinctOn, Suffix and Prefix against their
 own clause

The guards tested another clause (GROUP BY, OFFSET): a valid chain such as
Offset(1).Suffix("FOR UPDATE") panicked, and a redefinition was not refused.
---
 builder/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index 276e0c1..d221b18 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -20,7 +20,7 @@ func NewSelect() Select {
 
 // DistinctOn adds a DISTINCT ON clause to the query.
 func (b Select) DistinctOn(args ...interface{}) Select {
-	if !b.query.GroupBy.IsEmpty() {
+	if !b.query.DistinctOn.IsEmpty() {
 		panic("loukoum: select builder has distinct on clause already defined")
 	}
 
@@ -223,7 +223,7 @@ func (b Select) Offset(value interface{}) Select {
 
 // Suffix adds given clauses as suffixes.
 func (b Select) Suffix(suffix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Suffix.IsEmpty() {
 		panic("loukoum: select builder has suffixes clauses already defined")
 	}
 
@@ -234,7 +234,7 @@ func (b Select) Suffix(suffix interface{}) Select {
 
 // Prefix adds given clauses as prefixes.
 func (b Select) Prefix(prefix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Prefix.IsEmpty() {
 		panic("loukoum: select builder has prefixes clauses already defined")
 	}
 
-- 
2.43.0


From 2098534cd7bcb2f9a45793b35e56d2b7c6d1a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 03/46] fix: recognize builders by value in
 Is{Select,Insert,Update,Delete}Builder

The API only hands out builder values, the predicates only matched pointers:
they returned false for every builder.
---
 builder/builder.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index e449873..16c7dd4 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -27,26 +27,42 @@ type Builder interface {
 
 // IsSelectBuilder returns true if given builder is of type "Select"
 func IsSelectBuilder(builder Builder) bool {
-	_, ok := builder.(*Select)
-	return ok
+	switch builder.(type) {
+	case Select, *Select:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsInsertBuilder returns true if given builder is of type "Insert"
 func IsInsertBuilder(builder Builder) bool {
-	_, ok := builder.(*Insert)
-	return ok
+	switch builder.(type) {
+	case Insert, *Insert:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsUpdateBuilder returns true if given builder is of type "Update"
 func IsUpdateBuilder(builder Builder) bool {
-	_, ok := builder.(*Update)
-	return ok
+	switch builder.(type) {
+	case Update, *Update:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsDeleteBuilder returns true if given builder is of type "Delete"
 func IsDeleteBuilder(builder Builder) bool {
-	_, ok := builder.(*Delete)
-	return ok
+	switch builder.(type) {
+	case Delete, *Delete:
+		return true
+	default:
+		return false
+	}
 }
 
 // ToColumn takes an empty interfaces and returns a Column instance.
-- 
2.43.0


From 3c7d0e3dc30c59e29b089b8e5e122c50b0d0c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 04/46] fix: do not share appended slices between builders
 forked from the same one

Join, With and OrderBy appended to a slice shared with the receiver: two
builders derived from the same base overwrote each other's clauses as soon as
the slice had spare capacity.
---
 builder/select.go | 5 +++++
 builder/update.go | 1 +
 2 files changed, 6 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index d221b18..316e23f 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -93,6 +93,7 @@ func (b Select) join1(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
+	b.query.Joins = b.query.Joins[:len(b.query.Joins):len(b.query.Joins)]
 	b.query.Joins = append(b.query.Joins, join)
 
 	return b
@@ -104,6 +105,7 @@ func (b Select) join2(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
+	b.query.Joins = b.query.Joins[:len(b.query.Joins):len(b.query.Joins)]
 	b.query.Joins = append(b.query.Joins, join)
 
 	return b
@@ -123,6 +125,7 @@ func (b Select) join3(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
+	b.query.Joins = b.query.Joins[:len(b.query.Joins):len(b.query.Joins)]
 	b.query.Joins = append(b.query.Joins, join)
 
 	return b
@@ -135,6 +138,7 @@ func (b Select) With(args ...stmt.WithQuery) Select {
 		return b
 	}
 
+	b.query.With.Queries = b.query.With.Queries[:len(b.query.With.Queries):len(b.query.With.Queries)]
 	b.query.With.Queries = append(b.query.With.Queries, args...)
 	return b
 }
@@ -197,6 +201,7 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
+	b.query.OrderBy.Orders = b.query.OrderBy.Orders[:len(b.query.OrderBy.Orders):len(b.query.OrderBy.Orders)]
 	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders, orders...)
 	return b
 }
diff --git a/builder/update.go b/builder/update.go
index f95bfe6..b745c61 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -58,6 +58,7 @@ func (b Update) With(args ...stmt.WithQuery) Update {
 		return b
 	}
 
+	b.query.With.Queries = b.query.With.Queries[:len(b.query.With.Queries):len(b.query.With.Queries)]
 	b.query.With.Queries = append(b.query.With.Queries, args...)
 	return b
 }
-- 
2.43.0


From 525c2d82c8fc78023d4747006b8410c563448d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 05/46] fix: do not share SET pairs between builders forked
 from the same one

Set and Using wrote in the receiver's map and slices: the receiver, and every
builder derived from it, changed (a call that panicked half-way did it too).
---
 builder/builder.go |  1 +
 builder/update.go  |  1 +
 stmt/set.go        | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 16c7dd4..9686fe6 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -338,6 +338,7 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 
 // MergeSet merges new pairs into existing ones (last write wins).
 func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
+	set.Pairs = set.Pairs.Clone()
 	for i := range args {
 		switch value := args[i].(type) {
 		case string, stmt.Column:
diff --git a/builder/update.go b/builder/update.go
index b745c61..ffa2cdb 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -44,6 +44,7 @@ func (b Update) Using(args ...interface{}) Update {
 		panic("loukoum: using clause requires a column or an expression")
 	}
 
+	b.query.Set.Pairs = b.query.Set.Pairs.Clone()
 	for i := range args {
 		b.query.Set.Pairs.Use(stmt.NewExpression(args[i]))
 	}
diff --git a/stmt/set.go b/stmt/set.go
index 48f6a6a..61f3a25 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -64,6 +64,18 @@ func NewPairContainer() PairContainer {
 	}
 }
 
+// Clone returns a copy of current instance which shares nothing with it.
+func (pairs PairContainer) Clone() PairContainer {
+	clone := NewPairContainer()
+	clone.Mode = pairs.Mode
+	for column, expression := range pairs.Map {
+		clone.Map[column] = expression
+	}
+	clone.Columns = append(clone.Columns, pairs.Columns...)
+	clone.Expressions = append(clone.Expressions, pairs.Expressions...)
+	return clone
+}
+
 // Add appends given column and expression.
 // It will configure Set's syntax to key-value (a.k.a "standard", "default" or "associative").
 //
-- 
2.43.0


From 7d44b865451356565abc4f82e4d3bbb9f28c72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 06/46] fix: do not sort the columns of a SET clause in place
 while rendering

Rendering wrote in a slice shared by every copy of the builder: a data race
between goroutines rendering the same builder.
---
 stmt/set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stmt/set.go b/stmt/set.go
index 61f3a25..fb19b73 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -140,6 +140,7 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 		return pairs.Columns, pairs.Expressions
 	}
 
+	pairs.Columns = append([]Column(nil), pairs.Columns...)
 	sort.Slice(pairs.Columns, func(i, j int) bool {
 		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
 			pairs.Columns[i].Alias < pairs.Columns[j].Alias
-- 
2.43.0


From b50caa1e3f136bac6774061937e520894df147b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 07/46] fix: order the columns of a SET clause with a strict
 weak order

The comparator answered true for both (a,b) and (b,a) when names and aliases
are ordered differently: the order of the columns depended on the order of
insertion, hence on the iteration order of the given map.
---
 stmt/set.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index fb19b73..3c16e1a 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -142,8 +142,10 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 
 	pairs.Columns = append([]Column(nil), pairs.Columns...)
 	sort.Slice(pairs.Columns, func(i, j int) bool {
-		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
-			pairs.Columns[i].Alias < pairs.Columns[j].Alias
+		if pairs.Columns[i].Name != pairs.Columns[j].Name {
+			return pairs.Columns[i].Name < pairs.Columns[j].Name
+		}
+		return pairs.Columns[i].Alias < pairs.Columns[j].Alias
 	})
 
 	columns := make([]Column, 0, len(pairs.Columns))
-- 
2.43.0


From 68efb06fcf50c6f1c987032aa4d96c419d973a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 08/46] fix: refuse an undefined condition instead of dropping
 the whole clause

A nil or empty condition given to Where, And, Or or Having made the clause
"empty": the conditions already given vanished from the query, and a DELETE
or an UPDATE silently applied to every row.
---
 stmt/having.go | 9 +++++++++
 stmt/where.go  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/stmt/having.go b/stmt/having.go
index 4adad71..6460e96 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -13,6 +13,9 @@ type Having struct {
 
 // NewHaving returns a new Having instance.
 func NewHaving(expression Expression) Having {
+	if expression == nil || expression.IsEmpty() {
+		panic("loukoum: given condition is undefined")
+	}
 	return Having{
 		Condition: expression,
 	}
@@ -39,6 +42,9 @@ func (having Having) And(right Expression) Having {
 	if having.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
+	if right == nil || right.IsEmpty() {
+		panic("loukoum: given condition is undefined")
+	}
 
 	left := having.Condition
 	operator := NewAndOperator()
@@ -51,6 +57,9 @@ func (having Having) Or(right Expression) Having {
 	if having.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
+	if right == nil || right.IsEmpty() {
+		panic("loukoum: given condition is undefined")
+	}
 
 	left := having.Condition
 	operator := NewOrOperator()
diff --git a/stmt/where.go b/stmt/where.go
index 8757fe3..6cc00a6 100644
--- a/stmt/where.go
+++ b/stmt/where.go
@@ -12,6 +12,9 @@ type Where struct {
 
 // NewWhere returns a new Where instance.
 func NewWhere(expression Expression) Where {
+	if expression == nil || expression.IsEmpty() {
+		panic("loukoum: given condition is undefined")
+	}
 	return Where{
 		Condition: NewWrapper(expression),
 	}
@@ -38,6 +41,9 @@ func (where Where) And(right Expression) Where {
 	if where.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
+	if right == nil || right.IsEmpty() {
+		panic("loukoum: given condition is undefined")
+	}
 
 	left := where.Condition
 	operator := NewAndOperator()
@@ -50,6 +56,9 @@ func (where Where) Or(right Expression) Where {
 	if where.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
+	if right == nil || right.IsEmpty() {
+		panic("loukoum: given condition is undefined")
+	}
 
 	left := where.Condition
 	operator := NewOrOperator()
-- 
2.43.0


From 3c1e946412f613c0c5e9faba0d3cc3e7350f9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 09/46] fix: refuse a condition on an identifier which cannot
 be written

Condition(x) accepts anything, and rendered nothing at all for a nil, an empty
Raw or an unsupported type: "WHERE ( = $1)".
---
 stmt/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 429b834..4288bfb 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -78,12 +78,15 @@ func (identifier Identifier) Write(ctx types.Context) {
 		ctx.Write(quote(t))
 	case Raw:
 		t.Write(ctx)
+	default:
+		panic(fmt.Sprintf("loukoum: cannot use %T as identifier", t))
 	}
 }
 
 // IsEmpty returns true if statement is undefined.
 func (identifier Identifier) IsEmpty() bool {
-	return identifier.Identifier == ""
+	raw, ok := identifier.Identifier.(Raw)
+	return identifier.Identifier == nil || identifier.Identifier == "" || (ok && raw.IsEmpty())
 }
 
 // Contains performs a "contains" comparison.
-- 
2.43.0


From e44f8e36ef02f522d5fc41771d44715310f3d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 10/46] fix: use the tables of a stmt.From given as from clause

They were replaced by nil statements, and rendering the query dereferenced
them.
---
 builder/builder.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 9686fe6..c9b9063 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -218,17 +218,17 @@ func ToTables(values []interface{}) []stmt.Table {
 func ToFrom(args ...interface{}) stmt.From {
 	from := stmt.From{}
 
-	tables := make([]stmt.Statement, len(args))
+	tables := make([]stmt.Statement, 0, len(args))
 	for i := range args {
 		switch value := args[i].(type) {
 		case string:
-			tables[i] = stmt.NewTable(value)
+			tables = append(tables, stmt.NewTable(value))
 		case stmt.From:
-			from = value
+			tables = append(tables, value.Tables...)
 		case stmt.Table:
-			tables[i] = value
+			tables = append(tables, value)
 		case stmt.Raw:
-			tables[i] = value
+			tables = append(tables, value)
 		default:
 			panic(fmt.Sprintf("loukoum: cannot use %T as from clause", args[i]))
 		}
-- 
2.43.0


From d04ace369911e1c72914a9764d48548d5260d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 11/46] fix: refuse an empty table name in a from clause

From("") was accepted and rendered FROM "", whereas every other clause refuses
an undefined table.
---
 builder/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index c9b9063..e3ac47f 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -234,6 +234,12 @@ func ToFrom(args ...interface{}) stmt.From {
 		}
 	}
 
+	for i := range tables {
+		if tables[i] == nil || tables[i].IsEmpty() {
+			panic("loukoum: given from clause is undefined")
+		}
+	}
+
 	from = stmt.NewFrom(tables)
 	if from.IsEmpty() {
 		panic("loukoum: given from clause is undefined")
-- 
2.43.0


From 7b2da95c6a930da248c8dd9ea21824662d6badca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 12/46] fix: accept an uint as limit and offset

It was the only integer type refused.
---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index e3ac47f..39b0cba 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -323,6 +323,10 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 		return int64(cast), true
 	case int32:
 		return int64(cast), true
+	case uint:
+		if uint64(cast) <= math.MaxInt64 {
+			return int64(cast), true
+		}
 	case uint8:
 		return int64(cast), true
 	case uint16:
-- 
2.43.0


From feed53c86e64573db5bad84636c7662d8817453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 13/46] fix: validate a limit or an offset given as a statement

Limit(loukoum.Limit(0)) dropped the clause and Limit(loukoum.Limit(-5)) wrote
LIMIT -5, whereas the same numbers given as integers are refused.
---
 builder/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 39b0cba..1b12a8f 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -385,6 +385,9 @@ func ToSet(args []interface{}) stmt.Set {
 func ToLimit(arg interface{}) stmt.Limit {
 	switch value := arg.(type) {
 	case stmt.Limit:
+		if value.Count <= 0 {
+			panic("loukoum: limit must be a positive integer")
+		}
 		return value
 	default:
 		limit, ok := ToInt64(value)
@@ -402,6 +405,9 @@ func ToLimit(arg interface{}) stmt.Limit {
 func ToOffset(arg interface{}) stmt.Offset {
 	switch value := arg.(type) {
 	case stmt.Offset:
+		if value.Start < 0 {
+			panic("loukoum: offset must be a non-negative integer")
+		}
 		return value
 	default:
 		offset, ok := ToInt64(value)
-- 
2.43.0


From 6ec8e98d48a1361637a689232e12c1e73affe700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 14/46] fix: refuse an undefined column given in a slice

An empty column is refused everywhere but in a []string or in a
[]stmt.SelectExpression, for which it rendered an empty identifier.
---
 builder/builder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 1b12a8f..403e31c 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -138,6 +138,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
+			for i := range array {
+				if array[i] == nil || array[i].IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+			}
 			return array
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
@@ -151,6 +156,9 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 		case []string:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
+				if array[i] == "" {
+					panic("loukoum: given column is undefined")
+				}
 				expressions = append(expressions, stmt.NewColumn(array[i]))
 			}
 			return expressions
-- 
2.43.0


From 6a4b47f46257da3be158157d34f4327420d85c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 15/46] fix: refuse an undefined order

It rendered an empty item in the ORDER BY list.
---
 builder/select.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index 316e23f..d746fcb 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -201,6 +201,11 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
+	for i := range orders {
+		if orders[i].IsEmpty() {
+			panic("loukoum: given order is undefined")
+		}
+	}
 	b.query.OrderBy.Orders = b.query.OrderBy.Orders[:len(b.query.OrderBy.Orders):len(b.query.OrderBy.Orders)]
 	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders, orders...)
 	return b
-- 
2.43.0


From a2ba340b47e4a5f3eeadb56b9ec529ffd6151ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 16/46] fix: refuse an undefined query in a WITH clause

A query without name or without statement rendered an empty item in the WITH
list.
---
 builder/select.go | 5 +++++
 builder/update.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index d746fcb..a6f7a2e 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -133,6 +133,11 @@ func (b Select) join3(args []interface{}) Select {
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with query is undefined")
+		}
+	}
 	if b.query.With.IsEmpty() {
 		b.query.With = stmt.NewWith(args)
 		return b
diff --git a/builder/update.go b/builder/update.go
index ffa2cdb..b623000 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -54,6 +54,11 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with query is undefined")
+		}
+	}
 	if b.query.With.IsEmpty() {
 		b.query.With = stmt.NewWith(args)
 		return b
-- 
2.43.0


From 16d8195a0826dc8cae334099cbaa1e34eabdcb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 17/46] fix: do not drop parts of an ON CONFLICT clause
 silently

DoUpdate() without assignment removed the whole clause from the query, and
every argument given after the action was ignored.
---
 builder/insert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 71dcf11..09a4d45 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -88,12 +88,21 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 		case string, stmt.Column:
 			b.query.OnConflict.Target.Columns = append(b.query.OnConflict.Target.Columns, ToColumn(value))
 		case stmt.ConflictNoAction:
+			if i != len(args)-1 {
+				panic("loukoum: on conflict action must be the last argument")
+			}
 			b.query.OnConflict.Action = value
 			return b
 		case stmt.ConflictUpdateAction:
 			if b.query.OnConflict.Target.IsEmpty() {
 				panic("loukoum: on conflict update clause requires at least one target")
 			}
+			if value.IsEmpty() {
+				panic("loukoum: on conflict update clause requires at least one assignment")
+			}
+			if i != len(args)-1 {
+				panic("loukoum: on conflict action must be the last argument")
+			}
 			b.query.OnConflict.Action = value
 			return b
 		default:
-- 
2.43.0


From 85842d58cb9b02e75f48188e67bbcdb59d9ae8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 18/46] fix: use NULL for a nil *time.Time

It was dereferenced.
---
 stmt/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index 4288bfb..4c517b1 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -32,6 +32,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	case time.Time:
 		return NewValue(value)
 	case *time.Time:
+		if value == nil {
+			return NewValue(nil)
+		}
 		return NewValue(*value)
 	case StatementEncoder:
 		stmt := value.Statement()
-- 
2.43.0


From 5fa6a8221849cb4aa18d85315ac8cdc7bdee724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 19/46] fix: keep a comment on a single line

The text following a line break was part of the statements sent to the
database.
---
 stmt/comment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stmt/comment.go b/stmt/comment.go
index d42d2a0..7086fa4 100644
--- a/stmt/comment.go
+++ b/stmt/comment.go
@@ -1,6 +1,8 @@
 package stmt
 
 import (
+	"strings"
+
 	"github.com/ulule/loukoum/v3/token"
 	"github.com/ulule/loukoum/v3/types"
 )
@@ -24,7 +26,8 @@ func (comment Comment) Write(ctx types.Context) {
 	}
 	ctx.Write(token.Comment.String())
 	ctx.Write(" ")
-	ctx.Write(comment.Comment)
+	// A line break ends the comment: what follows it would be executed.
+	ctx.Write(strings.NewReplacer("\r", " ", "\n", " ").Replace(comment.Comment))
 }
 
 // IsEmpty returns true if statement is undefined.
-- 
2.43.0


From 096064d310894c2cffe8766a4ca3fffc956fc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 20/46] fix: select every column when no column is given

The default was quoted: SELECT "*" asks for a column named *.
---
 builder/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/select.go b/builder/select.go
index a6f7a2e..2cd6b60 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -44,7 +44,7 @@ func (b Select) Distinct() Select {
 // Columns adds result columns to the query.
 func (b Select) Columns(args ...interface{}) Select {
 	if len(args) == 0 {
-		args = []interface{}{"*"}
+		args = []interface{}{stmt.NewRaw("*")}
 	}
 
 	b.query.Expressions = ToSelectExpressions(args)
-- 
2.43.0


From 47097511132b845e30d505dee02a0107fb392898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 21/46] fix: return EOF when there is no more token to iterate
 on

A join condition such as "a = b AND c" made the parser read after the last
token and crash with an index out of range instead of returning an error.
---
 lexer/iteratee.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer/iteratee.go b/lexer/iteratee.go
index 174115d..26dfcc7 100644
--- a/lexer/iteratee.go
+++ b/lexer/iteratee.go
@@ -25,6 +25,9 @@ func (it Iteratee) Is(next token.Type) bool {
 
 // Next returns the next token.
 func (it *Iteratee) Next() token.Token {
+	if !it.HasNext() {
+		return token.New(token.EOF, "")
+	}
 	element := it.list[it.cursor]
 	it.cursor++
 	return element
-- 
2.43.0


From c1ed5ed634eaec934d8d7bd26397a29f58058f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 22/46] fix: refuse a join which cannot be parsed entirely

Parsing stopped silently at the first unexpected token, and a second table or
condition replaced the first one: "t ON (a = b) AND (c = d)" lost "c = d".
---
 parser/join.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/join.go b/parser/join.go
index 894cb55..ce94b7f 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -27,6 +27,12 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 	for it.HasNext() {
 		e := it.Next()
 
+		// Only closing delimiters may follow the join condition.
+		if join.Condition != nil && e.Type != token.RParen && e.Type != token.Semicolon {
+			err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+			return stmt.Join{}, err
+		}
+
 		switch e.Type {
 		// Parse join type
 		case token.Join:
@@ -51,7 +57,7 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 			}
 		case token.Literal:
 			// Parse join table
-			if it.Is(token.On) {
+			if it.Is(token.On) && join.Table.IsEmpty() {
 				it.Next()
 				join.Table = stmt.NewTable(e.Value)
 				continue
@@ -132,12 +138,13 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 				continue
 			}
 
-		case token.On, token.LParen, token.RParen:
+		case token.On, token.LParen, token.RParen, token.Semicolon:
 			continue
 		}
 
-		// Ignore invalid token and stop iterating.
-		break
+		// A token which cannot be used must not be ignored: a part of the join would be lost.
+		err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+		return stmt.Join{}, err
 	}
 
 	return join, nil
-- 
2.43.0


From 7d6800c3779e9c271df2f6ee0c90ed52ec0703a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 23/46] fix: do not take a NUL character for the end of the
 input

What follows it was silently ignored.
---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 9488a9d..35774f0 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -9,7 +9,7 @@ import (
 
 const (
 	// EOF sentinel
-	eof = 0
+	eof = -1
 	// Newline sentinel
 	newline = '\n'
 )
-- 
2.43.0


From 45d4b8dca0bf1bf427cd858bc0f6b3876b5aefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 24/46] fix: write a subquery between parenthesis wherever it
 is an operand

LIKE, IS, BETWEEN and IS DISTINCT FROM operands, and the items of a list of
several expressions, were written without: "a" LIKE SELECT ...
---
 stmt/expression.go | 30 ++++++++++++++++++------------
 stmt/set.go        |  4 ++++
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 4c517b1..264342b 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -125,13 +125,13 @@ func (identifier Identifier) NotEqual(value interface{}) InfixExpression {
 // Is performs a "is" comparison.
 func (identifier Identifier) Is(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Is)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNot performs a "is not" comparison.
 func (identifier Identifier) IsNot(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsNot)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNull performs a "is null" comparison.
@@ -179,47 +179,47 @@ func (identifier Identifier) NotIn(value ...interface{}) In {
 // Like performs a "like" condition.
 func (identifier Identifier) Like(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Like)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // NotLike performs a "not like" condition.
 func (identifier Identifier) NotLike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.NotLike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // ILike performs a "ilike" condition.
 func (identifier Identifier) ILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.ILike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // NotILike performs a "not ilike" condition.
 func (identifier Identifier) NotILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.NotILike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // Between performs a "between" condition.
 func (identifier Identifier) Between(from, to interface{}) Between {
-	return NewBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // NotBetween performs a "not between" condition.
 func (identifier Identifier) NotBetween(from, to interface{}) Between {
-	return NewNotBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewNotBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // IsDistinctFrom performs an "is distinct from" comparison.
 func (identifier Identifier) IsDistinctFrom(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsDistinctFrom)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNotDistinctFrom performs an "is not distinct from" comparison.
 func (identifier Identifier) IsNotDistinctFrom(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsNotDistinctFrom)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // Ensure that Identifier is an Expression
@@ -490,6 +490,9 @@ func (array Array) Write(ctx types.Context) {
 		if i > 0 {
 			ctx.Write(", ")
 		}
+		if len(array.Values) > 1 {
+			value = NewWrapper(value)
+		}
 		value.Write(ctx)
 	}
 }
@@ -616,6 +619,9 @@ func (call Call) Write(ctx types.Context) {
 		if i > 0 {
 			ctx.Write(", ")
 		}
+		if len(call.args) > 1 {
+			arg = NewWrapper(arg)
+		}
 		arg.Write(ctx)
 	}
 	ctx.Write(")")
@@ -642,13 +648,13 @@ func (call Call) LessThan(value interface{}) InfixExpression {
 // Like performs a "like" condition.
 func (call Call) Like(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Like)
-	return NewInfixExpression(call, operator, NewExpression(value))
+	return NewInfixExpression(call, operator, NewWrapper(NewExpression(value)))
 }
 
 // ILike performs a "ilike" condition.
 func (call Call) ILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.ILike)
-	return NewInfixExpression(call, operator, NewExpression(value))
+	return NewInfixExpression(call, operator, NewWrapper(NewExpression(value)))
 }
 
 // In adds a IN expression.
diff --git a/stmt/set.go b/stmt/set.go
index 3c16e1a..5585a2b 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -210,6 +210,10 @@ func (pairs PairContainer) WriteArray(ctx types.Context) {
 		if i != 0 {
 			ctx.Write(", ")
 		}
+		if len(pairs.Expressions) > 1 {
+			NewWrapper(pairs.Expressions[i]).Write(ctx)
+			continue
+		}
 		pairs.Expressions[i].Write(ctx)
 	}
 	ctx.Write(")")
-- 
2.43.0


From ae6e29aaf1a16dd78371567557ec988e430dde22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 25/46] fix: keep one expression per cell in the rows of a
 VALUES clause

A row of one cell was flattened when the cell is a slice, and vanished when it
is nil: VALUES (). Arguments given after a list of rows were ignored.
---
 stmt/expression.go | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 264342b..3d2bd56 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -303,19 +303,39 @@ type ArrayList struct {
 func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyclo
 	// We pass only one argument and it's a slice or an expression.
 	arraylist := toArrayList(values[0])
+	if len(arraylist.Values) != 0 && len(values) > 1 {
+		panic("loukoum: a list of rows must be the only argument")
+	}
 	if len(arraylist.Values) == 0 {
-		arraylist.Values = []Expression{NewArrayExpression(values...)}
+		row := Array{}
+		if len(values) == 1 && values[0] != nil {
+			row = toArray(values[0])
+		} else {
+			for i := range values {
+				row.Append(values[i])
+			}
+		}
+		arraylist.Values = []Expression{row.asRow()}
 
 	}
 	return arraylist
 }
 
+// newRow creates a row of a list of rows: it has one expression per given value.
+func newRow(values []interface{}) Expression {
+	row := Array{}
+	for i := range values {
+		row.Append(values[i])
+	}
+	return row.asRow()
+}
+
 func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 	arraylist := ArrayList{}
 	switch values := value.(type) {
 	case [][]interface{}:
 		for i := range values {
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
+			arraylist.Values = append(arraylist.Values, newRow(values[i]))
 		}
 	case [][]string:
 		for i := range values {
@@ -324,7 +344,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 				raws[j] = values[i][j]
 			}
 
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	case [][]int:
 		for i := range values {
@@ -332,7 +352,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	case [][]int64:
 		for i := range values {
@@ -340,7 +360,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	case [][]bool:
 		for i := range values {
@@ -348,7 +368,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	case [][]Expression:
 		for i := range values {
@@ -356,7 +376,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	}
 
@@ -507,6 +527,14 @@ func (array *Array) Append(value interface{}) {
 	array.Values = append(array.Values, NewExpression(value))
 }
 
+// asRow returns given array with its subqueries between parenthesis.
+func (array Array) asRow() Array {
+	for i := range array.Values {
+		array.Values[i] = NewWrapper(array.Values[i])
+	}
+	return array
+}
+
 // Ensure that Array is an Expression
 var _ Expression = Array{}
 
-- 
2.43.0


From ee0344e969d29a3c12948ffa57e0e7c5fe1d10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 26/46] fix: copy the slices given as arguments

Builders kept the caller's slice of columns, select expressions, WITH queries
or call arguments: writing in it later changed a query already built.
---
 builder/builder.go | 4 ++--
 stmt/expression.go | 2 +-
 stmt/with.go       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 403e31c..ed8321a 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -96,7 +96,7 @@ func ToColumns(values []interface{}) []stmt.Column { // nolint: gocyclo
 					panic("loukoum: given column is undefined")
 				}
 			}
-			return array
+			return append([]stmt.Column(nil), array...)
 		case []string:
 			list := make([]interface{}, len(array))
 			for i := range array {
@@ -143,7 +143,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 					panic("loukoum: given column is undefined")
 				}
 			}
-			return array
+			return append([]stmt.SelectExpression(nil), array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
diff --git a/stmt/expression.go b/stmt/expression.go
index 3d2bd56..d617aba 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -633,7 +633,7 @@ type Call struct {
 func NewCall(function string, args ...Expression) Call {
 	return Call{
 		function: function,
-		args:     args,
+		args:     append([]Expression(nil), args...),
 	}
 }
 
diff --git a/stmt/with.go b/stmt/with.go
index 3ab0612..4ac8e29 100644
--- a/stmt/with.go
+++ b/stmt/with.go
@@ -13,7 +13,7 @@ type With struct {
 // NewWith returns a new With instance.
 func NewWith(queries []WithQuery) With {
 	return With{
-		Queries: queries,
+		Queries: append([]WithQuery(nil), queries...),
 	}
 }
 
-- 
2.43.0


From 9d5da2e72912dd39b5f153a1fb91897cd539b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 27/46] fix: do not write the comment of a subquery

A comment runs up to the end of the query, so it swallowed the rest of the
enclosing statement: WHERE ("id" IN (SELECT ...; -- foo)).
---
 stmt/expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index d617aba..ea5fb66 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -21,6 +21,10 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		return NewValue(nil)
 	}
 	switch value := arg.(type) {
+	case Select:
+		// The comment of a subquery would swallow the closing parenthesis.
+		value.Comment = Comment{}
+		return value
 	case Expression:
 		return value
 	case string, bool, int, int8, int16, int32, int64,
@@ -42,6 +46,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		if !ok {
 			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
 		}
+		if selekt, ok := expression.(Select); ok {
+			return NewExpression(selekt)
+		}
 		return expression
 	case Int64Encoder:
 		return NewValue(value.Int64())
-- 
2.43.0


From 7f6108a66bb5469a752143ab6dca9861be9a8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 28/46] fix: refuse a row without value in a VALUES clause

It rendered VALUES (), for instance when Set is given an empty map.
---
 stmt/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index ea5fb66..a935bd6 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -325,6 +325,11 @@ func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyc
 		arraylist.Values = []Expression{row.asRow()}
 
 	}
+	for i := range arraylist.Values {
+		if arraylist.Values[i].IsEmpty() {
+			panic("loukoum: a row requires at least one value")
+		}
+	}
 	return arraylist
 }
 
-- 
2.43.0


From feca7e54ee677d2afc0b6cf1a6fbb37aadd49ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 29/46] fix: write a subquery between parenthesis when it is a
 condition

As an operand of And and Or, or as HAVING condition, it was written without.
---
 stmt/having.go | 2 +-
 stmt/infix.go  | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/stmt/having.go b/stmt/having.go
index 6460e96..814c2a2 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -17,7 +17,7 @@ func NewHaving(expression Expression) Having {
 		panic("loukoum: given condition is undefined")
 	}
 	return Having{
-		Condition: expression,
+		Condition: NewWrapper(expression),
 	}
 }
 
diff --git a/stmt/infix.go b/stmt/infix.go
index 09841b9..2ebe018 100644
--- a/stmt/infix.go
+++ b/stmt/infix.go
@@ -14,6 +14,12 @@ type InfixExpression struct {
 
 // NewInfixExpression returns a new InfixExpression instance.
 func NewInfixExpression(left Expression, operator Operator, right Expression) InfixExpression {
+	if selekt, ok := left.(Select); ok {
+		left = NewWrapper(selekt)
+	}
+	if selekt, ok := right.(Select); ok {
+		right = NewWrapper(selekt)
+	}
 	return InfixExpression{
 		Left:     left,
 		Operator: operator,
-- 
2.43.0


From a22a9a61e7badf2e5e9418a16efdcd5da28f0d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 30/46] fix: refuse an empty raw expression wherever it is
 written

---
 stmt/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index a935bd6..f885c35 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -571,6 +571,9 @@ func (Raw) selectExpression() {}
 
 // Write exposes statement as a SQL query.
 func (raw Raw) Write(ctx types.Context) {
+	if raw.IsEmpty() {
+		panic("loukoum: raw expression is undefined")
+	}
 	ctx.Write(raw.Value)
 }
 
-- 
2.43.0


From 367d24fa968ac8bf179e0c706f39b87ecf03d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 31/46] fix: refuse a call without function name

---
 stmt/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index f885c35..e3ebdf7 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -656,6 +656,9 @@ func (Call) expression() {}
 
 // Write writes call to ctx.
 func (call Call) Write(ctx types.Context) {
+	if call.IsEmpty() {
+		panic("loukoum: call is undefined")
+	}
 	ctx.Write(call.function)
 	ctx.Write("(")
 	for i, arg := range call.args {
@@ -713,7 +716,7 @@ func (call Call) Overlap(what interface{}) InfixExpression {
 
 // IsEmpty reports whether call is empty.
 func (call Call) IsEmpty() bool {
-	return false
+	return call.function == ""
 }
 
 // Ensure that Value is an Expression
-- 
2.43.0


From 303739d4ba1e4ad84dadbae91b55dcb3f0d47520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 32/46] fix: refuse an undefined item in a list of expressions

---
 stmt/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index e3ebdf7..c0aa99c 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -523,6 +523,9 @@ func (array Array) Write(ctx types.Context) {
 			ctx.Write(", ")
 		}
 		if len(array.Values) > 1 {
+			if value.IsEmpty() {
+				panic("loukoum: list item is undefined")
+			}
 			value = NewWrapper(value)
 		}
 		value.Write(ctx)
@@ -666,6 +669,9 @@ func (call Call) Write(ctx types.Context) {
 			ctx.Write(", ")
 		}
 		if len(call.args) > 1 {
+			if arg.IsEmpty() {
+				panic("loukoum: call argument is undefined")
+			}
 			arg = NewWrapper(arg)
 		}
 		arg.Write(ctx)
-- 
2.43.0


From c4668ba8153b6c84a5aa5b25af3b710f44068965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 33/46] fix: refuse a join text with several join kinds

---
 parser/join.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parser/join.go b/parser/join.go
index ce94b7f..0e0881f 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -24,6 +24,9 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 		Type: types.InnerJoin,
 	}
 
+	// A join has a single kind: another one must not replace it.
+	kind := false
+
 	for it.HasNext() {
 		e := it.Next()
 
@@ -36,22 +39,28 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 		switch e.Type {
 		// Parse join type
 		case token.Join:
-			continue
+			if !kind {
+				kind = true
+				continue
+			}
 		case token.Inner:
-			if it.Is(token.Join) {
+			if it.Is(token.Join) && !kind {
 				it.Next()
+				kind = true
 				join.Type = types.InnerJoin
 				continue
 			}
 		case token.Left:
-			if it.Is(token.Join) {
+			if it.Is(token.Join) && !kind {
 				it.Next()
+				kind = true
 				join.Type = types.LeftJoin
 				continue
 			}
 		case token.Right:
-			if it.Is(token.Join) {
+			if it.Is(token.Join) && !kind {
 				it.Next()
+				kind = true
 				join.Type = types.RightJoin
 				continue
 			}
-- 
2.43.0


From 17eca0cd216615762c57b570e786983080e1ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 34/46] fix: refuse a join text which contradicts the given
 table or kind

---
 builder/select.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index 2cd6b60..e55b02c 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -116,6 +116,9 @@ func (b Select) join3(args []interface{}) Select {
 
 	switch value := args[2].(type) {
 	case types.JoinType:
+		if join.Type != types.InnerJoin && join.Type != value {
+			panic("loukoum: given join clause has another type")
+		}
 		join.Type = value
 	default:
 		panic(fmt.Sprintf("loukoum: cannot use %T as join clause", args[1]))
@@ -310,6 +313,9 @@ func handleSelectJoin(args []interface{}) stmt.Join {
 	switch value := args[1].(type) {
 	case string:
 		join = parser.MustParseJoin(value)
+		if !join.Table.IsEmpty() && join.Table.Name != table.Name {
+			panic("loukoum: given join clause names another table")
+		}
 	case stmt.OnClause:
 		join = stmt.NewInnerJoin(table, value)
 	case stmt.InfixOnExpression:
-- 
2.43.0


From bcb8699494f21a6fbb1d1d27ec1781cd46ff91b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 35/46] fix: write a subquery between parenthesis when it is a
 join condition

---
 stmt/join.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/join.go b/stmt/join.go
index 397bec5..8a6ab53 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -17,7 +17,7 @@ func NewJoin(kind types.JoinType, table Table, condition Expression) Join {
 	return Join{
 		Type:      kind,
 		Table:     table,
-		Condition: condition,
+		Condition: NewWrapper(condition),
 	}
 }
 
-- 
2.43.0


From 08e6602b40869d2be394ba769a8ff6d0e694d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 36/46] fix: refuse EXISTS on an undefined subquery

---
 stmt/subquery.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stmt/subquery.go b/stmt/subquery.go
index a0096e7..f016318 100644
--- a/stmt/subquery.go
+++ b/stmt/subquery.go
@@ -21,6 +21,9 @@ func (Exists) expression() {}
 
 // Write exposes statement as a SQL query.
 func (exists Exists) Write(ctx types.Context) {
+	if exists.IsEmpty() {
+		panic("loukoum: expression is undefined")
+	}
 	ctx.Write(token.Exists.String())
 	ctx.Write(" (")
 	exists.Subquery.Write(ctx)
@@ -28,8 +31,8 @@ func (exists Exists) Write(ctx types.Context) {
 }
 
 // IsEmpty returns true if statement is undefined.
-func (Exists) IsEmpty() bool {
-	return false
+func (exists Exists) IsEmpty() bool {
+	return exists.Subquery == nil || exists.Subquery.IsEmpty()
 }
 
 func (Exists) selectExpression() {}
@@ -53,6 +56,9 @@ func (NotExists) expression() {}
 
 // Write exposes statement as a SQL query.
 func (nexists NotExists) Write(ctx types.Context) {
+	if nexists.IsEmpty() {
+		panic("loukoum: expression is undefined")
+	}
 	ctx.Write(token.Not.String())
 	ctx.Write(" ")
 	ctx.Write(token.Exists.String())
@@ -62,8 +68,8 @@ func (nexists NotExists) Write(ctx types.Context) {
 }
 
 // IsEmpty returns true if statement is undefined.
-func (NotExists) IsEmpty() bool {
-	return false
+func (nexists NotExists) IsEmpty() bool {
+	return nexists.Subquery == nil || nexists.Subquery.IsEmpty()
 }
 
 func (NotExists) selectExpression() {}
-- 
2.43.0


From 288344bb8e62b1b2561f5c518649c3629cd00e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 37/46] fix: refuse an undefined expression as an assigned
 value

---
 stmt/set.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stmt/set.go b/stmt/set.go
index 5585a2b..878685f 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -186,6 +186,10 @@ func (pairs PairContainer) WriteAssociative(ctx types.Context) {
 			ctx.Write(", ")
 		}
 
+		if expressions[i].IsEmpty() {
+			panic("loukoum: values for SET clause are required")
+		}
+
 		columns[i].Write(ctx)
 		ctx.Write(" = ")
 		expressions[i].Write(ctx)
@@ -210,6 +214,9 @@ func (pairs PairContainer) WriteArray(ctx types.Context) {
 		if i != 0 {
 			ctx.Write(", ")
 		}
+		if pairs.Expressions[i].IsEmpty() {
+			panic("loukoum: values for SET clause are required")
+		}
 		if len(pairs.Expressions) > 1 {
 			NewWrapper(pairs.Expressions[i]).Write(ctx)
 			continue
-- 
2.43.0


From 6698b8e161ed92203611a0bf288b4463152cce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 38/46] fix: refuse an undefined identifier wherever it is
 written

---
 stmt/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index c0aa99c..e99c3ef 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -83,6 +83,9 @@ func (Identifier) expression() {}
 
 // Write exposes statement as a SQL query.
 func (identifier Identifier) Write(ctx types.Context) {
+	if identifier.IsEmpty() {
+		panic("loukoum: identifier is undefined")
+	}
 	switch t := identifier.Identifier.(type) {
 	case string:
 		ctx.Write(quote(t))
-- 
2.43.0


From 8f6bada0df9a7ff9930290ebabbb6ec8216f522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 39/46] fix: refuse an ON clause without its two columns
 wherever it is written

---
 stmt/on.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt/on.go b/stmt/on.go
index ab94c81..175c653 100644
--- a/stmt/on.go
+++ b/stmt/on.go
@@ -44,6 +44,10 @@ func (on OnClause) Or(value OnExpression) OnExpression {
 
 // Write exposes statement as a SQL query.
 func (on OnClause) Write(ctx types.Context) {
+	if on.IsEmpty() {
+		panic("loukoum: expression is undefined")
+	}
+
 	on.Left.Write(ctx)
 	ctx.Write(" ")
 	ctx.Write(token.Equals.String())
-- 
2.43.0


From c016183fcdf7aa3030ffc381682fcd1737114863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 40/46] fix: refuse an undefined expression between parenthesis

---
 stmt/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index e99c3ef..2fcb873 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -627,6 +627,9 @@ func (Wrapper) expression() {}
 
 // Write exposes statement as a SQL query.
 func (wrapper Wrapper) Write(ctx types.Context) {
+	if wrapper.IsEmpty() {
+		panic("loukoum: expression is undefined")
+	}
 	ctx.Write("(")
 	wrapper.Value.Write(ctx)
 	ctx.Write(")")
@@ -634,7 +637,7 @@ func (wrapper Wrapper) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (wrapper Wrapper) IsEmpty() bool {
-	return wrapper.Value.IsEmpty()
+	return wrapper.Value == nil || wrapper.Value.IsEmpty()
 }
 
 // Ensure that Wrapper is an Expression
-- 
2.43.0


From f9564b6b74298205ed0831a53bdacbc21729c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 41/46] fix: copy the lists given to the statement constructors

---
 stmt/conflict.go    | 2 +-
 stmt/distinct_on.go | 2 +-
 stmt/from.go        | 2 +-
 stmt/groupby.go     | 2 +-
 stmt/orderby.go     | 2 +-
 stmt/returning.go   | 2 +-
 stmt/using.go       | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/stmt/conflict.go b/stmt/conflict.go
index df254f6..16630bb 100644
--- a/stmt/conflict.go
+++ b/stmt/conflict.go
@@ -51,7 +51,7 @@ type ConflictTarget struct {
 // NewConflictTarget returns a new ConflictTarget instance.
 func NewConflictTarget(columns []Column) ConflictTarget {
 	return ConflictTarget{
-		Columns: columns,
+		Columns: append([]Column(nil), columns...),
 	}
 }
 
diff --git a/stmt/distinct_on.go b/stmt/distinct_on.go
index 8c951c3..916c2bc 100644
--- a/stmt/distinct_on.go
+++ b/stmt/distinct_on.go
@@ -13,7 +13,7 @@ type DistinctOn struct {
 // NewDistinctOn returns a new DistinctOn instance.
 func NewDistinctOn(columns []Column) DistinctOn {
 	return DistinctOn{
-		Columns: columns,
+		Columns: append([]Column(nil), columns...),
 	}
 }
 
diff --git a/stmt/from.go b/stmt/from.go
index 1fcfef2..7266382 100644
--- a/stmt/from.go
+++ b/stmt/from.go
@@ -13,7 +13,7 @@ type From struct {
 // NewFrom returns a new From instance.
 func NewFrom(tables []Statement) From {
 	return From{
-		Tables: tables,
+		Tables: append([]Statement(nil), tables...),
 	}
 }
 
diff --git a/stmt/groupby.go b/stmt/groupby.go
index 042d1a0..3ca38fd 100644
--- a/stmt/groupby.go
+++ b/stmt/groupby.go
@@ -13,7 +13,7 @@ type GroupBy struct {
 // NewGroupBy returns a new GroupBy instance.
 func NewGroupBy(columns []Column) GroupBy {
 	return GroupBy{
-		Columns: columns,
+		Columns: append([]Column(nil), columns...),
 	}
 }
 
diff --git a/stmt/orderby.go b/stmt/orderby.go
index d47ded3..059b7c9 100644
--- a/stmt/orderby.go
+++ b/stmt/orderby.go
@@ -13,7 +13,7 @@ type OrderBy struct {
 // NewOrderBy returns a new OrderBy instance.
 func NewOrderBy(orders []Order) OrderBy {
 	return OrderBy{
-		Orders: orders,
+		Orders: append([]Order(nil), orders...),
 	}
 }
 
diff --git a/stmt/returning.go b/stmt/returning.go
index 5c94460..584457b 100644
--- a/stmt/returning.go
+++ b/stmt/returning.go
@@ -13,7 +13,7 @@ type Returning struct {
 // NewReturning returns a new Returning instance.
 func NewReturning(exprs []SelectExpression) Returning {
 	return Returning{
-		Columns: exprs,
+		Columns: append([]SelectExpression(nil), exprs...),
 	}
 }
 
diff --git a/stmt/using.go b/stmt/using.go
index a769f45..2c1176f 100644
--- a/stmt/using.go
+++ b/stmt/using.go
@@ -13,7 +13,7 @@ type Using struct {
 // NewUsing returns a new Using instance.
 func NewUsing(tables []Table) Using {
 	return Using{
-		Tables: tables,
+		Tables: append([]Table(nil), tables...),
 	}
 }
 
-- 
2.43.0


From 2fd316a01b607f0eab8eeedd9b55dce6f879d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 42/46] fix: a missing subquery is undefined, not NULL

---
 stmt/subquery.go | 6 ++++++
 stmt/with.go     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/stmt/subquery.go b/stmt/subquery.go
index f016318..f7a5e3e 100644
--- a/stmt/subquery.go
+++ b/stmt/subquery.go
@@ -12,6 +12,9 @@ type Exists struct {
 
 // NewExists returns a new Exists instance.
 func NewExists(value interface{}) Exists {
+	if value == nil {
+		return Exists{}
+	}
 	return Exists{
 		Subquery: NewExpression(value),
 	}
@@ -47,6 +50,9 @@ type NotExists struct {
 
 // NewNotExists returns a new NotExists instance.
 func NewNotExists(value interface{}) NotExists {
+	if value == nil {
+		return NotExists{}
+	}
 	return NotExists{
 		Subquery: NewExpression(value),
 	}
diff --git a/stmt/with.go b/stmt/with.go
index 4ac8e29..030ed0b 100644
--- a/stmt/with.go
+++ b/stmt/with.go
@@ -63,6 +63,9 @@ func (with WithQuery) IsEmpty() bool {
 
 // NewWithQuery returns a new WithQuery instance.
 func NewWithQuery(name string, value interface{}) WithQuery {
+	if value == nil {
+		return WithQuery{Name: name}
+	}
 	return WithQuery{
 		Name:     name,
 		Subquery: NewExpression(value),
-- 
2.43.0


From 207e7234c0b417600fba344e6cf82288fc163100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:40 +0000
Subject: [PATCH 43/46] fix: a row made of an empty list is refused

---
 stmt/expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 2fcb873..cc3f228 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -329,7 +329,8 @@ func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyc
 
 	}
 	for i := range arraylist.Values {
-		if arraylist.Values[i].IsEmpty() {
+		row, ok := arraylist.Values[i].(Array)
+		if arraylist.Values[i].IsEmpty() || ok && len(row.Values) == 1 && row.Values[0].IsEmpty() {
 			panic("loukoum: a row requires at least one value")
 		}
 	}
-- 
2.43.0


From 1dcbed84379ee748325b2b25d118c5cace91a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:31 +0000
Subject: [PATCH 44/46] fix: write ONLY once when both the table and the update
 ask for it

---
 stmt/update.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stmt/update.go b/stmt/update.go
index 8b09560..eefcda4 100644
--- a/stmt/update.go
+++ b/stmt/update.go
@@ -38,9 +38,9 @@ func (update Update) Write(ctx types.Context) {
 
 	ctx.Write(token.Update.String())
 
+	// The table may be given with ONLY too: it's written once.
 	if update.Only {
-		ctx.Write(" ")
-		ctx.Write(token.Only.String())
+		update.Table = update.Table.Only()
 	}
 
 	ctx.Write(" ")
-- 
2.43.0


From d0f0bf9b3fdf82677f5f778e48ea1a52b54de4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:14 +0000
Subject: [PATCH 45/46] fix: show named types and pointers as the literal of
 what they hold

---
 format/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/format.go b/format/format.go
index a6e0d52..804d843 100644
--- a/format/format.go
+++ b/format/format.go
@@ -62,6 +62,11 @@ func Value(arg interface{}) string { // nolint: gocyclo
 	case float64:
 		return Float(value)
 	default:
+		// A named type or a pointer is bound by database/sql as the value that it holds.
+		v, err := driver.DefaultParameterConverter.ConvertValue(arg)
+		if err == nil {
+			return Value(v)
+		}
 		return fmt.Sprint(value)
 	}
 }
-- 
2.43.0


From d0cee9b1cd8a82b331a26abb2c91b451a41695c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:17 +0000
Subject: [PATCH 46/46] fix: show a nil []byte as NULL

A nil []byte is NULL for the drivers (pgx, lib/pq), as is the nil value of a
sql.Scanner target; String() showed it as an empty byte string, which is a
different value.
---
 format/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/format.go b/format/format.go
index 804d843..9ca0238 100644
--- a/format/format.go
+++ b/format/format.go
@@ -20,6 +20,9 @@ func Value(arg interface{}) string { // nolint: gocyclo
 	case string:
 		return String(value)
 	case []byte:
+		if value == nil {
+			return "NULL"
+		}
 		return Bytes(value)
 	case time.Time:
 		return Time(value)
-- 
2.43.0

