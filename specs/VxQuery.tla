------------------------------- MODULE VxQuery -------------------------------
(* SQL queries over a table: WHERE with three-valued logic, projection, LIMIT, *)
(* simple aggregates, and what a planner may be told about a table.            *)
(* A result is a bag of rows: SQL gives it no order.                           *)
EXTENDS VxTable

RECURSIVE SqlAt(_, _, _)
SqlAt(x, cols, i) ==
  CASE x.t = "col" -> cols[x.c][i]
    [] x.t = "lit" -> x.v
    [] x.t = "cmp" -> Cmp(x.op, SqlAt(x.l, cols, i), SqlAt(x.r, cols, i))
    [] x.t = "and" -> AndK(SqlAt(x.l, cols, i), SqlAt(x.r, cols, i))
    [] x.t = "or"  -> OrK(SqlAt(x.l, cols, i), SqlAt(x.r, cols, i))
    [] x.t = "not" -> Not3(SqlAt(x.l, cols, i))
    [] x.t = "null" -> B(SqlAt(x.l, cols, i) = NULL)

(* the rows of the table for which WHERE is true                               *)
Where(f, cols, n) ==
  IF f = <<>> THEN [i \in 1..n |-> i]
  ELSE SelectSeq([i \in 1..n |-> i], LAMBDA i : SqlAt(f[1], cols, i) = 1)

(* rows as tuples                                                              *)
Tuples(cols, rows, p) == [k \in 1..Len(rows) |-> [j \in 1..Len(p) |-> cols[p[j]][rows[k]]]]
Count(r, rows) == Cardinality({k \in 1..Len(rows) : rows[k] = r})
SubBag(a, b) == \A r \in Range(a) : Count(r, a) <= Count(r, b)
SameBag(a, b) == Len(a) = Len(b) /\ SubBag(a, b)

MinOf(s) == IF NonNull(s) = <<>> THEN NULL ELSE CHOOSE x \in Range(NonNull(s)) : \A y \in Range(NonNull(s)) : x <= y
MaxOf(s) == IF NonNull(s) = <<>> THEN NULL ELSE CHOOSE x \in Range(NonNull(s)) : \A y \in Range(NonNull(s)) : x >= y
ColOf(cols, rows, c) == [k \in 1..Len(rows) |-> cols[c][rows[k]]]
Agg(a, cols, rows) ==
  CASE a.g = "count*" -> Len(rows)
    [] a.g = "count" -> Len(NonNull(ColOf(cols, rows, a.c)))
    [] a.g = "min" -> MinOf(ColOf(cols, rows, a.c))
    [] a.g = "max" -> MaxOf(ColOf(cols, rows, a.c))
=============================================================================
