------------------------------- MODULE VxTable -------------------------------
(* Tables, row expressions over them, and scans of a table.                    *)
(* A table is a sequence of columns, each a sequence of n values.  A scan      *)
(* delivers a table's rows in batches; VxScan is the state machine.            *)
EXTENDS VxValues

MinI(a, b) == IF a < b THEN a ELSE b

(* ---- expressions, as records ---------------------------------------------*)
(* [t |-> "col", c], [t |-> "lit", v], [t |-> "cmp", op, l, r],                *)
(* [t |-> "and", l, r], [t |-> "or", l, r]                                     *)
RECURSIVE EvalAt(_, _, _)
EvalAt(x, cols, i) ==
  CASE x.t = "col" -> cols[x.c][i]
    [] x.t = "lit" -> x.v
    [] x.t = "cmp" -> Cmp(x.op, EvalAt(x.l, cols, i), EvalAt(x.r, cols, i))
    [] x.t = "and" -> AndN(EvalAt(x.l, cols, i), EvalAt(x.r, cols, i))
    [] x.t = "or"  -> OrN(EvalAt(x.l, cols, i), EvalAt(x.r, cols, i))
Eval(x, cols, n) == [i \in 1..n |-> EvalAt(x, cols, i)]

(* a filter selects the rows for which it is true: not false, not null         *)
Selected(x, cols, n) == [i \in 1..n |-> B(EvalAt(x, cols, i) = 1)]

(* the columns an expression reads                                             *)
RECURSIVE Refs(_)
Refs(x) ==
  CASE x.t = "col" -> {x.c}
    [] x.t = "lit" -> {}
    [] OTHER -> Refs(x.l) \cup Refs(x.r)

(* the conjuncts of an expression                                              *)
RECURSIVE Conjuncts(_)
Conjuncts(x) == IF x.t = "and" THEN Conjuncts(x.l) \o Conjuncts(x.r) ELSE <<x>>

(* ---- what a scan returns -------------------------------------------------*)
(* numbers of the rows of the table that satisfy the filter (f: <<>> or <<x>>) *)
Rows(f, cols, n) ==
  IF f = <<>> THEN [i \in 1..n |-> i]
  ELSE SelectSeq([i \in 1..n |-> i], LAMBDA i : EvalAt(f[1], cols, i) = 1)
(* those rows, restricted to the columns of a projection                       *)
Project(cols, rows, p) == [j \in 1..Len(p) |-> [i \in 1..Len(rows) |-> cols[p[j]][rows[i]]]]
=============================================================================
