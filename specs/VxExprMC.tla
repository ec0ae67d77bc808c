------------------------------- MODULE VxExprMC -------------------------------
(* Row expressions, built bottom up on a stack: columns x and y of one type and  *)
(* b of booleans, constants, comparisons and connectives.  They are judged on a  *)
(* table that has every combination of values (and null) once, so that a law     *)
(* that holds on it holds on every table.  Every expression is exported and      *)
(* evaluated by the library, as itself, as a filter and as a set of conjuncts.   *)
EXTENDS VxTable, SequencesExt, Json, TLC

CONSTANTS Ops, Leaves,     \* of comparisons: subset of {"x", "y", "0", "1", "null"}
          WithB,           \* the boolean column is an expression
          MaxCmps, MaxJoins, MaxStack, Exporting

V3 == {0, 1, NULL}
Row(i) == <<i \div 9, (i \div 3) % 3, i % 3>>
Val(k) == IF k = 2 THEN NULL ELSE k
N == 27
Cols == [c \in 1..3 |-> [i \in 1..N |-> Val(Row(i - 1)[c])]]

Leaf(s) == CASE s = "x" -> [t |-> "col", c |-> 1] [] s = "y" -> [t |-> "col", c |-> 2]
             [] s = "0" -> [t |-> "lit", v |-> 0] [] s = "1" -> [t |-> "lit", v |-> 1] [] s = "null" -> [t |-> "lit", v |-> NULL]

VARIABLES stack, cmps, joins, done
vars == <<stack, cmps, joins, done>>
Init == stack = <<>> /\ cmps = 0 /\ joins = 0 /\ done = FALSE

Push(e) == stack' = Append(stack, e)
Compare == /\ cmps < MaxCmps /\ Len(stack) < MaxStack
           /\ \E op \in Ops, l \in Leaves, r \in Leaves : Push([t |-> "cmp", op |-> op, l |-> Leaf(l), r |-> Leaf(r)])
           /\ cmps' = cmps + 1 /\ UNCHANGED <<joins, done>>
Column == /\ WithB /\ cmps < MaxCmps /\ Len(stack) < MaxStack
          /\ Push([t |-> "col", c |-> 3])
          /\ cmps' = cmps + 1 /\ UNCHANGED <<joins, done>>
Join == /\ joins < MaxJoins /\ Len(stack) >= 2
        /\ \E o \in {"and", "or"} :
             LET n == Len(stack) IN stack' = SubSeq(stack, 1, n - 2) \o <<[t |-> o, l |-> stack[n - 1], r |-> stack[n]]>>
        /\ joins' = joins + 1 /\ UNCHANGED <<cmps, done>>
End == /\ Len(stack) = 1 /\ ~done /\ done' = TRUE
       /\ IF Exporting THEN PrintT(<<"BEH", ToJson([x |-> stack[1]])>>) ELSE TRUE
       /\ UNCHANGED <<stack, cmps, joins>>
Next == ~done /\ (Compare \/ Column \/ Join \/ End)
Spec == Init /\ [][Next]_vars

(* ---- laws --------------------------------------------------------------------*)
X == stack[Len(stack)]
E(e) == Eval(e, Cols, N)
And_(l, r) == [t |-> "and", l |-> l, r |-> r]
Or_(l, r) == [t |-> "or", l |-> l, r |-> r]
RECURSIVE Conj(_)
Conj(s) == IF Len(s) = 1 THEN s[1] ELSE And_(s[1], Conj(Tail(s)))

Values == stack # <<>> => \A i \in 1..N : E(X)[i] \in V3
(* a filter is the conjunction of its conjuncts, in any order and shape         *)
Split == stack # <<>> =>
  LET s == Conjuncts(X) IN
  /\ \A i \in 1..N : Selected(X, Cols, N)[i] = B(\A k \in 1..Len(s) : E(s[k])[i] = 1)
  /\ E(Conj(s)) = E(X) /\ E(Conj(Reverse(s))) = E(X)
(* the columns that are not referred to do not matter, and only those           *)
Reads == stack # <<>> =>
  \A i, k \in 1..N : (\A c \in Refs(X) : Cols[c][i] = Cols[c][k]) => E(X)[i] = E(X)[k]
(* a null operand gives null, whichever the connective                          *)
Nulls == stack # <<>> => (X.t \in {"and", "or", "cmp"} =>
  \A i \in 1..N : E(X)[i] = NULL <=> (EvalAt(X.l, Cols, i) = NULL \/ EvalAt(X.r, Cols, i) = NULL))
Swap == stack # <<>> => (X.t \in {"and", "or"} => E([X EXCEPT !.l = X.r, !.r = X.l]) = E(X))
Distribute == (stack # <<>> /\ X.t = "and" /\ X.r.t = "or") => E(Or_(And_(X.l, X.r.l), And_(X.l, X.r.r))) = E(X)
=============================================================================
