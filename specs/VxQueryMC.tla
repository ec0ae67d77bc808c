------------------------------ MODULE VxQueryMC -------------------------------
(* A query from its text to its rows.  WHERE is built bottom up; the planner      *)
(* hands some of its conjuncts to the scan and keeps the others; the scan filters *)
(* with the connectives of the library, for which null is contagious; the engine  *)
(* filters what comes out by what it kept.  The rows have to be those of WHERE    *)
(* whatever was handed over.  Every WHERE is exported and run by the engine over  *)
(* the table providers.                                                           *)
EXTENDS VxQuery, Json, TLC

CONSTANTS Ops, Leaves, WithB, MaxCmps, MaxJoins, MaxUnary, MaxStack,
          PushAll,       \* the scan takes anything (it must not)
          Exporting

Row(i) == <<i \div 9, (i \div 3) % 3, i % 3>>
Val(k) == IF k = 2 THEN NULL ELSE k
N == 27
Cols == [c \in 1..3 |-> [i \in 1..N |-> Val(Row(i - 1)[c])]]
Leaf(s) == CASE s = "x" -> [t |-> "col", c |-> 1] [] s = "y" -> [t |-> "col", c |-> 2]
             [] s = "0" -> [t |-> "lit", v |-> 0] [] s = "1" -> [t |-> "lit", v |-> 1] [] s = "null" -> [t |-> "lit", v |-> NULL]

VARIABLES stack, cmps, joins, unary, ph, kept, rows
vars == <<stack, cmps, joins, unary, ph, kept, rows>>
Init == stack = <<>> /\ cmps = 0 /\ joins = 0 /\ unary = 0 /\ ph = "text" /\ kept = <<>> /\ rows = <<>>

Push(e) == stack' = Append(stack, e)
Compare == /\ ph = "text" /\ cmps < MaxCmps /\ Len(stack) < MaxStack
           /\ \E op \in Ops, l \in Leaves, r \in Leaves : Push([t |-> "cmp", op |-> op, l |-> Leaf(l), r |-> Leaf(r)])
           /\ cmps' = cmps + 1 /\ UNCHANGED <<joins, unary, ph, kept, rows>>
Column == /\ ph = "text" /\ WithB /\ cmps < MaxCmps /\ Len(stack) < MaxStack
          /\ Push([t |-> "col", c |-> 3])
          /\ cmps' = cmps + 1 /\ UNCHANGED <<joins, unary, ph, kept, rows>>
Join == /\ ph = "text" /\ joins < MaxJoins /\ Len(stack) >= 2
        /\ \E o \in {"and", "or"} :
             LET n == Len(stack) IN stack' = SubSeq(stack, 1, n - 2) \o <<[t |-> o, l |-> stack[n - 1], r |-> stack[n]]>>
        /\ joins' = joins + 1 /\ UNCHANGED <<cmps, unary, ph, kept, rows>>
Unary == /\ ph = "text" /\ unary < MaxUnary /\ stack # <<>>
         /\ \E o \in {"not", "null"} : stack' = [stack EXCEPT ![Len(stack)] = [t |-> o, l |-> @]]
         /\ unary' = unary + 1 /\ UNCHANGED <<cmps, joins, ph, kept, rows>>

X == stack[1]
(* what the scan can evaluate as SQL would: no connective that null spoils       *)
RECURSIVE Pushable(_)
Pushable(e) == CASE e.t \in {"col", "lit"} -> TRUE
                 [] e.t \in {"not", "null"} -> FALSE
                 [] e.t = "or" -> PushAll /\ Pushable(e.l) /\ Pushable(e.r)
                 [] OTHER -> Pushable(e.l) /\ Pushable(e.r)
Plan == /\ ph = "text" /\ Len(stack) = 1
        /\ LET c == Conjuncts(X) IN
             \E S \in SUBSET {k \in 1..Len(c) : Pushable(c[k])} :
               /\ rows' = SelectSeq([i \in 1..N |-> i], LAMBDA i : \A k \in S : EvalAt(c[k], Cols, i) = 1)
               /\ kept' = SelectSeq([k \in 1..Len(c) |-> k], LAMBDA k : k \notin S)
        /\ ph' = "scan" /\ UNCHANGED <<stack, cmps, joins, unary>>
Filter == /\ ph = "scan" /\ kept # <<>>
          /\ rows' = SelectSeq(rows, LAMBDA i : SqlAt(Conjuncts(X)[kept[1]], Cols, i) = 1)
          /\ kept' = Tail(kept) /\ UNCHANGED <<stack, cmps, joins, unary, ph>>
End == /\ ph = "scan" /\ kept = <<>> /\ ph' = "end"
       /\ IF Exporting THEN PrintT(<<"BEH", ToJson([x |-> X])>>) ELSE TRUE
       /\ UNCHANGED <<stack, cmps, joins, unary, kept, rows>>
Next == Compare \/ Column \/ Join \/ Unary \/ Plan \/ Filter \/ End
Spec == Init /\ [][Next]_vars

(* nothing handed over changes the result                                        *)
Pushdown == ph = "end" => rows = Where(<<X>>, Cols, N)
(* what the scan drops, WHERE drops                                              *)
NeverLoses == ph = "scan" => Range(Where(<<X>>, Cols, N)) \subseteq Range(rows)
(* NOT, IS NULL and the connectives, as the standard has them                    *)
Kleene == stack # <<>> =>
  LET e == stack[Len(stack)]
      at(i, d) == SqlAt(d, Cols, i)
  IN \A i \in 1..N :
       CASE e.t = "and" -> (at(i, e) = 1 <=> (at(i, e.l) = 1 /\ at(i, e.r) = 1)) /\ (at(i, e) = 0 <=> (at(i, e.l) = 0 \/ at(i, e.r) = 0))
         [] e.t = "or"  -> (at(i, e) = 1 <=> (at(i, e.l) = 1 \/ at(i, e.r) = 1)) /\ (at(i, e) = 0 <=> (at(i, e.l) = 0 /\ at(i, e.r) = 0))
         [] e.t = "not" -> (at(i, e) = 1 <=> at(i, e.l) = 0) /\ (at(i, e) = 0 <=> at(i, e.l) = 1)
         [] e.t = "null" -> at(i, e) \in {0, 1}
         [] OTHER -> TRUE
=============================================================================
