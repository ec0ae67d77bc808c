------------------------------ MODULE VxValues ------------------------------
(* Values of a column.  A non-null value is an integer token; the renaming of  *)
(* concrete values to tokens preserves order and equality, so everything the   *)
(* library does with values short of arithmetic is observable through tokens.  *)
EXTENDS Integers, Sequences, FiniteSets

NULL    == 2147483647      \* the null element
UNKNOWN == 2147483646      \* a value that never was in the input of the history

IsNull(x) == x = NULL

Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Indices(s) == [i \in 1..Len(s) |-> i]
Range(s) == {s[i] : i \in 1..Len(s)}
NonNull(s) == SelectSeq(s, LAMBDA x : x # NULL)

(* comparison of two elements, and the Boolean connectives, on {0, 1, NULL}   *)
B(b) == IF b THEN 1 ELSE 0
Cmp(op, x, y) ==
  IF x = NULL \/ y = NULL THEN NULL
  ELSE CASE op = "eq" -> B(x = y)
         [] op = "ne" -> B(x # y)
         [] op = "gt" -> B(x > y)
         [] op = "ge" -> B(x >= y)
         [] op = "lt" -> B(x < y)
         [] op = "le" -> B(x <= y)
Not3(x) == IF x = NULL THEN NULL ELSE 1 - x
(* null-propagating connectives (what `and` / `or` on arrays are)              *)
AndN(x, y) == IF x = NULL \/ y = NULL THEN NULL ELSE B(x = 1 /\ y = 1)
OrN(x, y)  == IF x = NULL \/ y = NULL THEN NULL ELSE B(x = 1 \/ y = 1)
(* Kleene connectives (what SQL's AND / OR are)                                *)
AndK(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF x = NULL \/ y = NULL THEN NULL ELSE 1
OrK(x, y)  == IF x = 1 \/ y = 1 THEN 1 ELSE IF x = NULL \/ y = NULL THEN NULL ELSE 0
=============================================================================
