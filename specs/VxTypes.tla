------------------------------- MODULE VxTypes -------------------------------
(* Logical types and single values.  A type is a tree of nodes with the same    *)
(* fields throughout:                                                           *)
(*   k   "null" "bool" "prim" "utf8" "binary" "struct" "list" "ext"             *)
(*   p   the primitive type of a prim, the id of an ext                         *)
(*   md  the metadata of an ext ("none", or "x" and the bytes in hexadecimal)   *)
(*   n   1 if nullable;  names, dts: fields of a struct, element of a list      *)
(* A value is a tree of nodes  [k, t, v, l]  with k one of                      *)
(*   "null" "bool" "prim" "bytes" "str" "list";  t the primitive type.          *)
EXTENDS Integers, Sequences, FiniteSets

Seq1(x) == <<x>>
Nullable(d) == d.k = "null" \/ d.n = 1
WithNull(d, n) == IF d.k = "null" THEN d ELSE [d EXCEPT !.n = n]
EqIgnoringNull(a, b) == WithNull(a, 1) = WithNull(b, 1)

(* ---- fields and projection --------------------------------------------------*)
(* a field is [w, i, s]: by index (w = "i", from 0) or by name (w = "s")        *)
Position(d, f) ==    \* 1-based; 0 if there is no such field
  IF f.w = "i" THEN (IF f.i < Len(d.names) THEN f.i + 1 ELSE 0)
  ELSE LET H == {i \in 1..Len(d.names) : d.names[i] = f.s}
       IN  IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i <= j
Resolvable(d, fs) == \A i \in 1..Len(fs) : Position(d, fs[i]) # 0
ProjectType(d, fs) ==
  [d EXCEPT !.names = [i \in 1..Len(fs) |-> d.names[Position(d, fs[i])]],
            !.dts = [i \in 1..Len(fs) |-> d.dts[Position(d, fs[i])]]]
ProjectValue(d, v, fs) ==
  IF v.k = "null" THEN v ELSE [v EXCEPT !.l = [i \in 1..Len(fs) |-> v.l[Position(d, fs[i])]]]

(* ---- values and their types -------------------------------------------------*)
Ints == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"}
RECURSIVE IsInstance(_, _)
IsInstance(v, d) ==
  CASE v.k = "null" -> Nullable(d)
    [] d.k = "bool" -> v.k = "bool"
    [] d.k = "prim" -> v.k = "prim" /\ v.t = d.p
    [] d.k = "utf8" -> v.k = "str"
    [] d.k = "binary" -> v.k = "bytes"
    [] d.k = "list" -> v.k = "list" /\ \A i \in 1..Len(v.l) : IsInstance(v.l[i], d.dts[1])
    [] d.k = "struct" -> /\ v.k = "list" /\ Len(v.l) = Len(d.dts)
                         /\ \A i \in 1..Len(v.l) : IsInstance(v.l[i], d.dts[i])
    [] OTHER -> FALSE

(* The width of a number inside an extension is not part of the logical value   *)
(* (the type does not name its storage); temporal types do name it.             *)
Temporal == {"vortex.date", "vortex.time", "vortex.timestamp"}
RECURSIVE Logical(_, _)
Logical(v, d) ==
  CASE v.k = "null" -> v
    [] d.k = "ext" /\ v.k = "prim" /\ v.t \in Ints /\ d.p \notin Temporal -> [v EXCEPT !.t = "int"]
    [] d.k = "list" -> [v EXCEPT !.l = [i \in 1..Len(v.l) |-> Logical(v.l[i], d.dts[1])]]
    [] d.k = "struct" /\ Len(v.l) = Len(d.dts) ->
         [v EXCEPT !.l = [i \in 1..Len(v.l) |-> Logical(v.l[i], d.dts[i])]]
    [] OTHER -> v
SameValue(a, b, d) == Logical(a, d) = Logical(b, d)

(* ---- order ------------------------------------------------------------------*)
(* r: the rank of a value among those of its type, nulls after all others;      *)
(* values of different types are not ordered                                    *)
Order(x, y) == IF x < y THEN "lt" ELSE IF x > y THEN "gt" ELSE "eq"
CompareScalars(da, db, ra, rb) == IF EqIgnoringNull(da, db) THEN Order(ra, rb) ELSE "none"
=============================================================================
