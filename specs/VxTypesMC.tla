------------------------------ MODULE VxTypesMC ------------------------------
(* Every type up to a nesting depth, built one constructor at a time, with      *)
(* values of it; each is exported and sent through every encoding of the real   *)
(* library.  The invariants are laws of the definitions in VxTypes.             *)
EXTENDS VxTypes, TLC, Json

CONSTANTS Prims, Exts, Names, MaxWidth, MaxDepth, Picks

QExts == {<<"my.ext", "none">>, <<"my.ext", "x">>, <<"my.other", "x00ff">>}
Node(k, p, md, n, names, dts) == [k |-> k, p |-> p, md |-> md, n |-> n, names |-> names, dts |-> dts]
Leaves == {Node("null", "", "none", 1, <<>>, <<>>)}
          \cup {Node(k, "", "none", n, <<>>, <<>>) : k \in {"bool", "utf8", "binary"}, n \in {0, 1}}
          \cup {Node("prim", p, "none", n, <<>>, <<>>) : p \in Prims, n \in {0, 1}}
          \cup {Node("ext", e[1], e[2], n, <<>>, <<>>) : e \in Exts, n \in {0, 1}}

VARIABLES d, depth, fields
vars == <<d, depth, fields>>
Val(k, t, v, ls) == [k |-> k, t |-> t, v |-> v, l |-> ls]
NullV == Val("null", "", "", <<>>)

(* symbolic values of a type: the harness gives "lo", "hi", "zero" a meaning    *)
RECURSIVE Values(_)
Values(x) ==
  (IF Nullable(x) THEN {NullV} ELSE {}) \cup
  CASE x.k = "null" -> {}
    [] x.k = "bool" -> {Val("bool", "", b, <<>>) : b \in {"0", "1"}}
    [] x.k = "prim" -> {Val("prim", x.p, s, <<>>) : s \in Picks}
    [] x.k = "utf8" -> {Val("str", "", s, <<>>) : s \in Picks}
    [] x.k = "binary" -> {Val("bytes", "", s, <<>>) : s \in Picks}
    [] x.k = "ext" -> {Val("prim", "i64", s, <<>>) : s \in Picks}
    [] x.k = "list" -> {Val("list", "", "", <<>>)}
                       \cup {Val("list", "", "", <<a>>) : a \in Values(x.dts[1])}
                       \cup {Val("list", "", "", <<a, NullV>>) : a \in IF Nullable(x.dts[1]) THEN Values(x.dts[1]) ELSE {}}
    [] x.k = "struct" -> IF x.dts = <<>> THEN {Val("list", "", "", <<>>)}
                         ELSE IF Len(x.dts) = 1 THEN {Val("list", "", "", <<a>>) : a \in Values(x.dts[1])}
                         ELSE {Val("list", "", "", <<a, b>>) : a \in Values(x.dts[1]), b \in Values(x.dts[2])}

Export(x) == PrintT(<<"BEH", ToJson([d |-> x, vs |-> Values(x)])>>)

Init == /\ d \in Leaves
        /\ depth = 0
        /\ fields = <<>>
        /\ Export(d)
(* wrap the type in a list, or collect fields and close them into a struct      *)
WrapList == \E n \in {0, 1} : d' = Node("list", "", "none", n, <<>>, <<d>>)
WrapStruct == \E n \in {0, 1}, f \in Names, w \in 0..MaxWidth :
   \E g \in Names, y \in (IF w = 2 THEN Leaves ELSE {d}) :
     /\ w < 2 => g = f
     /\ d' = Node("struct", "", "none", n,
                  IF w = 0 THEN <<>> ELSE IF w = 1 THEN <<f>> ELSE <<f, g>>,
                  IF w = 0 THEN <<>> ELSE IF w = 1 THEN <<d>> ELSE <<d, y>>)
Next == /\ depth < MaxDepth
        /\ WrapList \/ WrapStruct
        /\ depth' = depth + 1
        /\ UNCHANGED fields
        /\ Export(d')

(* laws                                                                         *)
NullLaw == WithNull(WithNull(d, 1), d.n) = d /\ EqIgnoringNull(d, WithNull(d, 0)) /\ Nullable(WithNull(d, 1))
ValuesTyped == d.k # "ext" => \A v \in Values(d) : (d.k \in {"list", "struct"} /\ \E i \in 1..Len(d.dts) : d.dts[i].k = "ext")
                                                    \/ depth > 1 \/ IsInstance(v, d)
ProjectLaw == d.k = "struct" /\ Len(d.names) > 0 =>
   LET all == [i \in 1..Len(d.names) |-> [w |-> "i", i |-> i - 1, s |-> ""]]
   IN  ProjectType(d, all) = d /\ ProjectType(ProjectType(d, all), all) = d
=============================================================================
