----------------------------- MODULE VxArrayMC -------------------------------
(* Every history of up to Depth operations on every small array.  The state is  *)
(* a plain sequence and the operations are those of VxArray; the laws below are *)
(* what users rely on when they reorder or combine operations.  Every history   *)
(* is exported and replayed into the library in its encodings.                  *)
EXTENDS VxArray, Json

CONSTANTS MaxLen, Values,   \* arrays up to MaxLen elements from Values and NULL
          Nulls,            \* are there nulls
          SortedOnly,       \* only sorted arrays
          Pre, Last, Depth, \* kinds of operations before the last one, and last
          MaxTake, MaxChunks,
          Exporting

Elems == IF Nulls THEN Values \cup {NULL} ELSE Values
SeqsOf(S, n) == [1..n -> S]
UpTo(S, n) == UNION {SeqsOf(S, k) : k \in 0..n}
Bases == {a \in UpTo(Elems, MaxLen) : ~SortedOnly \/ Sorted(a)}
CmpOps == {"eq", "ne", "gt", "ge", "lt", "le"}
RECURSIVE Splits(_, _)
Splits(n, k) == IF k = 1 THEN {<<n>>}
                ELSE UNION {{<<i>> \o s : s \in Splits(n - i, k - 1)} : i \in 0..n}

(* the operations of one kind on the array a                                    *)
Ops(o, a) ==
  LET n == Len(a) IN
  CASE o = "slice" -> {[o |-> o, x |-> <<s, e>>] : s, e \in 0..n}
    [] o = "take" -> {[o |-> o, x |-> i] : i \in UpTo(0..n - 1, MaxTake)}
    [] o = "filter" -> {[o |-> o, x |-> m] : m \in SeqsOf({0, 1}, n)}
    [] o \in {"canon", "ipc", "reenc", "compress", "comp", "like", "arrow"} -> {[o |-> "id", w |-> o]}
    [] o = "chunk" -> {[o |-> "chunk", x |-> s] : s \in UNION {Splits(n, k) : k \in 1..MaxChunks}}
    [] o = "cmpc" -> {[o |-> o, op |-> op, v |-> v] : op \in CmpOps, v \in Values \cup {NULL}}
    [] o = "cmp" -> {[o |-> o, op |-> op, b |-> b] : op \in CmpOps, b \in SeqsOf(Elems, n)}
    [] o \in {"and", "or"} -> {[o |-> o, b |-> b] : b \in SeqsOf(Elems, n)}
    [] o \in {"sat", "ss", "stat", "inv", "ff", "iter"} -> {[o |-> o]}

Enabled(p, a) == CASE p.o = "slice" -> SliceOk(a, p.x[1], p.x[2]) [] OTHER -> TRUE
Apply(p, a) ==
  CASE p.o = "slice" -> Slice(a, p.x[1], p.x[2])
    [] p.o = "take" -> Take(a, p.x)
    [] p.o = "filter" -> Filter(a, p.x)
    [] p.o = "cmpc" -> Compare(p.op, a, [i \in 1..Len(a) |-> p.v])
    [] p.o = "cmp" -> Compare(p.op, a, p.b)
    [] p.o = "and" -> And(a, p.b)
    [] p.o = "or" -> Or(a, p.b)
    [] p.o = "inv" -> Invert(a)
    [] OTHER -> a

VARIABLES base, cur, hist
vars == <<base, cur, hist>>
Init == base \in Bases /\ cur = base /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E o \in (IF Len(hist) = Depth - 1 THEN Last ELSE Pre) : \E p \in Ops(o, cur) :
       /\ Enabled(p, cur)
       /\ cur' = Apply(p, cur)
       /\ hist' = Append(hist, p)
  /\ UNCHANGED base
  /\ IF Len(hist') = Depth /\ Exporting THEN PrintT(<<"BEH", ToJson([b |-> base, h |-> hist'])>>) ELSE TRUE

(* ---- laws -------------------------------------------------------------------*)
SlicesOf == {x \in (0..Len(cur)) \X (0..Len(cur)) : x[1] <= x[2]}
Masks == SeqsOf({0, 1}, Len(cur))
SetBits(m) == SelectSeq([i \in 1..Len(m) |-> i - 1], LAMBDA i : m[i + 1] = 1)
AreBools == Range(cur) \subseteq {0, 1, NULL}
Laws ==
  (* no operation invents an element                                            *)
  /\ (\A k \in 1..Len(hist) : hist[k].o \notin {"cmp", "cmpc", "and", "or", "inv"}) => Range(cur) \subseteq Range(base)
  (* slicing is taking a range, and filtering by the mask of the range          *)
  /\ \A x \in SlicesOf :
       LET s == Slice(cur, x[1], x[2]) IN
       /\ Len(s) = x[2] - x[1]
       /\ s = Take(cur, [i \in 1..x[2] - x[1] |-> x[1] + i - 1])
       /\ s = Filter(cur, [i \in 1..Len(cur) |-> B(x[1] < i /\ i <= x[2])])
       /\ \A y \in {y \in (0..Len(s)) \X (0..Len(s)) : y[1] <= y[2]} :
            Slice(s, y[1], y[2]) = Slice(cur, x[1] + y[1], x[1] + y[2])
  (* filtering is taking the set positions; a mask and its complement partition  *)
  /\ \A m \in Masks :
       /\ Filter(cur, m) = Take(cur, SetBits(m))
       /\ Len(Filter(cur, m)) + Len(Filter(cur, [i \in 1..Len(m) |-> 1 - m[i]])) = Len(cur)
  (* comparing: operands swap, an operator and its inverse exclude one another   *)
  /\ \A v \in Values \cup {NULL} :
       LET c == [i \in 1..Len(cur) |-> v] IN
       /\ Compare("lt", cur, c) = Compare("gt", c, cur)
       /\ Compare("le", cur, c) = Compare("ge", c, cur)
       /\ Compare("ne", cur, c) = Invert(Compare("eq", cur, c))
       /\ Compare("ge", cur, c) = Invert(Compare("lt", cur, c))
       /\ Compare("le", cur, c) = Or(Compare("lt", cur, c), Compare("eq", cur, c))
  (* searching counts what compares less                                        *)
  /\ Sorted(cur) /\ NullCount(cur) = 0 => \A v \in Values :
       /\ Search(cur, v, "left").pos = TrueCount(Compare("lt", cur, [i \in 1..Len(cur) |-> v]))
       /\ Search(cur, v, "right").pos = TrueCount(Compare("le", cur, [i \in 1..Len(cur) |-> v]))
       /\ (Search(cur, v, "left").found = 1) = (v \in Range(cur))
  (* Boolean algebra with nulls                                                 *)
  /\ AreBools => \A i \in 1..Len(cur) : \A y \in {0, 1, NULL} :
       /\ Not3(AndN(cur[i], y)) = OrN(Not3(cur[i]), Not3(y))
       /\ AndN(cur[i], y) = AndN(y, cur[i])
       /\ Not3(Not3(cur[i])) = cur[i]
=============================================================================
