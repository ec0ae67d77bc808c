------------------------------- MODULE VxArray -------------------------------
(* The logical array: a finite sequence of values.  Every operation of the     *)
(* library is defined here on the sequence, without any notion of encoding.    *)
(* That the encodings are invisible is exactly the statement that the code     *)
(* follows these definitions whatever the encoding of its operands.            *)
EXTENDS VxValues, TLC

(* ---- selection ------------------------------------------------------------ *)
SliceOk(a, s, e) == 0 <= s /\ s <= e /\ e <= Len(a)
Slice(a, s, e)   == SubSeq(a, s + 1, e)
TakeOk(a, idx)   == \A k \in 1..Len(idx) : 0 <= idx[k] /\ idx[k] < Len(a)
Take(a, idx)     == [k \in 1..Len(idx) |-> a[idx[k] + 1]]
FilterOk(a, m)   == Len(m) = Len(a)
Filter(a, m)     == LET keep == SelectSeq(Indices(a), LAMBDA i : m[i] = 1)
                    IN  [k \in 1..Len(keep) |-> a[keep[k]]]

(* ---- search ---------------------------------------------------------------- *)
Sorted(a)   == \A i \in 1..Len(a) - 1 : a[i] <= a[i + 1]
StrictSorted(a) == \A i \in 1..Len(a) - 1 : a[i] < a[i + 1]
CountLess(a, v)   == Cardinality({i \in 1..Len(a) : a[i] < v})
CountLessEq(a, v) == Cardinality({i \in 1..Len(a) : a[i] <= v})
Search(a, v, side) ==
  [found |-> B(CountLessEq(a, v) > CountLess(a, v)),
   pos   |-> IF side = "left" THEN CountLess(a, v) ELSE CountLessEq(a, v)]
(* nulls sort before or after everything only by convention; not specified     *)

(* ---- element-wise ---------------------------------------------------------- *)
Compare(op, a, b) == [i \in 1..Len(a) |-> Cmp(op, a[i], b[i])]
And(a, b) == [i \in 1..Len(a) |-> AndN(a[i], b[i])]
Or(a, b)  == [i \in 1..Len(a) |-> OrN(a[i], b[i])]
Invert(a) == Map(a, Not3)
Subtract(a, c) == [i \in 1..Len(a) |-> IF a[i] = NULL THEN NULL ELSE a[i] - c]
Fits(a, lo, hi) == \A i \in 1..Len(a) : a[i] = NULL \/ (lo <= a[i] /\ a[i] <= hi)

(* fill_forward: what precedes the first non-null element is left open         *)
LastNonNull(a, i) ==   \* index of the closest non-null at or before i, or 0
  LET C == {j \in 1..i : a[j] # NULL} IN IF C = {} THEN 0 ELSE CHOOSE j \in C : \A k \in C : k <= j
(* linear-time form used for checking: out follows a                           *)
(* forward fill of a, where z is the default of the element type: no nulls     *)
(* remain, an array of nulls becomes all defaults; what leading nulls become   *)
(* otherwise is not specified                                                  *)
IsFillForward(a, out, z) ==
  /\ Len(out) = Len(a)
  /\ \A i \in 1..Len(a) : out[i] # NULL
  /\ IF \A i \in 1..Len(a) : a[i] = NULL THEN \A i \in 1..Len(a) : out[i] = z
     ELSE \A i \in 1..Len(a) :
       IF a[i] # NULL THEN out[i] = a[i]
       ELSE i > 1 /\ (\E j \in 1..i - 1 : a[j] # NULL) => out[i] = out[i - 1]

(* ---- statistics ------------------------------------------------------------ *)
NullCount(a) == Cardinality({i \in 1..Len(a) : a[i] = NULL})
TrueCount(a) == Cardinality({i \in 1..Len(a) : a[i] = 1})
IsMin(a, v) == LET R == Range(a) \ {NULL} IN v \in R /\ \A x \in R : v <= x
IsMax(a, v) == LET R == Range(a) \ {NULL} IN v \in R /\ \A x \in R : v >= x
Constant(a) == Cardinality(Range(a)) <= 1
Runs(a) == IF a = <<>> THEN 0
           ELSE 1 + Cardinality({i \in 1..Len(a) - 1 : a[i] # a[i + 1]})

(* A reported statistic `v` (a sequence: several numbers for the frequency     *)
(* vectors) is true of the sequence a.  Nulls are outside the order: sortedness *)
(* is about the non-null elements.  `joined` says the array is made of chunks,  *)
(* whose runs are counted with a possible interruption at every boundary; a     *)
(* negative answer is judged for non-empty unchunked arrays without nulls.      *)
Exactly(v, claim, a, joined) ==
  IF v = 1 THEN claim ELSE (NullCount(a) = 0 /\ a # <<>> /\ ~joined => ~claim)
StatTrue(a, s, v, joined) ==
  IF v = <<>> \/ v[1] = NULL THEN TRUE      \* a null statistic says nothing
  ELSE CASE s = "min" -> IsMin(a, v[1])
         [] s = "max" -> IsMax(a, v[1])
         [] s = "null_count" -> v[1] = NullCount(a)
         [] s = "true_count" -> v[1] = TrueCount(a)
         [] s = "is_constant" -> Exactly(v[1], Constant(a), a, joined)
         [] s = "is_sorted" -> Exactly(v[1], Sorted(NonNull(a)), a, joined)
         [] s = "is_strict_sorted" -> Exactly(v[1], StrictSorted(NonNull(a)), a, joined)
         [] s = "run_count" -> /\ v[1] >= Runs(NonNull(a))
                               /\ joined \/ a = <<>> \/ v[1] <= Runs(a)
         [] OTHER -> TRUE

(* ---- chunks ---------------------------------------------------------------- *)
RECURSIVE ConcatFrom(_, _)
ConcatFrom(parts, i) == IF i > Len(parts) THEN <<>> ELSE parts[i] \o ConcatFrom(parts, i + 1)
Concat(parts) == ConcatFrom(parts, 1)
RECURSIVE SumTo(_, _)
SumTo(lens, k) == IF k = 0 THEN 0 ELSE lens[k] + SumTo(lens, k - 1)
Bounds(lens) == {SumTo(lens, k) : k \in 0..Len(lens)}
(* a re-chunking only joins neighbours, and joins them only within the limit   *)
RechunkOk(ins, outs, lim) ==
  /\ Bounds(outs) \subseteq Bounds(ins)
  /\ \A k \in 1..Len(outs) :
       LET lo == SumTo(outs, k - 1)
           hi == SumTo(outs, k)
       IN  (\E b \in Bounds(ins) : lo < b /\ b < hi) => outs[k] <= lim
=============================================================================
