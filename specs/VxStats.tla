------------------------------- MODULE VxStats -------------------------------
(* Statistics sets: functions from some of the names below to values, held     *)
(* with an array and merged when arrays are put together.  A set is true of a  *)
(* sequence when every statistic in it is (StatTrue in VxArray).               *)
EXTENDS VxArray

StatNames == {"min", "max", "null_count", "true_count", "is_constant", "is_sorted",
              "is_strict_sorted", "run_count"}
(* these are known of the whole whenever they are known of both parts          *)
Additive == {"null_count", "true_count", "run_count", "bit_width_freq", "trailing_zero_freq"}
Extremes == {"min", "max"}

MinOf(a) == LET S == Range(a) \ {NULL} IN IF S = {} THEN NULL ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOf(a) == LET S == Range(a) \ {NULL} IN IF S = {} THEN NULL ELSE CHOOSE x \in S : \A y \in S : x >= y

(* the true statistics of a sequence                                           *)
TrueStats(a, names) == [s \in names |->
  CASE s = "min" -> <<MinOf(a)>>
    [] s = "max" -> <<MaxOf(a)>>
    [] s = "null_count" -> <<NullCount(a)>>
    [] s = "true_count" -> <<TrueCount(a)>>
    [] s = "is_constant" -> <<B(Constant(a))>>
    [] s = "is_sorted" -> <<B(Sorted(NonNull(a)))>>
    [] s = "is_strict_sorted" -> <<B(StrictSorted(NonNull(a)))>>
    [] s = "run_count" -> <<Runs(a)>>]

AllTrue(S, a, joined) == \A s \in DOMAIN S : StatTrue(a, s, S[s], joined)

(* ---- the rule for putting two sets together --------------------------------*)
Val(S, s) == S[s][1]
Has(A, C, s) == s \in DOMAIN A /\ s \in DOMAIN C
(* null (of a part without values) says nothing of the part, so nothing of the whole, except  *)
(* that the known value is the extreme of a part that has values at all                      *)
Least(x, y)    == IF x = NULL THEN y ELSE IF y = NULL THEN x ELSE IF x <= y THEN x ELSE y
Greatest(x, y) == IF x = NULL THEN y ELSE IF y = NULL THEN x ELSE IF x >= y THEN x ELSE y
AddVec(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]

(* sorted across the boundary: the last of the left is at most the first of the right       *)
JoinSorted(A, C, s, Lt(_, _)) ==
  IF ~Has(A, C, s) \/ "max" \notin DOMAIN A \/ "min" \notin DOMAIN C THEN <<>>
  ELSE LET x == Val(A, "max") y == Val(C, "min")
       IN  IF Val(A, s) = 0 \/ Val(C, s) = 0 THEN <<0>>
           ELSE IF x = NULL \/ y = NULL THEN <<1>>
           ELSE <<B(Lt(x, y))>>
JoinConstant(A, C) ==
  LET s == "is_constant"
  IN  IF (s \in DOMAIN A /\ Val(A, s) = 0) \/ (s \in DOMAIN C /\ Val(C, s) = 0) THEN <<0>>
      ELSE IF ~Has(A, C, s) \/ ~Has(A, C, "min") THEN <<>>
      ELSE <<B(Val(A, "min") = Val(C, "min"))>>

LessEq(x, y) == x <= y
Less(x, y) == x < y
Joined(A, C, s) ==
  CASE s = "min" -> IF Has(A, C, s) THEN <<Least(Val(A, s), Val(C, s))>> ELSE <<>>
    [] s = "max" -> IF Has(A, C, s) THEN <<Greatest(Val(A, s), Val(C, s))>> ELSE <<>>
    [] s = "is_sorted" -> JoinSorted(A, C, s, LessEq)
    [] s = "is_strict_sorted" -> JoinSorted(A, C, s, Less)
    [] s = "is_constant" -> JoinConstant(A, C)
    [] s = "run_count" -> IF Has(A, C, s) THEN <<Val(A, s) + Val(C, s)>> ELSE <<>>
    [] OTHER -> IF Has(A, C, s) THEN AddVec(A[s], C[s]) ELSE <<>>
Merge(A, C) ==
  LET D == {s \in DOMAIN A \cup DOMAIN C : Joined(A, C, s) # <<>>}
  IN  [s \in D |-> Joined(A, C, s)]

(* ---- what any merge may answer ---------------------------------------------*)
(* parts: the sequences; sets: true statistics of each; res: what came back    *)
Whole(parts) == Concat(parts)
Kept(sets, s) == \A k \in 1..Len(sets) : s \in DOMAIN sets[k]
SomeEmpty(parts) == \E k \in 1..Len(parts) : parts[k] = <<>>
(* an extreme of a part without values is null and may hide the others         *)
NoNullExtreme(sets, s) == \A k \in 1..Len(sets) : Val(sets[k], s) # NULL
RECURSIVE SumVec(_, _, _)
SumVec(sets, s, k) == IF k = 1 THEN sets[1][s] ELSE AddVec(SumVec(sets, s, k - 1), sets[k][s])
MergeWhy(parts, sets, res) ==
  LET w == Whole(parts)
      Falsehoods == {s \in DOMAIN res : ~StatTrue(w, s, res[s], s = "run_count" \/ SomeEmpty(parts))}
      Lost == {s \in Additive : Kept(sets, s) /\ s \notin DOMAIN res}
      Hidden == {s \in Extremes : /\ Kept(sets, s)
                                  /\ NoNullExtreme(sets, s)
                                  /\ (s \notin DOMAIN res \/ res[s][1] = NULL)}
      Freq == {s \in {"bit_width_freq", "trailing_zero_freq"} :
                 Kept(sets, s) /\ s \in DOMAIN res /\ res[s] # SumVec(sets, s, Len(sets))}
      Runs_ == IF Kept(sets, "run_count") /\ "run_count" \in DOMAIN res
                 THEN res["run_count"][1] > SumVec(sets, "run_count", Len(sets))[1] + Len(sets)
                 ELSE FALSE
      Invented == {s \in (Additive \cup Extremes) : s \in DOMAIN res /\ ~Kept(sets, s)}
  IN  IF Falsehoods # {} THEN "untrue-" \o (CHOOSE s \in Falsehoods : TRUE)
      ELSE IF Invented # {} THEN "invented-" \o (CHOOSE s \in Invented : TRUE)
      ELSE IF Lost # {} THEN "lost-" \o (CHOOSE s \in Lost : TRUE)
      ELSE IF Hidden # {} THEN "lost-" \o (CHOOSE s \in Hidden : TRUE)
      ELSE IF Freq # {} THEN "sum-" \o (CHOOSE s \in Freq : TRUE)
      ELSE IF Runs_ THEN "loose-run_count"
      ELSE "ok"
=============================================================================
