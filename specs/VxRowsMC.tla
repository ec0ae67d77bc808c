------------------------------- MODULE VxRowsMC -------------------------------
(* Rows taken out of a stored array of chunks: only the chunks that hold one of *)
(* the rows are read, in order, and each gives its rows at their own offsets.   *)
(* Every array of chunks and every list of rows within bounds is exported and   *)
(* replayed against stored arrays and streams.                                  *)
EXTENDS VxStream, SequencesExt, Json, TLC

CONSTANTS MaxChunks, Lens, Exporting

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, k) == IF k = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o s : x \in S, s \in SeqsUpTo(S, k - 1)}
Layouts == SeqsUpTo(Lens, MaxChunks)
Msgs(cut) == [j \in 1..Len(cut) |-> [k |-> "batch", d |-> 0, c |-> [i \in 1..cut[j] |-> SumTo(cut, j - 1) + i]]]
Rising(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

VARIABLES cut, x, at, next, out
vars == <<cut, x, at, next, out>>

(* the rows of x that chunk j holds, as offsets in that chunk                   *)
Local(j) == LET lo == SumTo(cut, j - 1)
                hi == SumTo(cut, j)
                s == SelectSeq(x, LAMBDA i : lo <= i /\ i < hi)
            IN [i \in 1..Len(s) |-> s[i] - lo]

Init == /\ cut \in Layouts
        /\ \E S \in SUBSET (0..SumTo(cut, Len(cut)) - 1) : S # {} /\ x = Rising(S)
        /\ at = 1 /\ next = 1 /\ out = <<>>

(* a chunk that holds nothing is skipped, another is read                       *)
Skip == /\ at <= Len(cut) /\ Local(at) = <<>>
        /\ at' = at + 1 /\ UNCHANGED <<cut, x, next, out>>
Read == /\ at <= Len(cut) /\ Local(at) # <<>>
        /\ LET o == Local(at)
               c == Msgs(cut)[at].c
           IN out' = out \o [i \in 1..Len(o) |-> c[o[i] + 1]] /\ next' = next + Len(o)
        /\ at' = at + 1 /\ UNCHANGED <<cut, x>>
End == /\ at = Len(cut) + 1
       /\ IF Exporting THEN PrintT(<<"BEH", ToJson([cut |-> cut, x |-> x])>>) ELSE TRUE
       /\ at' = Len(cut) + 2 /\ UNCHANGED <<cut, x, next, out>>
Next == Skip \/ Read \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Skip) /\ WF_vars(Read)

(* so far, the rows asked for up to there                                       *)
Prefix == out = SubSeq(TakeRows(Msgs(cut), x), 1, next - 1)
Whole == at > Len(cut) => out = TakeRows(Msgs(cut), x) /\ next = Len(x) + 1
(* nothing but the chunks with rows is read                                     *)
Needed == \A j \in 1..Len(cut) : Local(j) # <<>> <=> \E i \in 1..Len(x) : SumTo(cut, j - 1) <= x[i] /\ x[i] < SumTo(cut, j)
=============================================================================
