------------------------------ MODULE VxStatsMC ------------------------------
(* Every list of small parts, with every statistic of every part left out in   *)
(* turn, merged from left to right; the result must be true of the whole.      *)
(* Each finished run is exported and replayed into StatsSet::merge.            *)
EXTENDS VxStats, Json, Sequences

CONSTANTS MaxParts, MaxLen, Values, Drops, Exporting

Seqs == UNION {[1..n -> Values \cup {NULL}] : n \in 0..MaxLen}
Drop == {[p |-> 0, s |-> "none"]} \cup [p : 1..MaxParts, s : StatNames]
DropSets == {{}} \cup {{d} : d \in Drop} \cup (IF Drops > 1 THEN {{c, d} : c, d \in Drop} ELSE {})

VARIABLES parts, drops, at, acc
vars == <<parts, drops, at, acc>>

Given(k) == TrueStats(parts[k], {s \in StatNames : [p |-> k, s |-> s] \notin drops})

Init == /\ \E n \in 2..MaxParts : parts \in [1..n -> Seqs]
        /\ drops \in {D \in DropSets : \A d \in D : d.p \in 1..Len(parts)}
        /\ at = 1
        /\ acc = Given(1)

Export == IF at' = Len(parts) /\ Exporting
            THEN PrintT(<<"BEH", ToJson([parts |-> parts, drops |-> drops])>>) ELSE TRUE
Next == /\ at < Len(parts)
        /\ acc' = Merge(acc, Given(at + 1))
        /\ at' = at + 1
        /\ UNCHANGED <<parts, drops>>
        /\ Export

(* the rule is sound after every step, and keeps what it must                  *)
Prefix(k) == SubSeq(parts, 1, k)
Sound == MergeWhy(Prefix(at), [k \in 1..at |-> Given(k)], acc) = "ok"
(* one order of merging gives what another gives, for the parts that only add  *)
Grouping == Len(parts) = 3 /\ at = 3 =>
  LET other == Merge(Given(1), Merge(Given(2), Given(3)))
  IN  \A s \in Additive \cup Extremes : (s \in DOMAIN acc) = (s \in DOMAIN other)
                                       /\ (s \in DOMAIN acc => acc[s] = other[s])
=============================================================================
