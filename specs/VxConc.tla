------------------------------- MODULE VxConc --------------------------------
(* Several clients at work on shared arrays.  Arrays are immutable; what they   *)
(* share is a cache of statistics per array, filled as a side effect of         *)
(* computing them.  This module says what a client may observe, in terms of the *)
(* beginnings and ends of calls only: whatever the clients do in between, a     *)
(* statistic is true, is reported with one value only, and is reported to every *)
(* call that begins after it was reported to anyone.                            *)
EXTENDS VxArray

(* nodes: <<[a |-> sequence, joined |-> is it put together from parts], ...>>   *)
(* rep:  what has been reported so far: <<node, stat>> -> value                 *)
(* seen: what had been reported when the call began: a set of <<node, stat>>    *)
NoReports == [k \in {} |-> <<>>]
Reported(rep) == DOMAIN rep
Report(rep, key, v) == [k \in DOMAIN rep \cup {key} |-> IF k = key THEN v ELSE rep[k]]

(* v = <<>>: not known                                                          *)
StatWhy(nodes, rep, seen, n, s, v) ==
  LET key == <<n, s>>
  IN  IF v = <<>> THEN (IF key \in seen THEN "forgotten" ELSE "ok")
      ELSE IF key \in DOMAIN rep /\ rep[key] # v THEN "changed"
      ELSE IF ~StatTrue(nodes[n].a, s, v, nodes[n].joined) THEN "untrue"
      ELSE "ok"
StatRep(rep, n, s, v) == IF v = <<>> \/ <<n, s>> \in DOMAIN rep THEN rep ELSE Report(rep, <<n, s>>, v)
=============================================================================
