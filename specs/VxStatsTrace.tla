---------------------------- MODULE VxStatsTrace -----------------------------
(* Calls of StatsSet::merge recorded from the real library.                    *)
EXTENDS VxStats, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VX_TRACE)
VARIABLES t, l, checked, skipped
vars == <<t, l, checked, skipped>>
View == <<t, l>>
Lines == Traces[t].lines

(* a set that is not true of its part is not the merge's fault                 *)
Given(e) == \A k \in 1..Len(e.parts) : AllTrue(e.sets[k], e.parts[k], TRUE)
Verdict(e) ==
  CASE e.o = "merge" -> IF ~Given(e) THEN "skip"
                        ELSE IF e.k # "ok" THEN e.k
                        ELSE MergeWhy(e.parts, e.sets, e.res)

Init == t \in 1..Len(Traces) /\ l = 1 /\ checked = 0 /\ skipped = 0
Next ==
  /\ l <= Len(Lines)
  /\ LET e == Lines[l]
         v == Verdict(e)
     IN /\ IF v \in {"ok", "skip", "gap"} THEN TRUE ELSE PrintT(<<"NC", t, l, v>>)
        /\ l' = l + 1
        /\ checked' = IF v = "ok" THEN checked + 1 ELSE checked
        /\ skipped' = IF v \in {"skip", "gap"} THEN skipped + 1 ELSE skipped
        /\ IF l' <= Len(Lines) THEN TRUE ELSE PrintT(<<"END", t, checked', skipped'>>)
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
