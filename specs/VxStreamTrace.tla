---------------------------- MODULE VxStreamTrace ----------------------------
(* IPC streams written and read by the real library.  The first line of a      *)
(* trace holds the messages that were written; each other line is one reader   *)
(* with the calls made to it (a transport, a fault, a consumer), or a request  *)
(* for rows.                                                                   *)
EXTENDS VxStream, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VX_TRACE)

VARIABLES t, l, w, checked, skipped
vars == <<t, l, w, checked, skipped>>
View == <<t, l>>
Lines == Traces[t].lines

Fault(e) == [lo |-> e.lo, fail |-> e.hi < w.total \/ e.ft = "short"]
ReadVerdict(e) ==
  LET r == ReadAll(w.m, w.z, Fault(e), Reader(e.at), e.ev, 1)
  IN IF Done(r) THEN r.why ELSE "ok"

Verdict(e) ==
  CASE e.o = "wrote" -> IF ~Tiles(e.b, e.z, e.total) THEN "layout"
                        ELSE IF \E i \in 1..Len(e.rows) : ~RowOffsetsOk(e.rows[i]) THEN "row-offsets"
                        ELSE "ok"
    [] e.o = "writefail" -> e.k
    [] e.o = "read" -> ReadVerdict(e)
    [] e.o = "takerows" ->
         IF ~StrictlyIncreasing(e.x) THEN "skip"
         ELSE IF e.k # "ok" THEN e.k
         ELSE IF Len(e.c) # Len(e.x) THEN "length"
         ELSE IF e.c # TakeRows(w.m, e.x) THEN "values"
         ELSE IF e.dt # 1 THEN "dtype"
         ELSE "ok"

Init == t \in 1..Len(Traces) /\ l = 1 /\ w = [m |-> <<>>] /\ checked = 0 /\ skipped = 0

Next ==
  /\ l <= Len(Lines)
  /\ LET e == Lines[l]
         v == Verdict(e)
     IN /\ IF v \in {"ok", "skip", "gap"} THEN TRUE ELSE PrintT(<<"NC", t, l, v>>)
        /\ l' = l + 1
        /\ checked' = IF v = "ok" THEN checked + 1 ELSE checked
        /\ skipped' = IF v \in {"skip", "gap"} THEN skipped + 1 ELSE skipped
        /\ w' = IF e.o = "wrote" THEN e ELSE w
        /\ IF l' <= Len(Lines) THEN TRUE ELSE PrintT(<<"END", t, checked', skipped'>>)
  /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
