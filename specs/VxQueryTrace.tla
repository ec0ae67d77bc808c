----------------------------- MODULE VxQueryTrace ----------------------------
(* Queries run by the real engine over the real table providers.  The first    *)
(* line of a trace is the table; every other line is judged against it.        *)
EXTENDS VxQuery, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VX_TRACE)

VARIABLES t, l, cols, n, checked, skipped
vars == <<t, l, cols, n, checked, skipped>>
View == <<t, l>>
Lines == Traces[t].lines
All == [i \in 1..n |-> i]

RowsVerdict(e) ==
  LET want == Tuples(cols, Where(e.f, cols, n), e.p)
  IN IF e.k # "ok" THEN e.k
     ELSE IF e.lim >= 0
       THEN IF Len(e.rows) # MinI(e.lim, Len(want)) THEN "row-count"
            ELSE IF ~SubBag(e.rows, want) THEN "rows" ELSE IF e.dt # 1 THEN "type" ELSE "ok"
     ELSE IF Len(e.rows) # Len(want) THEN "row-count"
     ELSE IF ~SameBag(e.rows, want) THEN "rows"
     ELSE IF e.dt # 1 THEN "type"
     ELSE "ok"

AggVerdict(e) ==
  LET rows == Where(e.f, cols, n) IN
  IF e.k # "ok" THEN e.k
  ELSE IF Len(e.out) # Len(e.aggs) THEN "length"
  ELSE IF \E j \in 1..Len(e.aggs) : e.out[j] # Agg(e.aggs[j], cols, rows) THEN "aggregate"
  ELSE "ok"

(* what is declared exact has to be so (-1: nothing declared)                  *)
StatsVerdict(e) ==
  IF e.k # "ok" THEN e.k
  ELSE IF e.rows >= 0 /\ e.rows # n THEN "row-count"
  ELSE IF Len(e.c) # Len(e.p) THEN "columns"
  ELSE IF \E j \in 1..Len(e.p) :
       LET s == ColOf(cols, All, e.p[j])
           d == e.c[j]
       IN \/ d.nulls >= 0 /\ d.nulls # n - Len(NonNull(s))
          \/ d.hasmin = 1 /\ d.min # MinOf(s)
          \/ d.hasmax = 1 /\ d.max # MaxOf(s)
    THEN "untrue"
  ELSE "ok"

Verdict(e) ==
  CASE e.o = "tab" -> "ok"
    [] e.o = "rows" -> RowsVerdict(e)
    [] e.o = "agg" -> AggVerdict(e)
    [] e.o = "stats" -> StatsVerdict(e)
    [] e.o = "setup" -> e.k

Init == t \in 1..Len(Traces) /\ l = 1 /\ cols = <<>> /\ n = 0 /\ checked = 0 /\ skipped = 0

Next ==
  /\ l <= Len(Lines)
  /\ LET e == Lines[l]
         v == Verdict(e)
     IN /\ IF v \in {"ok", "skip", "gap"} THEN TRUE ELSE PrintT(<<"NC", t, l, v>>)
        /\ l' = l + 1
        /\ checked' = IF v = "ok" THEN checked + 1 ELSE checked
        /\ skipped' = IF v \in {"skip", "gap"} THEN skipped + 1 ELSE skipped
        /\ cols' = IF e.o = "tab" THEN e.cols ELSE cols
        /\ n' = IF e.o = "tab" THEN e.n ELSE n
        /\ IF l' <= Len(Lines) THEN TRUE ELSE PrintT(<<"END", t, checked', skipped'>>)
  /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
