----------------------------- MODULE VxTableTrace ----------------------------
(* Scans and evaluations recorded from the real library.  The first line of a  *)
(* trace is the table that was written; the others are judged against it.      *)
EXTENDS VxScan, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VX_TRACE)

VARIABLES t, l, cols, n, checked, skipped
vars == <<t, l, cols, n, checked, skipped>>
View == <<t, l>>
Lines == Traces[t].lines

(* ---- scans ----------------------------------------------------------------*)
ScanRun(e) == LET rows == Rows(e.f, cols, n)
              IN Run(Opened(Project(cols, rows, e.p), Len(rows)), e.b, e.bs, 1)

(* why a run of batches is not one of the specification                        *)
Why(e) ==
  LET rows == Rows(e.f, cols, n)
      total == LET RECURSIVE S(_)
                   S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + e.b[k].n
               IN S(Len(e.b))
  IN IF \E k \in 1..Len(e.b) : e.b[k].n > e.bs THEN "batch-too-large"
     ELSE IF total > Len(rows) THEN "too-many-rows"
     ELSE "rows"

ScanVerdict(e) ==
  LET s == ScanRun(e) IN
  IF e.end \in {"panic", "hang", "undecodable", "endless"} THEN e.end
  ELSE IF s.st = "wrong" THEN Why(e)
  ELSE IF e.end = "end" /\ e.hit = 1 THEN "fault-not-reported"
  ELSE IF e.end = "end" /\ ~CanFinish(s) THEN "ended-early"
  ELSE IF e.end = "err" /\ ~CanFail(s, e.hit = 1) THEN "error"
  ELSE IF e.dt # 1 THEN "dtype"
  ELSE IF e.aft # "none" THEN "after-the-end:" \o e.aft
  ELSE "ok"

(* a file that was damaged: opening it fails; damage to offsets that are not   *)
(* covered by any check may go unnoticed only if it made no difference         *)
Tolerant == {"postscript", "reserved"}
DamagedVerdict(e) ==
  IF e.end \in {"panic", "hang", "undecodable", "endless"} THEN e.end
  ELSE IF e.dmg \in Tolerant
    THEN IF e.end = "err" /\ e.b = <<>> THEN "ok"
         ELSE IF e.end = "end" /\ ScanRun(e).st = "open" /\ CanFinish(ScanRun(e)) /\ e.dt = 1 THEN "ok"
         ELSE "damage-believed"
  ELSE IF e.end = "err" /\ e.open = 1 THEN "ok"
  ELSE "damage-accepted:" \o e.end

(* ---- expressions -----------------------------------------------------------*)
RECURSIVE Same(_, _)
Same(x, y) ==
  /\ x.t = y.t
  /\ CASE x.t = "col" -> x.c = y.c
       [] x.t = "lit" -> x.v = y.v
       [] OTHER -> (x.t = "cmp" => x.op = y.op) /\ Same(x.l, y.l) /\ Same(x.r, y.r)

OutVerdict(e, want) == IF e.k # "ok" THEN e.k
                       ELSE IF Len(e.out) # Len(want) THEN "length"
                       ELSE IF e.out # want THEN "values"
                       ELSE "ok"

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})

Verdict(e) ==
  CASE e.o = "tab" -> "ok"
    [] e.o = "write" -> e.k
    [] e.o = "scan" -> ScanVerdict(e)
    [] e.o = "damaged" -> DamagedVerdict(e)
    [] e.o = "eval" -> OutVerdict(e, Eval(e.f[1], cols, n))
    [] e.o = "mask" -> IF e.k # "ok" THEN e.k
                       ELSE IF Len(e.out) # n THEN "length"
                       ELSE IF [i \in 1..n |-> B(e.out[i] = 1)] # Selected(e.f[1], cols, n) THEN "values"
                       ELSE "ok"
    [] e.o = "split" -> \* rows that satisfy every conjunct
         IF e.k # "ok" THEN e.k
         ELSE IF \E k \in 1..Len(e.out) : Len(e.out[k]) # n THEN "length"
         ELSE IF [i \in 1..n |-> B(\A k \in 1..Len(e.out) : e.out[k][i] = 1)] # Selected(e.f[1], cols, n) THEN "values"
         ELSE "ok"
    [] e.o = "seleq" -> IF (e.out[1] = 1) # (e.f = e.g) THEN "equality" ELSE "ok"
    [] e.o = "refs" -> OutVerdict(e, SortedSeq(Refs(e.f[1])))
    [] e.o = "eq" ->
         IF e.k # "ok" THEN e.k
         ELSE IF e.out[1] = 1 /\ ~Same(e.f[1], e.g[1]) THEN "equal-but-different"
         ELSE IF e.out[1] # e.same THEN "equality"
         ELSE "ok"
    [] e.o = "select" ->
         LET p == IF e.incl = 1 THEN e.p
                  ELSE SelectSeq([i \in 1..Len(cols) |-> i], LAMBDA i : i \notin Range(e.p))
             rows == [i \in 1..n |-> i]
         IN IF e.k # "ok" THEN e.k
            ELSE IF e.n # n THEN "length"
            ELSE IF e.c # Project(cols, rows, p) THEN "values"
            ELSE IF e.dt # 1 THEN "dtype"
            ELSE "ok"

Init == t \in 1..Len(Traces) /\ l = 1 /\ cols = <<>> /\ n = 0 /\ checked = 0 /\ skipped = 0

Next ==
  /\ l <= Len(Lines)
  /\ LET e == Lines[l]
         v == Verdict(e)
     IN /\ IF v \in {"ok", "skip", "gap"} THEN TRUE ELSE PrintT(<<"NC", t, l, v>>)
        /\ l' = l + 1
        /\ checked' = IF v = "ok" THEN checked + 1 ELSE checked
        /\ skipped' = IF v \in {"skip", "gap"} THEN skipped + 1 ELSE skipped
        /\ cols' = IF e.o = "tab" THEN e.cols ELSE cols
        /\ n' = IF e.o = "tab" THEN e.n ELSE n
        /\ IF l' <= Len(Lines) THEN TRUE ELSE PrintT(<<"END", t, checked', skipped'>>)
  /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
