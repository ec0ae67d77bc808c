----------------------------- MODULE VxConcTrace -----------------------------
(* Histories of calls made by several threads on shared arrays, judged by       *)
(* VxConc.  inv and ret lines are in the order in which they happened: an inv   *)
(* line comes before its call begins, a ret line after its call has ended.      *)
EXTENDS VxConc, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VX_TRACE)

VARIABLES t, l, nodes, rep, open, checked, skipped
vars == <<t, l, nodes, rep, open, checked, skipped>>
View == <<t, l>>
Lines == Traces[t].lines

(* several statistics reported at once; what is missing is not known            *)
Of(vs, s) == LET I == {i \in 1..Len(vs) : vs[i].s = s} IN IF I = {} THEN <<>> ELSE vs[CHOOSE i \in I : TRUE].v
NodeStats(n, vs, seen) == {k[2] : k \in {j \in seen : j[1] = n}} \cup {vs[i].s : i \in 1..Len(vs)}
SetWhy(n, vs, seen) ==
  LET bad == {s \in NodeStats(n, vs, seen) : StatWhy(nodes, rep, seen, n, s, Of(vs, s)) # "ok"}
  IN IF bad = {} THEN "ok" ELSE LET s == CHOOSE s \in bad : TRUE IN StatWhy(nodes, rep, seen, n, s, Of(vs, s))
RECURSIVE SetRep(_, _, _, _)
SetRep(r, n, vs, i) == IF i = 0 THEN r ELSE StatRep(SetRep(r, n, vs, i - 1), n, vs[i].s, vs[i].v)

(* a statistic that was put on a part, and nothing else known of it, may leave  *)
(* the whole unknown, with or without other threads                             *)
AnyPut == \E k \in 1..(l - 1) : Lines[k].o = "inv" /\ Lines[k].op \in {"put"}

(* every call answers as it would on its own                                    *)
RetWhy(e) ==
  IF e.k # e.seq.k THEN "outcome"
  ELSE IF e.k # "ok" THEN "ok"
  ELSE CASE e.op = "get" -> StatWhy(nodes, rep, open[e.t], e.n, e.s, e.v)
         [] e.op = "compute" ->
              LET w == StatWhy(nodes, rep, open[e.t], e.n, e.s, e.v)
              IN IF w # "ok" THEN w ELSE IF e.v = <<>> /\ e.seq.v # <<>> /\ ~AnyPut THEN "unanswered" ELSE "ok"
         [] e.op = "put" -> IF e.v = <<>> THEN "ok" ELSE StatWhy(nodes, rep, {}, e.n, e.s, e.v)
         [] e.op = "set" -> SetWhy(e.n, e.vs, open[e.t])
         [] OTHER -> IF e.r # e.seq.r \/ e.dt # e.seq.dt THEN "result" ELSE "ok"

Verdict(e) ==
  CASE e.o = "node" -> "skip"
    [] e.o = "inv" -> "skip"
    [] e.o = "stuck" -> "stuck"
    [] e.o = "audit" -> IF e.k # "ok" THEN e.k ELSE SetWhy(e.n, e.vs, Reported(rep))
    [] e.o = "ret" -> RetWhy(e)

RepNext(e) ==
  IF e.o \notin {"ret", "audit"} \/ e.k # "ok" THEN rep
  ELSE IF e.o = "audit" \/ e.op = "set" THEN SetRep(rep, e.n, e.vs, Len(e.vs))
  ELSE IF e.op \in {"get", "compute", "put"} THEN StatRep(rep, e.n, e.s, e.v)
  ELSE rep

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ nodes = <<>> /\ rep = NoReports
        /\ open = [k \in 1..8 |-> {}] /\ checked = 0 /\ skipped = 0

Next ==
  /\ l <= Len(Lines)
  /\ LET e == Lines[l]
         v == Verdict(e)
     IN /\ IF v \in {"ok", "skip"} THEN TRUE ELSE PrintT(<<"NC", t, l, v>>)
        /\ l' = l + 1
        /\ checked' = IF v = "ok" THEN checked + 1 ELSE checked
        /\ skipped' = skipped
        /\ nodes' = IF e.o = "node" THEN Append(nodes, [a |-> e.a, joined |-> e.c = 1]) ELSE nodes
        /\ open' = IF e.o = "inv" THEN [open EXCEPT ![e.t] = Reported(rep)] ELSE open
        /\ rep' = RepNext(e)
        /\ IF l' <= Len(Lines) THEN TRUE ELSE PrintT(<<"END", t, checked', skipped'>>)
  /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
