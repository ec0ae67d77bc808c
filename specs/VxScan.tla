------------------------------- MODULE VxScan --------------------------------
(* The life of one scan, as its consumer sees it.                              *)
(*   scan = [want, cur, st]: the columns that must come out, how many rows     *)
(* have been delivered, and whether it is open, finished or failed.            *)
EXTENDS VxTable

NumRows(want) == IF want = <<>> THEN 0 ELSE Len(want[1])
Opened(want, n) == [want |-> want, n |-> n, cur |-> 0, st |-> "open"]

(* a batch of rows: the next ones, no more than were asked for                 *)
CanDeliver(s, b, bs) ==
  /\ s.st = "open"
  /\ b.n <= bs
  /\ s.cur + b.n <= s.n
  /\ Len(b.c) = Len(s.want)
  /\ \A j \in 1..Len(b.c) : b.c[j] = SubSeq(s.want[j], s.cur + 1, s.cur + b.n)
Deliver(s, b) == [s EXCEPT !.cur = @ + b.n]

(* the end is reported when, and only when, everything has been delivered      *)
CanFinish(s) == s.st = "open" /\ s.cur = s.n
Finish(s) == [s EXCEPT !.st = "finished"]

(* an error may be reported only if something failed underneath                *)
CanFail(s, fault) == s.st = "open" /\ fault
Fail(s) == [s EXCEPT !.st = "failed"]

(* batches b[k..] delivered one after the other; the scan stops where one of   *)
(* them is not a step of the specification                                     *)
RECURSIVE Run(_, _, _, _)
Run(s, b, bs, k) ==
  IF k > Len(b) THEN s
  ELSE IF CanDeliver(s, b[k], bs) THEN Run(Deliver(s, b[k]), b, bs, k + 1)
  ELSE [s EXCEPT !.st = "wrong"]
=============================================================================
