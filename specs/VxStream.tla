------------------------------ MODULE VxStream -------------------------------
(* An IPC stream: a sequence of messages, each a dtype, a batch (a chunk of an *)
(* array) or a page of bytes, and a reader that consumes it.                   *)
(*   m     messages [k, d, c]: kind, dtype, contents                           *)
(*   b, z  first byte of each message, and the byte after its last             *)
(* A reader r = [pos, st, why] has consumed the messages before pos.  The      *)
(* transport delivers the first `lo` bytes for sure, and fails (or ends) at    *)
(* some byte no later than `hi`; lo = hi = total if nothing fails.             *)
EXTENDS VxValues

(* the writer: messages tile the stream, row offsets count the rows            *)
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Tiles(b, z, total) ==
  /\ Len(b) = Len(z)
  /\ \A i \in 1..Len(b) : b[i] < z[i] /\ b[i] = (IF i = 1 THEN 0 ELSE z[i - 1])
  /\ total = (IF z = <<>> THEN 0 ELSE z[Len(z)])
RowOffsetsOk(r) == /\ Len(r.r) = Len(r.lens) + 1 /\ r.n = Len(r.r)
                   /\ \A i \in 1..Len(r.r) : r.r[i] = SumTo(r.lens, i - 1)

Reader(at) == [pos |-> at, st |-> "new", why |-> ""]
Wrong(r, w) == [r EXCEPT !.st = "wrong", !.why = w]
Dead(r) == [r EXCEPT !.st = "dead"]
Done(r) == r.st = "wrong"

(* the message a call consumes                                                 *)
Wants(o) == CASE o = "dtype" -> "dtype" [] o = "chunk" -> "batch" [] o = "page" -> "page"
Next_(m, r) == IF r.pos <= Len(m) THEN m[r.pos].k ELSE "end"

(* contents that were never written, or not yet delivered by the transport     *)
Correct(msg, e) == IF e.o = "dtype" THEN e.d = msg.d /\ e.dt = 1
                   ELSE IF e.o = "chunk" THEN e.c = msg.c /\ e.dt = 1
                   ELSE e.c = msg.c

(* one call of the consumer                                                    *)
ReadStep(m, z, f, r, e) ==
  LET mayfail == f.fail IN
  IF e.k \in {"panic", "hang", "undecodable", "endless"} THEN Wrong(r, e.k)
  ELSE IF e.o = "open"
    THEN IF e.k = "ok" THEN [r EXCEPT !.st = "open"]
         ELSE IF mayfail THEN Dead(r) ELSE Wrong(r, "open-error")
  ELSE IF r.st = "dead"
    THEN IF e.k = "ok" THEN Wrong(r, "after-failure") ELSE r
  ELSE IF Next_(m, r) = Wants(e.o)
    THEN IF e.k = "ok"
           THEN IF ~Correct(m[r.pos], e) THEN Wrong(r, "altered-" \o e.o)
                ELSE IF z[r.pos] > f.lo THEN Wrong(r, "invented-" \o e.o)
                ELSE [r EXCEPT !.pos = @ + 1]
           ELSE IF mayfail THEN Dead(r) ELSE Wrong(r, e.k \o "-" \o e.o)
  ELSE \* the next message is of another kind, or there is none
       IF e.k = "ok" THEN Wrong(r, "unexpected-" \o e.o)
       ELSE IF e.o = "dtype" THEN (IF e.k = "err" THEN r ELSE Wrong(r, "no-dtype"))
       ELSE IF e.k = "none" THEN r
       ELSE IF mayfail THEN Dead(r) ELSE Wrong(r, "error-" \o e.o)

RECURSIVE ReadAll(_, _, _, _, _, _)
ReadAll(m, z, f, r, ev, k) ==
  IF k > Len(ev) \/ Done(r) THEN r
  ELSE ReadAll(m, z, f, ReadStep(m, z, f, r, ev[k]), ev, k + 1)

(* rows of the array whose chunks are the batches of the stream                *)
RECURSIVE Batches(_, _)
Batches(m, k) == IF k > Len(m) THEN <<>>
                 ELSE IF m[k].k = "batch" THEN m[k].c \o Batches(m, k + 1) ELSE Batches(m, k + 1)
TakeRows(m, x) == LET rows == Batches(m, 1) IN [i \in 1..Len(x) |-> rows[x[i] + 1]]
StrictlyIncreasing(x) == \A i \in 1..Len(x) - 1 : x[i] < x[i + 1]
=============================================================================
