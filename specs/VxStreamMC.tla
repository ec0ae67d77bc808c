------------------------------ MODULE VxStreamMC ------------------------------
(* The life of an IPC stream: a writer puts arrays (cut into chunks) and pages  *)
(* one after another; the transport delivers a prefix of it and then ends or    *)
(* fails; a consumer makes any sequence of calls.  Every run is exported and    *)
(* replayed against streams the library wrote.  Message i ends at "byte" i.     *)
EXTENDS VxStream, Json, TLC

CONSTANTS MaxItems, MaxChunks, Lens, PageLens,
          MaxCalls, Ks,     \* calls of the consumer; chunks asked for at a time
          FromAnywhere,     \* reading may start at any message
          Modes,            \* how the stream may end early: subset of {"eof", "part", "err", "mark"}
          Exporting

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, k) == IF k = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o s : x \in S, s \in SeqsUpTo(S, k - 1)}
Items == [k : {"arr"}, cut : SeqsUpTo(Lens, MaxChunks)] \cup [k : {"page"}, cut : {<<n>> : n \in PageLens}]

(* every value ever written is different                                        *)
Rows_(i, j, n) == [x \in 1..n |-> 100 * i + 10 * j + x]
Of(i, it) == IF it.k = "page" THEN <<[k |-> "page", d |-> 0, c |-> Rows_(i, 0, it.cut[1])]>>
             ELSE <<[k |-> "dtype", d |-> i, c |-> <<>>]>>
                  \o [j \in 1..Len(it.cut) |-> [k |-> "batch", d |-> i, c |-> Rows_(i, j, it.cut[j])]]

VARIABLES items, m,         \* what was written
          ph,               \* write, plan, call, run, end
          from, fault,      \* where reading starts; [mode, at]: messages 1..at arrive
          calls, busy,      \* the consumer: its calls, and what is left of the current one
          r, has, got, late \* the reader: as seen by VxStream, with a dtype, what it returned; failed no earlier than it had to
vars == <<items, m, ph, from, fault, calls, busy, r, has, got, late>>

z == [i \in 1..Len(m) |-> i]
Fails == fault.mode \in {"eof", "part", "err"}
f == [lo |-> fault.at, fail |-> Fails]
Idle == [o |-> "", left |-> 0, to |-> "call"]

Init == /\ items = <<>> /\ m = <<>> /\ ph = "write" /\ from = 1 /\ fault = [mode |-> "none", at |-> 0]
        /\ calls = <<>> /\ busy = Idle /\ r = Reader(1) /\ has = FALSE /\ got = <<>> /\ late = TRUE

Write == /\ ph = "write" /\ Len(items) < MaxItems
         /\ \E it \in Items : items' = Append(items, it) /\ m' = m \o Of(Len(items) + 1, it)
         /\ UNCHANGED <<ph, from, fault, calls, busy, r, has, got, late>>

Plan == /\ ph = "write" /\ m # <<>>
        /\ ph' = "run"
        /\ \E s \in (IF FromAnywhere THEN 1..Len(m) ELSE {1}) :
             /\ from' = s /\ r' = Reader(s)
             /\ fault' \in {[mode |-> "none", at |-> Len(m)]} \cup [mode : Modes, at : (s - 1)..(Len(m) - 1)]
             \* a mark in the stream: there are no more messages, whatever follows
             /\ m' = IF fault'.mode = "mark" THEN SubSeq(m, 1, fault'.at) ELSE m
        /\ busy' = [o |-> "open", left |-> 1, to |-> "call"]
        /\ UNCHANGED <<items, calls, has, got, late>>

(* what the consumer may call                                                   *)
Call == /\ ph = "call" /\ Len(calls) < MaxCalls
        /\ \E c \in {"page", "pages"} \cup (IF has THEN {"into"} \cup {ToString(k) : k \in Ks} ELSE {"load"})  \* a reader is for one array
                    \cup (IF calls = <<>> /\ from > 1 THEN {"with"} ELSE {}) :
             /\ calls' = Append(calls, c)
             /\ has' = (has \/ c = "with")
             /\ IF c = "with" THEN ph' = "call" /\ busy' = Idle
                ELSE /\ ph' = "run"
                     /\ busy' = CASE c = "load" -> [o |-> "dtype", left |-> 1, to |-> "call"]
                                  [] c = "page" -> [o |-> "page", left |-> 1, to |-> "call"]
                                  [] c = "pages" -> [o |-> "page", left |-> 99, to |-> "call"]
                                  [] c = "into" -> [o |-> "chunk", left |-> 99, to |-> "end"]
                                  [] OTHER -> [o |-> "chunk", left |-> CHOOSE k \in Ks : ToString(k) = c, to |-> "call"]
        /\ UNCHANGED <<items, m, from, fault, r, got, late>>

(* the events with which a reader may answer                                    *)
Ok(o, i) == [o |-> o, k |-> "ok", d |-> (IF o = "dtype" THEN m[i].d ELSE 0), c |-> (IF o = "dtype" THEN <<>> ELSE m[i].c), dt |-> 1]
No(o, k) == [o |-> o, k |-> k, d |-> 0, c |-> <<>>, dt |-> 1]
Here == IF r.pos <= Len(m) /\ r.pos <= fault.at THEN m[r.pos].k ELSE "end"
Gone == Fails /\ r.pos > fault.at      \* nothing more arrives
Soon == Fails /\ r.pos + 1 > fault.at  \* a reader may look one message ahead

Answers(o) ==
  IF o = "open" THEN {[o |-> o, k |-> "ok", d |-> 0, c |-> <<>>, dt |-> 1]} \cup (IF Soon THEN {No(o, "err")} ELSE {})
  ELSE IF r.st = "dead" THEN {No(o, "err")}
  ELSE IF Gone THEN {No(o, IF fault.mode = "eof" /\ o # "dtype" THEN "none" ELSE "err")}
  ELSE (IF Here = Wants(o) THEN {Ok(o, r.pos)} ELSE {No(o, IF o = "dtype" THEN "err" ELSE "none")})
       \cup (IF Soon THEN {No(o, "err")} ELSE {})

Answer == /\ ph = "run"
          /\ \E e \in Answers(busy.o) :
               LET q == ReadStep(m, z, f, r, e) IN
               /\ r' = q
               /\ late' = (late /\ ~(e.k = "err" /\ ~Gone /\ (busy.o \in {"open", "chunk", "page"} \/ Here = Wants(busy.o))))
               /\ got' = IF e.k = "ok" /\ busy.o # "open" THEN Append(got, r.pos) ELSE got
               /\ has' = (has \/ (busy.o = "dtype" /\ e.k = "ok"))
               /\ IF busy.o \in {"open", "dtype"} /\ e.k # "ok" THEN ph' = "end" /\ busy' = Idle
                  ELSE IF busy.left = 1 \/ e.k # "ok" THEN ph' = busy.to /\ busy' = Idle
                  ELSE ph' = "run" /\ busy' = [busy EXCEPT !.left = @ - 1]
          /\ UNCHANGED <<items, m, from, fault, calls>>

Export == IF Exporting /\ late
            THEN PrintT(<<"BEH", ToJson([items |-> items, from |-> from, fault |-> fault, calls |-> calls])>>) ELSE TRUE
End == /\ ph = "end" \/ (ph = "call" /\ Len(calls) = MaxCalls)
       /\ ph' = "over" /\ Export
       /\ UNCHANGED <<items, m, from, fault, calls, busy, r, has, got, late>>

Next == Write \/ Plan \/ Call \/ Answer \/ End
Fair == WF_vars(Answer) /\ WF_vars(Call) /\ WF_vars(End)
Spec == Init /\ [][Next]_vars /\ Fair

(* ---- properties --------------------------------------------------------------*)
(* such a reader is never rejected                                              *)
Accepted == ~Done(r)
(* what came out is what was put in, from where reading started, in order and   *)
(* without a gap, and only what arrived                                         *)
InOrder == /\ got = [i \in 1..Len(got) |-> from - 1 + i]
           /\ \A i \in 1..Len(got) : got[i] <= fault.at
           /\ ~Done(r) => r.pos = from + Len(got)
(* the owned stream of chunks ends only at the end of the array                 *)
WholeArray == (ph = "over" /\ calls # <<>> /\ calls[Len(calls)] = "into" /\ ~Fails) => Next_(m, r) # "batch"
(* any other answer with contents is rejected: out of order, twice, altered, or *)
(* what did not arrive                                                          *)
Rejects == (ph = "run" /\ busy.o # "open") =>
  \A i \in 1..Len(m) : (m[i].k = Wants(busy.o)) =>
     LET e == Ok(busy.o, i)
         right == r.st # "dead" /\ i = r.pos /\ i <= fault.at
         same == r.pos <= fault.at /\ r.st # "dead" /\ Here = Wants(busy.o) /\ m[i].c = m[r.pos].c /\ m[i].d = m[r.pos].d
         same0 == r.pos <= fault.at /\ r.st # "dead" /\ Here = Wants(busy.o) /\ m[i].c = m[r.pos].c /\ busy.o # "dtype"
     IN /\ Done(ReadStep(m, z, f, r, e)) <=> ~(right \/ same \/ same0)
        /\ (e.c # <<>> => Done(ReadStep(m, z, f, r, [e EXCEPT !.c[1] = 999])))
        /\ Done(ReadStep(m, z, f, r, [e EXCEPT !.dt = 0])) \/ busy.o = "page"
(* an answer that nothing is there is rejected while something is, if nothing   *)
(* fails                                                                        *)
NoSilence == (ph = "run" /\ busy.o # "open" /\ ~Fails /\ Here = Wants(busy.o)) =>
  \A k \in {"none", "err", "panic", "hang"} : Done(ReadStep(m, z, f, r, No(busy.o, k)))
Terminates == (ph # "write") ~> (ph = "over")
=============================================================================
