----------------------------- MODULE VxArrayTrace ----------------------------
(* Histories recorded from the real library, checked against VxArray.          *)
(* A trace is a sequence of lines; registers hold logical arrays.  Each line   *)
(* is one call: the state the specification reaches is computed from the       *)
(* specification's own registers, never from what the library reported.        *)
EXTENDS VxArray, VxGaps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VX_TRACE)

VARIABLES t, l, regs, checked, skipped
vars == <<t, l, regs, checked, skipped>>
View == <<t, l>>

Lines == Traces[t].lines
Bad == [ok |-> FALSE, v |-> <<>>]
Good(s) == [ok |-> TRUE, v |-> s]
R(i) == regs[i].v

Producing == {"enc", "slice", "take", "filter", "id", "again", "cmp", "and", "or", "inv", "cast", "ff", "sub", "batch"}
Binary == {"cmp", "and", "or"}

(* operands whose contents the library already got wrong are not judged again  *)
Operands(e) == (IF e.a = 0 THEN {} ELSE {e.a}) \cup (IF e.o \in Binary THEN {e.b} ELSE {})
Usable(e) == \A r \in Operands(e) : regs[r].ok

(* is the call in the domain of the operation?                                 *)
InDomain(e) ==
  CASE e.o = "slice" -> SliceOk(R(e.a), e.x[1], e.x[2])
    [] e.o = "take" -> TakeOk(R(e.a), e.x)
    [] e.o = "filter" -> FilterOk(R(e.a), e.x) /\ "bad" \notin DOMAIN e
    [] e.o \in Binary -> Len(R(e.a)) = Len(R(e.b)) /\ "bad" \notin DOMAIN e
    [] e.o = "cast" -> /\ Fits(R(e.a), e.lo, e.hi) \/ e.fl = 1
                       /\ e.nn = 1 => NullCount(R(e.a)) = 0
    [] e.o = "batch" -> NullCount(R(e.a)) = 0  (* a record batch has no null rows *)
    [] OTHER -> TRUE

(* the array an in-domain call must produce                                    *)
Result(e) ==
  CASE e.o = "enc" -> e.in
    [] e.o = "slice" -> Slice(R(e.a), e.x[1], e.x[2])
    [] e.o = "take" -> Take(R(e.a), e.x)
    [] e.o = "filter" -> Filter(R(e.a), e.x)
    [] e.o \in {"id", "again", "batch"} -> R(e.a)
    [] e.o = "cmp" -> Compare(e.op, R(e.a), R(e.b))
    [] e.o = "and" -> And(R(e.a), R(e.b))
    [] e.o = "or" -> Or(R(e.a), R(e.b))
    [] e.o = "inv" -> Invert(R(e.a))
    [] e.o = "cast" -> R(e.a)
    [] e.o = "sub" -> Subtract(R(e.a), e.c)

BigFloatCast(e) == e.o = "cast" /\ e.fl = 1 /\ ~Fits(R(e.a), -16777216, 16777216)

ProducingVerdict(e) ==
  IF e.k = "unsup" /\ Gap(e) THEN "gap"
  ELSE IF BigFloatCast(e) THEN "skip"
  ELSE IF ~InDomain(e)
    THEN IF e.k \in {"err", "unsup"} THEN "ok" ELSE "not-rejected:" \o e.k
  ELSE IF e.k # "ok" THEN e.k
  ELSE IF e.o = "ff"
    THEN IF ~IsFillForward(R(e.a), e.out, e.z) THEN "wrong" ELSE IF e.dt # 1 THEN "dtype" ELSE "ok"
  ELSE IF Len(e.out) # Len(Result(e)) THEN "length"
  ELSE IF e.out # Result(e)
    THEN IF \E i \in 1..Len(e.out) : (e.out[i] = NULL) # (Result(e)[i] = NULL) THEN "nulls" ELSE "values"
  ELSE IF e.dt # 1 THEN "dtype"
  ELSE "ok"

AllTags(ks, s) == \A i \in 1..Len(ks) : ks[i] = s
FirstNot(ks, s) == ks[CHOOSE i \in 1..Len(ks) : ks[i] # s]

ObsVerdict(e) ==
  CASE e.o = "sat" ->
         IF AllTags(e.ks, "unsup") /\ Len(e.ks) > 0 /\ Gap(e) THEN "gap"
         ELSE IF ~AllTags(e.ks, "ok") THEN FirstNot(e.ks, "ok")
         ELSE IF \E i \in 1..Len(e.x) : e.out[i] # R(e.a)[e.x[i] + 1] THEN "values"
         ELSE IF \E i \in 1..Len(e.x) : e.iv[i] # B(R(e.a)[e.x[i] + 1] # NULL) THEN "is_valid"
         ELSE IF e.lk # "ok" THEN "validity-" \o e.lk
         ELSE IF e.lv # [i \in 1..Len(R(e.a)) |-> B(R(e.a)[i] # NULL)] THEN "logical_validity"
         ELSE IF e.dt # 1 THEN "dtype"
         ELSE "ok"
    [] e.o = "satx" -> IF e.k \in {"err", "unsup"} THEN "ok" ELSE "not-rejected:" \o e.k
    [] e.o = "ss" ->
         IF ~Sorted(R(e.a)) \/ NullCount(R(e.a)) > 0 THEN "skip"
         ELSE IF Len(e.ks) > 0 /\ AllTags(e.ks, "unsup") /\ Gap(e) THEN "gap"
         ELSE IF ~AllTags(e.ks, "ok") THEN FirstNot(e.ks, "ok")
         ELSE IF \E i \in 1..Len(e.v) : e.out[i] # Search(R(e.a), e.v[i], e.side).pos THEN "position"
         ELSE IF \E i \in 1..Len(e.v) : e.found[i] # Search(R(e.a), e.v[i], e.side).found THEN "found"
         ELSE "ok"
    [] e.o = "stat" ->
         IF e.k = "unsup" THEN "gap"
         ELSE IF e.k # "ok" THEN e.k
         ELSE IF StatTrue(R(e.a), e.s, e.v, e.c = 1) THEN "ok" ELSE "untrue"
    [] e.o = "parts" ->
         IF e.k # "ok" THEN e.k
         ELSE IF Concat(e.out) # R(e.a) THEN "values"
         ELSE IF e.w = "rechunk" /\ ~RechunkOk(e.ins, Map(e.out, Len), e.lim) THEN "limit"
         ELSE IF e.dt # 1 THEN "dtype"
         ELSE "ok"

Verdict(e) == IF ~Usable(e) THEN "skip"
              ELSE IF e.o \in Producing THEN ProducingVerdict(e) ELSE ObsVerdict(e)

(* the specification's register after the line                                 *)
NewReg(e, v) ==
  IF v = "ok" /\ e.k = "ok"
    THEN IF e.o = "ff" THEN Good(e.out) ELSE Good(Result(e))
    ELSE Bad

Init == t \in 1..Len(Traces) /\ l = 1 /\ regs = <<>> /\ checked = 0 /\ skipped = 0

Next ==
  /\ l <= Len(Lines)
  /\ LET e == Lines[l]
         v == Verdict(e)
     IN /\ IF v \in {"ok", "skip", "gap"} THEN TRUE ELSE PrintT(<<"NC", t, l, v>>)
        /\ l' = l + 1
        /\ checked' = IF v = "ok" THEN checked + 1 ELSE checked
        /\ skipped' = IF v \in {"skip", "gap"} THEN skipped + 1 ELSE skipped
        /\ regs' = IF e.o \in Producing THEN Append(regs, NewReg(e, v)) ELSE regs
        /\ IF l' <= Len(Lines) THEN TRUE ELSE PrintT(<<"END", t, checked', skipped'>>)
  /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
(* registers are immutable and numbered in order of creation                   *)
RegsOk == \A i \in 1..Len(regs) : regs[i].ok \in BOOLEAN
=============================================================================
