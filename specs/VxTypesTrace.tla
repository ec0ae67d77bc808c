---------------------------- MODULE VxTypesTrace -----------------------------
(* Types and scalars written, read, projected, compared and cast by the real    *)
(* library.                                                                     *)
EXTENDS VxTypes, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VX_TRACE)
VARIABLES t, l, checked, skipped
vars == <<t, l, checked, skipped>>
View == <<t, l>>
Lines == Traces[t].lines

Rejected(k) == k \in {"err", "unsup"}
Bool(b) == IF b THEN 1 ELSE 0

Verdict(e) ==
  CASE e.o = "dtype" ->           \* through an encoding of types and back
         IF e.k # "ok" THEN e.k ELSE IF e.out # e.in THEN "type" ELSE "ok"
    [] e.o = "project" ->
         IF ~Resolvable(e.in, e.f) THEN (IF Rejected(e.k) THEN "ok" ELSE "not-rejected:" \o e.k)
         ELSE IF e.k # "ok" THEN e.k
         ELSE IF e.out # ProjectType(e.in, e.f) THEN "type" ELSE "ok"
    [] e.o = "find" ->
         IF e.k # "ok" THEN e.k
         ELSE IF e.i # Position(e.in, e.f) THEN "position" ELSE "ok"
    [] e.o = "null" ->
         IF e.k # "ok" THEN e.k
         ELSE IF e.as0 # WithNull(e.in, 0) \/ e.as1 # WithNull(e.in, 1) THEN "type"
         ELSE IF e.is # Bool(Nullable(e.in)) THEN "is_nullable" ELSE "ok"
    [] e.o = "equal" ->           \* equality of types, with and without nullability
         IF e.k # "ok" THEN e.k
         ELSE IF e.eq # Bool(e.a = e.b) THEN "equal"
         ELSE IF e.ein # Bool(EqIgnoringNull(e.a, e.b)) THEN "equal-ignoring-null"
         ELSE IF e.a = e.b /\ e.h # 1 THEN "hash" ELSE "ok"
    [] e.o = "scalar" ->          \* through an encoding of scalars and back
         IF e.k # "ok" THEN e.k
         ELSE IF e.dout # e.d THEN "type"
         ELSE IF ~SameValue(e.out, e.v, e.d) THEN "value"
         ELSE IF e.d.k # "ext" /\ IsInstance(e.v, e.d) /\ ~IsInstance(e.out, e.d) THEN "instance"
         ELSE "ok"
    [] e.o = "instance" ->
         IF e.k # "ok" THEN e.k
         ELSE IF e.d.k = "ext" THEN "skip"
         ELSE IF e.r # Bool(IsInstance(e.v, e.d)) THEN "instance" ELSE "ok"
    [] e.o = "sequal" ->
         IF e.k # "ok" THEN e.k
         ELSE IF e.eq # Bool(e.da = e.db /\ e.va = e.vb) THEN "equal" ELSE "ok"
    [] e.o = "scmp" ->
         IF e.k # "ok" THEN e.k
         ELSE IF e.c # CompareScalars(e.da, e.db, e.ra, e.rb) THEN "order" ELSE "ok"
    [] e.o = "sproject" ->
         IF ~Resolvable(e.d, e.f) THEN (IF Rejected(e.k) THEN "ok" ELSE "not-rejected:" \o e.k)
         ELSE IF e.k # "ok" THEN e.k
         ELSE IF e.dout # ProjectType(e.d, e.f) THEN "type"
         ELSE IF e.out # ProjectValue(e.d, e.v, e.f) THEN "value" ELSE "ok"
    [] e.o = "scast" ->           \* to a type that has the value (fits) or not
         IF e.v.k = "null" /\ ~Nullable(e.to) THEN (IF Rejected(e.k) THEN "ok" ELSE "not-rejected:" \o e.k)
         ELSE IF e.fits = 0 THEN (IF Rejected(e.k) THEN "ok" ELSE "not-rejected:" \o e.k)
         ELSE IF e.k # "ok" THEN e.k
         ELSE IF e.dout # e.to THEN "type"
         ELSE IF e.v.k = "null" THEN (IF e.out.k = "null" THEN "ok" ELSE "value")
         ELSE IF e.num # e.nout THEN "value"
         ELSE IF ~IsInstance(e.out, e.to) THEN "instance" ELSE "ok"

Init == t \in 1..Len(Traces) /\ l = 1 /\ checked = 0 /\ skipped = 0
Next ==
  /\ l <= Len(Lines)
  /\ LET e == Lines[l]
         v == Verdict(e)
     IN /\ IF v \in {"ok", "skip", "gap"} THEN TRUE ELSE PrintT(<<"NC", t, l, v>>)
        /\ l' = l + 1
        /\ checked' = IF v = "ok" THEN checked + 1 ELSE checked
        /\ skipped' = IF v \in {"skip", "gap"} THEN skipped + 1 ELSE skipped
        /\ IF l' <= Len(Lines) THEN TRUE ELSE PrintT(<<"END", t, checked', skipped'>>)
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
