------------------------------ MODULE VxScanMC -------------------------------
(* A scan of a file, from its opening to its end.  A file stores three columns *)
(* (x and y to filter by, and a column that tells rows apart), each in chunks  *)
(* of its own; every chunk takes one read; reads complete in any order, or     *)
(* fail; rows come out in batches.  Every run of the small machine is exported *)
(* and replayed against files the library wrote.                               *)
EXTENDS VxScan, Json, TLC

CONSTANTS MaxRows, MaxChunks, Batches, FV, Filters, Projections,
          MaxOpen,        \* how many reads may be outstanding
          AnyOrder, Faults, Exporting

SeqsOf(S, n) == [1..n -> S]
RECURSIVE Splits(_, _)
Splits(n, k) == IF k = 1 THEN {<<n>>}
                ELSE UNION {{<<i>> \o s : s \in Splits(n - i, k - 1)} : i \in 0..n}
Layouts(n) == UNION {Splits(n, k) : k \in 1..MaxChunks}
Whole(n) == <<n>>

UsesX(f) == f \in {"x", "xandy", "xory"}
UsesY(f) == f \in {"xandy", "xory"}
Zero(n) == [i \in 1..n |-> 0]

X == [t |-> "cmp", op |-> "eq", l |-> [t |-> "col", c |-> 1], r |-> [t |-> "lit", v |-> 1]]
Y == [t |-> "cmp", op |-> "eq", l |-> [t |-> "col", c |-> 2], r |-> [t |-> "lit", v |-> 1]]
FilterOf(f) == CASE f = "none" -> <<>>
                 [] f = "x" -> <<X>>
                 [] f = "xandy" -> <<[t |-> "and", l |-> X, r |-> Y]>>
                 [] f = "xory" -> <<[t |-> "or", l |-> X, r |-> Y]>>

Columns(p) == CASE p = "i" -> <<3>> [] p = "x" -> <<1>> [] p = "xi" -> <<1, 3>> [] p = "ix" -> <<3, 1>> [] p = "xyi" -> <<1, 2, 3>>
Cols(c) == <<c.x, c.y, [i \in 1..c.n |-> i]>>
Sel(c) == Rows(FilterOf(c.f), Cols(c), c.n)
Want(c) == Project(Cols(c), Sel(c), c.p)
Needed(c) == Range(c.p) \cup (IF UsesX(c.f) THEN {1} ELSE {}) \cup (IF UsesY(c.f) THEN {2} ELSE {})

(* chunk k of column j holds rows First+1 .. First+Len                         *)
RECURSIVE Upto(_, _)
Upto(s, k) == IF k = 0 THEN 0 ELSE s[k] + Upto(s, k - 1)
Reads(c) == {<<j, k>> : j \in Needed(c), k \in 1..MaxChunks} \cap {<<j, k>> \in (1..3) \X (1..MaxChunks) : k <= Len(c.cut[j])}
Holds(c, r, row) == Upto(c.cut[r[1]], r[2] - 1) < row /\ row <= Upto(c.cut[r[1]], r[2])
(* reads are issued column by column, chunk by chunk                           *)
Before(r, s) == r[2] < s[2] \/ (r[2] = s[2] /\ r[1] < s[1])

VARIABLES conf, order, bad, scan
vars == <<conf, order, bad, scan>>

Confs == UNION {UNION {
  {[n |-> n, f |-> f, p |-> Columns(p), bs |-> bs, x |-> x, y |-> y, cut |-> <<cx, cy, ci>>] :
     p \in Projections, bs \in Batches,
     x \in (IF UsesX(f) THEN SeqsOf(FV, n) ELSE {Zero(n)}), y \in (IF UsesY(f) THEN SeqsOf(FV, n) ELSE {Zero(n)}),
     cx \in Layouts(n), cy \in (IF UsesY(f) THEN Layouts(n) ELSE {Whole(n)}), ci \in (IF UsesY(f) THEN {Whole(n)} ELSE Layouts(n))}
  : f \in Filters} : n \in 0..MaxRows}

Init == /\ conf \in Confs
        /\ order = <<>> /\ bad = 0
        /\ scan = Opened(Want(conf), Len(Sel(conf)))

Complete == /\ scan.st = "open" /\ bad = 0
            /\ \E r \in Reads(conf) \ Range(order) :
                 /\ LET open == {s \in Reads(conf) \ Range(order) : Before(s, r)} IN
                      IF AnyOrder THEN Cardinality(open) < MaxOpen ELSE open = {}
                 /\ order' = Append(order, r)
                 /\ \/ bad' = 0
                    \/ Faults /\ bad' = Len(order')
            /\ UNCHANGED <<conf, scan>>

(* rows may come out once everything that holds them, or rows before, is read  *)
Ready(upto) == \A r \in Reads(conf) : \A row \in 1..upto : Holds(conf, r, row) => \E i \in 1..Len(order) : order[i] = r /\ i # bad
Emit == /\ scan.st = "open"
        /\ \E k \in 1..conf.bs :
             /\ scan.cur + k <= scan.n
             /\ Ready(Sel(conf)[scan.cur + k])
             /\ LET b == [n |-> k, c |-> [j \in 1..Len(scan.want) |-> SubSeq(scan.want[j], scan.cur + 1, scan.cur + k)]]
                IN CanDeliver(scan, b, conf.bs) /\ scan' = Deliver(scan, b)
        /\ UNCHANGED <<conf, order, bad>>

Export == IF Exporting THEN PrintT(<<"BEH", ToJson([conf |-> conf, order |-> order, bad |-> bad])>>) ELSE TRUE
End == /\ CanFinish(scan) /\ bad = 0 /\ Range(order) = Reads(conf)
       /\ scan' = Finish(scan)
       /\ Export
       /\ UNCHANGED <<conf, order, bad>>
Break == /\ CanFail(scan, bad > 0)
         /\ scan' = Fail(scan)
         /\ Export
         /\ UNCHANGED <<conf, order, bad>>

Next == Complete \/ Emit \/ End \/ Break
Fair == WF_vars(Complete) /\ WF_vars(Emit) /\ WF_vars(End) /\ WF_vars(Break)
Spec == Init /\ [][Next]_vars /\ Fair

(* ---- properties --------------------------------------------------------------*)
(* only rows that are selected, and no row of a chunk not yet read             *)
Sound == /\ scan.cur <= scan.n
         /\ scan.cur > 0 => Ready(Sel(conf)[scan.cur])
(* the end means that everything came out and nothing failed                   *)
EndMeansAll == scan.st = "finished" => scan.cur = scan.n /\ bad = 0
FailMeansFault == scan.st = "failed" => bad > 0
(* what is wanted does not depend on how columns are chunked, on the batch     *)
(* size, nor on the order of conjuncts; filtering then projecting commutes     *)
Independent ==
  /\ conf.f = "xandy" => Sel(conf) = Rows(<<[t |-> "and", l |-> Y, r |-> X]>>, Cols(conf), conf.n)
  /\ conf.f = "xandy" => Range(Sel(conf)) = Range(Rows(<<X>>, Cols(conf), conf.n)) \cap Range(Rows(<<Y>>, Cols(conf), conf.n))
  /\ conf.f = "xory" => Range(Sel(conf)) =  \* a null on either side makes the disjunction null
       {i \in Range(Rows(<<X>>, Cols(conf), conf.n)) \cup Range(Rows(<<Y>>, Cols(conf), conf.n)) : conf.x[i] # NULL /\ conf.y[i] # NULL}
  /\ \A i \in 1..Len(Sel(conf)) - 1 : Sel(conf)[i] < Sel(conf)[i + 1]
Terminates == <>(scan.st \in {"finished", "failed"})
=============================================================================
