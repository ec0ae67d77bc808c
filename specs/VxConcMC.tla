------------------------------ MODULE VxConcMC -------------------------------
(* The design of the statistics cache, at the grain of its locks, checked       *)
(* against VxConc; every finished run is exported as a schedule and replayed    *)
(* into the real code.  A step of a thread runs from one point at which it may  *)
(* lose the processor to the next:                                              *)
(*   read   acquire the cache for reading, look, release                        *)
(*   write  acquire the cache for writing (and lose the processor holding it)   *)
(*   work   start computing; a leaf finishes, fills the cache and releases it   *)
(* An array with children computes by computing on every child and reading its  *)
(* cache, all while holding its own.                                            *)
EXTENDS VxConc, Json

CONSTANTS Graph,      \* sequence of the children of each node
          Calls,      \* the calls a thread may make: [op, n, s]
          Threads, PerThread,
          Design,     \* "held": as above; "unlocked": computes before acquiring;
                      \* "forget": empties the cache while computing (a planted flaw);
                      \* "racy": a read that gives up instead of waiting (another)
          Exporting

Stats == {"min", "max"}
Nodes == 1..Len(Graph)
NoThread == 0
Free == [w |-> NoThread]
(* any values: here every node is <<7>>                                         *)
TheNodes == [n \in Nodes |-> [a |-> <<7>>, joined |-> Graph[n] # <<>>]]
True == <<7>>

VARIABLES cache, lock, stack, prog, done, rep, seen, hist, why
vars == <<cache, lock, stack, prog, done, rep, seen, hist, why>>
View == <<cache, lock, stack, prog, done, rep, seen, why>>

Programs == [1..PerThread -> Calls]
(* threads are interchangeable: only one order of every choice of programs      *)
CallIdx == CHOOSE f \in [Calls -> 1..Cardinality(Calls)] : \A x, y \in Calls : x # y => f[x] # f[y]
Rank(p) == LET RECURSIVE R(_) R(i) == IF i = 0 THEN 0 ELSE R(i - 1) * (Cardinality(Calls) + 1) + CallIdx[p[i]] IN R(PerThread)

Init == /\ cache = [n \in Nodes |-> {}]
        /\ lock = [n \in Nodes |-> NoThread]
        /\ prog \in {f \in [1..Threads -> Programs] : \A i \in 1..Threads - 1 : Rank(f[i]) <= Rank(f[i + 1])}
        /\ stack = [t \in 1..Threads |-> <<>>]
        /\ done = [t \in 1..Threads |-> 0]
        /\ rep = NoReports
        /\ seen = [t \in 1..Threads |-> {}]
        /\ hist = <<>>
        /\ why = "ok"

Frame(op, n, s) == [op |-> op, n |-> n, s |-> s, pc |-> "read", i |-> 1]
Top(t) == stack[t][1]
Rest(t) == Tail(stack[t])

(* the thread t leaves its top call: what its caller does next without losing    *)
(* the processor                                                                *)
Log(t) == hist' = Append(hist, t)

(* a step gives the new cache, locks and stack of t                              *)
Return(t, c, lk, v) ==
  IF Rest(t) = <<>>
    THEN LET n == Top(t).n s == Top(t).s w == StatWhy(TheNodes, rep, seen[t], n, s, v)
         IN /\ stack' = [stack EXCEPT ![t] = <<>>]
            /\ done' = [done EXCEPT ![t] = @ + 1]
            /\ rep' = StatRep(rep, n, s, v)
            /\ why' = IF w # "ok" THEN w
                      ELSE IF Top(t).op = "compute" /\ v = <<>> THEN "unanswered" ELSE "ok"
            /\ cache' = c /\ lock' = lk
            /\ UNCHANGED <<prog, seen>>
    ELSE \* the caller computes: next it reads the whole cache of this child
         LET p == [Rest(t)[1] EXCEPT !.pc = "toset"]
         IN /\ stack' = [stack EXCEPT ![t] = <<p>> \o Tail(Rest(t))]
            /\ cache' = c /\ lock' = lk
            /\ UNCHANGED <<done, rep, seen, why, prog>>
Become(t, f, c, lk) ==
  /\ stack' = [stack EXCEPT ![t] = <<f>> \o Rest(t)]
  /\ cache' = c /\ lock' = lk
  /\ UNCHANGED <<done, rep, seen, why, prog>>

Known(c, n, s) == IF s \in c[n] THEN True ELSE <<>>
Extended(c, n, S) == [c EXCEPT ![n] = @ \cup S]

Begin(t) ==
  /\ stack[t] = <<>> /\ done[t] < PerThread
  /\ LET c == prog[t][done[t] + 1]
     IN stack' = [stack EXCEPT ![t] = <<Frame(c.op, c.n, c.s)>>]
  /\ seen' = [seen EXCEPT ![t] = Reported(rep)]
  /\ UNCHANGED <<cache, lock, prog, done, rep, why>>

(* what an unlocked design has computed when it comes to fill the cache          *)
ReadFree(n) == lock[n] = NoThread \/ Design = "racy"
See(n, s) == IF lock[n] # NoThread THEN <<>> ELSE Known(cache, n, s)

Step(t) ==
  /\ stack[t] # <<>>
  /\ LET f == Top(t) n == f.n kids == Graph[f.n]
     IN CASE f.pc = "read" ->
               /\ ReadFree(n)
               /\ IF f.op = "get" \/ See(n, f.s) # <<>>
                    THEN Return(t, cache, lock, See(n, f.s))
                    ELSE Become(t, [f EXCEPT !.pc = IF Design = "unlocked" THEN "work" ELSE "write"], cache, lock)
          [] f.pc = "write" ->
               /\ lock[n] = NoThread
               /\ IF Design = "unlocked"
                    THEN Become(t, [f EXCEPT !.pc = "final"], Extended(cache, n, Stats), lock)
                    ELSE Become(t, [f EXCEPT !.pc = "work"],
                                IF Design = "forget" THEN [cache EXCEPT ![n] = {}] ELSE cache,
                                IF Design = "forget" THEN lock ELSE [lock EXCEPT ![n] = t])
          [] f.pc = "work" ->
               IF f.i <= Len(kids)
                 THEN /\ stack' = [stack EXCEPT ![t] = <<Frame("compute", kids[f.i], f.s)>> \o stack[t]]
                      /\ UNCHANGED <<cache, lock, prog, done, rep, seen, why>>
                 ELSE IF Design = "unlocked" THEN Become(t, [f EXCEPT !.pc = "write"], cache, lock)
                 ELSE Become(t, [f EXCEPT !.pc = "final"], Extended(cache, n, Stats),
                             IF lock[n] = t THEN [lock EXCEPT ![n] = NoThread] ELSE lock)
          [] f.pc = "toset" ->
               /\ ReadFree(kids[f.i])
               /\ IF f.i < Len(kids)
                    THEN /\ stack' = [stack EXCEPT ![t] = <<Frame("compute", kids[f.i + 1], f.s), [f EXCEPT !.i = @ + 1, !.pc = "work"]>> \o Rest(t)]
                         /\ UNCHANGED <<cache, lock, prog, done, rep, seen, why>>
                    ELSE IF Design = "unlocked" THEN Become(t, [f EXCEPT !.pc = "write"], cache, lock)
                    ELSE Become(t, [f EXCEPT !.pc = "final"], Extended(cache, n, Stats),
                                IF lock[n] = t THEN [lock EXCEPT ![n] = NoThread] ELSE lock)
          [] f.pc = "final" ->
               /\ ReadFree(n)
               /\ Return(t, cache, lock, See(n, f.s))

(* graphs and calls for the configurations                                       *)
Leaf == <<<<>>>>
Chunked1 == <<<<>>, <<1>>>>
Shared == <<<<>>, <<1>>, <<1>>>>
Chunked2 == <<<<>>, <<>>, <<1, 2>>>>
Nested == <<<<>>, <<1>>, <<2>>>>
Twice == <<<<>>, <<1, 1>>>>
AnyCall == [op : {"get", "compute"}, n : Nodes, s : Stats]
Computes == [op : {"compute"}, n : Nodes, s : {"min"}]
Mins == [op : {"get", "compute"}, n : Nodes, s : {"min"}]
TopOrLeaf == [op : {"compute"}, n : {Len(Graph)}, s : {"min"}] \cup [op : {"get"}, n : {1}, s : {"min"}]

Finished == \A t \in 1..Threads : done[t] = PerThread
Done == Finished /\ UNCHANGED vars
Next ==
  \/ \E t \in 1..Threads :
       /\ (Begin(t) \/ Step(t))
       /\ Log(t)
       /\ IF Exporting /\ \A u \in 1..Threads : done'[u] = PerThread
            THEN PrintT(<<"BEH", ToJson([graph |-> Graph, prog |-> prog, sched |-> hist'])>>) ELSE TRUE
  \/ Done

Spec == Init /\ [][Next]_vars

Conforms == why = "ok"
(* a cache only ever grows, whoever holds it                                    *)
NothingForgotten == \A k \in Reported(rep) : k[2] \in cache[k[1]]
OneWriter == \A n \in Nodes : lock[n] \in 0..Threads
=============================================================================
