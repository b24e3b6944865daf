----------------------------- MODULE TraceConc ------------------------------
(* Conformance of concurrent uses of the forest store (C14).  A history is   *)
(* accepted when its operations can be put in an order in which each does    *)
(* what module Forest says, and in which no operation comes before one that  *)
(* had returned when it began.  Whatever does not return is rejected.        *)
EXTENDS TraceBase, FiniteSets

VARIABLES held,      \* what the shared nodes hold
          open       \* the operations of the history that are to be ordered

vars == <<tr, l, held, open>>

\* A litmus event is an outcome of a small program that was run many times: its
\* operations have no times, but phases (before, together, after).
IsHistory == More /\ Ev.op \in {"history", "litmus"}
Start(x) == IF T.ev[x].op \in {"history", "litmus"} THEN 1..Len(T.ev[x].h) ELSE {}

Init == /\ InitBase
        /\ held = << >>
        /\ open = IF T.ev = << >> THEN {} ELSE Start(1)

Holds(n) == IF n \in DOMAIN held THEN held[n] ELSE {}
Put(n, S) == held' = [ m \in DOMAIN held \cup {n} |-> IF m = n THEN Holds(n) \cup S ELSE held[m] ]
Elems(s) == { s[i] : i \in DOMAIN s }
Exactly(got, S) == Elems(got) = S /\ Len(got) = Cardinality(S)

Con(o) == [k |-> o.k, t |-> o.t, v |-> (IF o.k = "leaf" THEN o.v ELSE 0), c |-> (IF o.k = "leaf" THEN << >> ELSE o.c)]

Effect(o) ==
  CASE o.op = "add"  -> o.ch = (Con(o) \notin Holds(o.n)) /\ Put(o.n, {Con(o)})
    [] o.op = "all"  -> o.ch = ~(Holds(o.m) \subseteq Holds(o.n)) /\ Put(o.n, Holds(o.m))
    [] o.op = "read" -> Exactly(o.got, Holds(o.n)) = TRUE /\ UNCHANGED held
    [] o.op = "dot"  -> UNCHANGED held
    [] o.op = "leaf" -> Exactly(o.got, {[k |-> "leaf", t |-> o.t, v |-> o.v, c |-> << >>]}) = TRUE /\ UNCHANGED held
    [] o.op = "branch" -> Exactly(o.got, {[k |-> "br", t |-> o.t, v |-> 0, c |-> o.c]}) = TRUE /\ UNCHANGED held

\* Reads that nothing else depends on come first where they can, so that fewer
\* orders are tried.
First(i) ==
  IF Ev.op = "history" THEN \A j \in open : Ev.h[j].e > Ev.h[i].s
  ELSE \A j \in open : /\ Ev.h[j].ph >= Ev.h[i].ph
                       /\ (Ev.h[j].ph = Ev.h[i].ph /\ Ev.h[j].thr = Ev.h[i].thr) => j >= i

Linearize ==
  /\ IsHistory /\ open # {}
  /\ \E i \in open :
       /\ First(i) /\ Ev.h[i].out = "ok"
       /\ Effect(Ev.h[i])
       /\ open' = open \ {i}
  /\ UNCHANGED <<tr, l>>

EndHistory ==
  /\ IsHistory /\ open = {}
  /\ held' = << >>
  /\ open' = IF l < Len(T.ev) THEN Start(l + 1) ELSE {}
  /\ Step

\* Threads that all did the same at the same time.
RaceAlt(a) == IF a % 2 = 0 THEN [k |-> "leaf", t |-> a, v |-> a, c |-> << >>]
              ELSE [k |-> "br", t |-> a, v |-> 0, c |-> <<1, 1>>]
RaceOk(e) ==
  LET all == { RaceAlt(a) : a \in 0..(e.alts - 1) }
  IN /\ e.finished = e.threads
     \* One of them was told that it was new, and there is one of it.
     /\ Len(e.per) = e.alts
     /\ \A i \in DOMAIN e.per : e.per[i].news = 1 /\ e.per[i].ids = 1
     /\ Exactly(e.node, all) /\ Exactly(e.copy, all)
     /\ e.copied \in 1..e.alts
     \* All nodes made are different and hold what they were made with.
     /\ e.distinct = e.made /\ e.fresh = e.made

\* All alternatives of a node copied to an empty one by several threads, while
\* others read it: it has none or all of them, and one copier changed it.
BulkOk(e) == Elems(e.seen) \subseteq {0, e.alts} /\ e.changed = 1

\* Nodes made while they are consumed.
Alts(how) == CASE how = "make" -> 0 [] how = "merge" -> 2 [] OTHER -> 1
LazyOk(e) ==
  LET n == Len(e.arg.how)
  IN /\ e.got.alt = [k |-> "br", t |-> e.arg.t, v |-> 0, c |-> [ i \in 1..n |-> i ]]
     /\ e.got.kids = [ i \in 1..n |-> Alts(e.arg.how[i]) ]

Other ==
  /\ More
  /\ \/ Ev.op = "race" /\ RaceOk(Ev) = TRUE
     \/ Ev.op = "bulk" /\ BulkOk(Ev) = TRUE
     \/ Ev.op = "stress" /\ Ev.panics = 0 /\ Ev.some = TRUE
     \/ Ev.op = "lazy" /\ Ev.out = "ok" /\ LazyOk(Ev) = TRUE
  /\ open' = IF l < Len(T.ev) THEN Start(l + 1) ELSE {}
  /\ UNCHANGED held /\ Step

Operate == Linearize \/ EndHistory \/ Other

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED <<held, open>>
        \/ Accept /\ UNCHANGED <<held, open>>

Spec == Init /\ [][Next]_vars
=============================================================================
