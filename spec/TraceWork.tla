----------------------------- MODULE TraceWork ------------------------------
(* Conformance of the iteration helpers with Closure (C20).                  *)
EXTENDS TraceBase, Closure

vars == <<tr, l>>

Init == InitBase

\* Recorded functions: sequences of [k, v].
Fun(s, conv(_)) == [ k \in { s[i].k : i \in DOMAIN s } |->
                     conv(s[CHOOSE i \in DOMAIN s : s[i].k = k].v) ]
Once(s) == \A i, j \in DOMAIN s : i # j => s[i].k # s[j].k
Id(x) == x

BfsOk(e) ==
  LET R == Reach(e.g, Elems(e.init))
  IN /\ Elems(e.res) = R /\ Len(e.res) = Cardinality(R)
     \* Each expanded once.
     /\ Elems(e.calls) = R /\ Len(e.calls) = Cardinality(R)

SetsOk(e) ==
  LET E == { [f |-> e.edges[i].f, t |-> e.edges[i].t, mask |-> Elems(e.edges[i].mask), add |-> Elems(e.edges[i].add)]
             : i \in DOMAIN e.edges }
  IN Once(e.res) /\ Fun(e.res, Elems) = LeastSets(E, Fun(e.init, Elems))

DistOk(e) == Once(e.res) /\ Fun(e.res, Id) = LeastDist(Elems(e.edges), Fun(e.init, Id))

\* Without a fixed point on the way there is nothing to end with, and nothing
\* is asked for.
PointOk(e) == LET x == Orbit(e.f, e.start, Len(e.f)) IN e.f[x] = x => (e.out = "ok" /\ e.res = x)

Operate ==
  /\ More
  /\ \/ Ev.op = "bfs" /\ Ev.out = "ok" /\ BfsOk(Ev) = TRUE
     \/ Ev.op = "sets" /\ Ev.out = "ok" /\ SetsOk(Ev) = TRUE
     \/ Ev.op = "dist" /\ Ev.out = "ok" /\ DistOk(Ev) = TRUE
     \/ Ev.op = "point" /\ PointOk(Ev) = TRUE
     \/ Ev.op = "loop" /\ Ev.out = "ok" /\ Ev.res = CallsOf(Ev.bs)
  /\ Step

Next == Operate \/ (~ENABLED Operate /\ Reject) \/ Accept

Spec == Init /\ [][Next]_vars
=============================================================================
