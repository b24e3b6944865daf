---------------------------- MODULE TraceTypeMap ----------------------------
(* Conformance of recorded heterogeneous maps with TypeMaps (C22).           *)
EXTENDS TraceBase, TypeMaps

vars == <<tr, l, tms>>

Init == InitBase /\ TmInit(T.maps)

Op == \/ Ev.op = "set" /\ Set(Ev.m, Ev.t, Ev.k, Ev.v)
      \/ Ev.op = "upd" /\ Update(Ev.m, Ev.t, Ev.k, Ev.v) /\ (Ev.res = 1) = Has(Ev.m, Ev.t, Ev.k)
      \/ Ev.op = "merge" /\ Merge(Ev.m, Ev.from)

\* What every lookup returns afterwards.
Found(m, t, k) == IF Key(t, k) \in DOMAIN tms'[m] THEN tms'[m][Key(t, k)] ELSE 0
Shown(st) == /\ Len(st) = T.maps
             /\ \A m \in 1..T.maps, t \in 1..9, k \in 1..T.keys : st[m][t][k] = Found(m, t, k)

Operate == More /\ Ev.out = "ok" /\ Op /\ ("st" \in DOMAIN Ev => Shown(Ev.st)) = TRUE /\ Step

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED tms
        \/ Accept /\ UNCHANGED tms

Spec == Init /\ [][Next]_vars
=============================================================================
