----------------------------- MODULE TraceMerge -----------------------------
(* Conformance of recorded merging maps with MergeMaps (C25).                *)
EXTENDS TraceBase, MergeMaps

vars == <<tr, l, mms>>

Init == InitBase /\ MmInit(2)

Ways == {"insert", "owned", "cowowned", "borrowed", "ref", "conv"}

\* The argument is as it was, also afterwards.
Op == \/ /\ Ev.op \in Ways
         /\ Store(Ev.m, Ev.k, Ev.v, Ev.ch)
         /\ Ev.arg = [k |-> Ev.k, v |-> Ev.v]
      \/ /\ Ev.op = "entry"
         /\ StoreEntry(Ev.m, 3 - Ev.m, Ev.k, Ev.ch)
         /\ Ev.arg = (IF Ev.k \in DOMAIN mms[3 - Ev.m] THEN [k |-> Ev.k, v |-> mms[3 - Ev.m][Ev.k]]
                      ELSE [k |-> 0, v |-> << >>])

Shown(st) ==
  \A m \in 1..2, k \in 1..T.keys :
    st[m][k] = (IF k \in DOMAIN mms'[m] THEN [has |-> TRUE, k |-> k, v |-> mms'[m][k]]
                ELSE [has |-> FALSE, k |-> 0, v |-> << >>])

Operate == More /\ Ev.out = "ok" /\ Op /\ ("st" \in DOMAIN Ev => Shown(Ev.st)) = TRUE /\ Step

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED mms
        \/ Accept /\ UNCHANGED mms

Spec == Init /\ [][Next]_vars
=============================================================================
