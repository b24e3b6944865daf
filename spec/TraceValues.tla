----------------------------- MODULE TraceValues ----------------------------
(* Conformance of recorded comparisons and accessors with Values (C28).      *)
EXTENDS TraceBase, Values

ValuesOk(e) ==
  /\ e.out = "ok"
  /\ Len(e.eq) = Len(e.vals)
  /\ Compared(e, e.vals)
  /\ e.kind \in {"term", "nonterm"} => HashMatrix(e.hash, e.vals)
  /\ e.kind \in Readable =>
       \A i \in DOMAIN e.vals : e.acc[i] = Parts(e.kind, e.vals[i], e.vals)

Match == IsOp("values") /\ ValuesOk(Ev) = TRUE /\ Step

Next == \/ Match
        \/ ~ENABLED Match /\ Reject
        \/ Accept

Spec == InitBase /\ [][Next]_<<tr, l>>
=============================================================================
