----------------------------- MODULE TraceShows -----------------------------
(* Conformance of recorded debug texts with Shows (C29).                     *)
EXTENDS TraceBase, Shows

ShowOk(e) ==
  /\ e.out = "ok"
  /\ e.plain = <<Plain(T.item)>> /\ e.plain2 = e.plain
  /\ e.pretty = Pretty(T.item) /\ e.pretty2 = e.pretty

Match == IsOp("show") /\ ShowOk(Ev) = TRUE /\ Step

Next == \/ Match
        \/ ~ENABLED Match /\ Reject
        \/ Accept

Spec == InitBase /\ [][Next]_<<tr, l>>
=============================================================================
