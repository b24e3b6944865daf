----------------------------- MODULE TraceParse -----------------------------
(* Conformance of recorded parses: C01 (membership), C02 (soundness of the   *)
(* forest) and C03 (its completeness).                                        *)
EXTENDS TraceBase, Forests

VARIABLE P          \* the grammar of the scenario

vars == <<tr, l, P>>

Init == InitBase /\ P = ProdsOf(T.g)

\* A prepared grammar that cannot be built is not a matter of these
\* properties; the generator only makes well-formed grammars, C05 decides.
Prepare == IsOp("prepare") /\ Step /\ UNCHANGED P

Member(e) == Len(e.w) \in Table(P, e.w)[1][T.g.start]

ParseOk(e) ==
  CASE Prop = "C01" -> e.out = (IF Member(e) THEN "some" ELSE "none")
    [] Prop = "C02" -> e.out = "some" => Sound(P, T.g.start, e.w, e.v, e.f)
    [] Prop = "C03" -> \/ e.out = "some" /\ Complete(P, T.g.start, e.w, e.v, e.f)
                       \/ e.out # "some" /\ ~Member(e)

Parse == IsOp("parse") /\ ParseOk(Ev) = TRUE /\ Step /\ UNCHANGED P

Lost == IsOp("lost") /\ Prop # "C01" /\ Step /\ UNCHANGED P

Match == Prepare \/ Parse \/ Lost

Next == \/ Match
        \/ ~ENABLED Match /\ Reject /\ UNCHANGED P
        \/ Accept /\ UNCHANGED P

Spec == Init /\ [][Next]_vars
=============================================================================
