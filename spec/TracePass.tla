----------------------------- MODULE TracePass ------------------------------
(* Conformance of recorded analyses with Passes (C12).                       *)
EXTENDS TraceBase, Passes

VARIABLE ended

vars == <<tr, l, conf, stack, res, failed, ended>>

\* A scenario that ended the process has no configuration, nor any step that
\* matches.
Init == /\ InitBase /\ PassInit /\ ended = FALSE
        /\ conf = IF "conf" \in DOMAIN T THEN T.conf ELSE << >>

Op == \/ Ev.op = "get" /\ Get(Ev.c, Ev.p) /\ UNCHANGED ended
      \/ Ev.op = "run" /\ Run(Ev.c, Ev.p, Ev.start) /\ UNCHANGED ended
      \/ Ev.op = "done" /\ Done(Ev.c, Ev.p, Ev.out, Ev.v) /\ UNCHANGED ended
      \/ Ev.op = "got" /\ Ev.out = "ok" /\ GotOk(Ev.c, Ev.p, Ev.v, Ev.start) /\ UNCHANGED ended
      \/ Ev.op = "got" /\ Ev.out = "err" /\ GotErr(Ev.c, Ev.p, Ev.v) /\ UNCHANGED ended
      \/ Ev.op = "panic" /\ Panic /\ ended' = TRUE

Operate == More /\ ~ended /\ Op /\ Step

\* All queries were answered.
Complete == ended \/ stack = << >>

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED <<conf, stack, res, failed, ended>>
        \/ Complete /\ Accept /\ UNCHANGED <<conf, stack, res, failed, ended>>
        \/ /\ ~Complete /\ l = Len(T.ev) + 1
           /\ PrintT(<<"REJECT", T.id, l, "end">>)
           /\ l' = -1 /\ UNCHANGED <<tr, conf, stack, res, failed, ended>>

Spec == Init /\ [][Next]_vars
=============================================================================
