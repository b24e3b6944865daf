----------------------------- MODULE TraceBase ------------------------------
(* What all trace specifications share.  The recorded scenarios are read     *)
(* from the file named by the environment variable TRACE, one per line:      *)
(*    {"id": n, "ev": [event...], ...}                                       *)
(* A trace specification has one behaviour family per scenario; variable tr  *)
(* is the scenario, l the next event.  A scenario is accepted when a         *)
(* behaviour of the specification consumes all of its events; then ACCEPT is *)
(* printed.  When no action matches an event, REJECT is printed.             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop   == IOEnv.PROP

VARIABLES tr, l

T  == Traces[tr]
Ev == T.ev[l]

InitBase == tr \in 1..Len(Traces) /\ l = 1

More == l >= 1 /\ l <= Len(T.ev)

IsOp(o) == More /\ Ev.op = o

\* Conditions on an event are written as "Cond(Ev) = TRUE" in actions, so that
\* TLC evaluates them as values and does not split on their disjunctions.

Step == tr' = tr /\ l' = l + 1

\* End of a scenario.
Accept ==
  /\ l = Len(T.ev) + 1
  /\ PrintT(<<"ACCEPT", T.id>>)
  /\ tr' = tr /\ l' = l + 1

Reject ==
  /\ More
  /\ PrintT(<<"REJECT", T.id, l, Ev.op>>)
  /\ tr' = tr /\ l' = -1
=============================================================================
