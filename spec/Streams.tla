------------------------------ MODULE Streams -------------------------------
(* Token streams as values (C16).  A stream is what is left to read; reading *)
(* makes a new stream value and leaves the one read as it is.                *)
EXTENDS Integers, Sequences

VARIABLE ss      \* all stream values made so far: [live, rest]

Value(toks) == [live |-> TRUE, rest |-> toks]

StreamInit == ss = << >>

Live(i) == i \in DOMAIN ss /\ ss[i].live

New(toks) == ss' = Append(ss, Value(toks))

Clone(i) == Live(i) /\ ss' = Append(ss, ss[i])

Drop(i) == Live(i) /\ ss' = [ss EXCEPT ![i].live = FALSE]

\* Reading a stream at its end.
AtEnd(i) == Live(i) /\ ss[i].rest = << >> /\ UNCHANGED ss

\* Reading a stream that is not; token t.
Read(i, t) ==
  /\ Live(i) /\ ss[i].rest # << >>
  /\ t = ss[i].rest[1]
  /\ ss' = Append(ss, Value(Tail(ss[i].rest)))

\* Every value stays what it is.
Persistent == [][\A i \in DOMAIN ss : i \in DOMAIN ss' /\ ss'[i].rest = ss[i].rest]_ss
=============================================================================
