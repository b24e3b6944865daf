---------------------------- MODULE TraceStream -----------------------------
(* Conformance of recorded stream operations with Streams (C16).             *)
EXTENDS TraceBase, Streams

vars == <<tr, l, ss>>

Init == InitBase /\ StreamInit

\* A long stream, token i of which is known by its number; read to its end, and
\* again from some places.
Tok(i) == <<(i % 7) + 1, i>>
LongOk(e) ==
  /\ e.read = e.n /\ e.wrong = 0
  /\ { e.again[i].at : i \in DOMAIN e.again } = { p \in { e.at[i] : i \in DOMAIN e.at } : p <= e.n }
  /\ \A i \in DOMAIN e.again :
       /\ e.again[i].left = e.n - e.again[i].at
       /\ e.again[i].tok = (IF e.again[i].at < e.n THEN Tok(e.again[i].at) ELSE << >>)

Operate ==
  /\ More /\ Ev.out = "ok"
  /\ \/ Ev.op = "new" /\ New(Ev.toks)
     \/ Ev.op = "clone" /\ Clone(Ev.s)
     \/ Ev.op = "drop" /\ Drop(Ev.s)
     \/ Ev.op = "long" /\ LongOk(Ev) = TRUE /\ UNCHANGED ss
     \/ Ev.op = "next" /\ Ev.some = TRUE /\ Read(Ev.s, Ev.tok)
     \/ Ev.op = "next" /\ Ev.some = FALSE /\ AtEnd(Ev.s)
  /\ Step

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED ss
        \/ Accept /\ UNCHANGED ss

Spec == Init /\ [][Next]_vars
=============================================================================
