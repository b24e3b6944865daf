----------------------------- MODULE TraceNames -----------------------------
(* Conformance of recorded names with Names (C23).                           *)
EXTENDS TraceBase, Names

vars == <<tr, l, ns>>

Init == InitBase /\ NamesInit

Op == \/ Ev.op = "new" /\ New(Ev.text)
      \/ Ev.op = "clone" /\ Clone(Ev.i)
      \/ Ev.op = "drop" /\ Drop(Ev.i)
      \/ Ev.op = "push" /\ Push(Ev.i, Ev.text)
      \/ Ev.op = "set" /\ Put(Ev.i, Ev.text)
      \/ Ev.op = "clear" /\ Put(Ev.i, << >>)
      \/ Ev.op = "touch" /\ Touch(Ev.i)

\* A name shows as its text in every way, and compares as its text.
Shown(e) ==
  /\ Len(e.st) = Len(ns')
  /\ \A i \in DOMAIN ns' :
       LET x == ns'[i]
           y == e.st[i]
       IN y.live = x.live /\ y.s = x.text /\ y.d = x.text /\ y.g = x.text /\ y.r = x.text
  /\ \A i, j \in DOMAIN ns' :
       (ns'[i].live /\ ns'[j].live) =>
         LET c == Cmp(ns'[i].text, ns'[j].text)
         IN /\ e.cmp[i][j] = c /\ e.pcmp[i][j] = c
            /\ e.eq[i][j] = (IF c = 0 THEN 1 ELSE 0)
            \* The same hash where equal.
            /\ c = 0 => e.hash[i][j] = 1

Operate == More /\ Ev.out = "ok" /\ Op /\ ("st" \in DOMAIN Ev => Shown(Ev)) = TRUE /\ Step

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED ns
        \/ Accept /\ UNCHANGED ns

Spec == Init /\ [][Next]_vars
=============================================================================
