------------------------------- MODULE Names --------------------------------
(* Names as values (C23): a name is its text, nothing else.                  *)
EXTENDS Integers, Sequences

VARIABLE ns          \* all names: [live, text]

NamesInit == ns = << >>

Live(i) == i \in DOMAIN ns /\ ns[i].live

New(t)     == ns' = Append(ns, [live |-> TRUE, text |-> t])
Clone(i)   == Live(i) /\ ns' = Append(ns, ns[i])
Drop(i)    == Live(i) /\ ns' = [ns EXCEPT ![i] = [live |-> FALSE, text |-> << >>]]
Push(i, t) == Live(i) /\ ns' = [ns EXCEPT ![i].text = @ \o t]
Put(i, t)  == Live(i) /\ ns' = [ns EXCEPT ![i].text = t]
Touch(i)   == Live(i) /\ UNCHANGED ns

\* Texts compare by the bytes of their encoding, which is by code points.
Cmp(s, t) ==
  LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
  IN IF s = t THEN 0
     ELSE IF \E i \in 1..n : s[i] # t[i]
     THEN LET i == CHOOSE i \in 1..n : s[i] # t[i] /\ \A j \in 1..(i - 1) : s[j] = t[j]
          IN IF s[i] < t[i] THEN -1 ELSE 1
     ELSE IF Len(s) < Len(t) THEN -1 ELSE 1
=============================================================================
