------------------------------- MODULE Values -------------------------------
(* Symbols, keys, parameter trees and handles as values (C28).               *)
(*                                                                           *)
(* A value is described by a sequence of integers that says of which form it *)
(* is and what its parts are:                                                *)
(*   term, nonterm            <<name>>                                       *)
(*   elem                     <<0, terminal>> or <<1, nonterminal>>          *)
(*   prodelem                 <<name or 0>> \o elem                          *)
(*   streamterm, startnt,                                                    *)
(*   startkey                 <<0, 0>> for the added one, <<1, part>>        *)
(*   prodkey                  <<head, action key>>                           *)
(*   node                     <<action, number of parameters>> followed by   *)
(*                            name and value of each, by name                *)
(*   value                    <<0, leaf>> or <<1>> \o node                   *)
(*   handle, fnode, alt,                                                     *)
(*   content                  <<tree>> followed by what it denotes there     *)
(* Two values are the same if their descriptions are.                        *)
EXTENDS Orders

Opt(c, x) == IF c THEN <<x>> ELSE << >>

\* What the accessors return for each kind of value.
ElemParts(v) == LET t == Opt(v[1] = 0, v[2])
                    n == Opt(v[1] = 1, v[2])
                IN [t |-> t, n |-> n, rt |-> t, rn |-> n]

Parts(kind, v, all) ==
  CASE kind \in {"term", "nonterm"}      -> v
    [] kind = "elem"                     -> ElemParts(v)
    [] kind = "prodelem"                 -> [id |-> Opt(v[1] # 0, v[1]), e |-> ElemParts(Tail(v))]
    [] kind = "streamterm"               -> [eos |-> v[1] = 0,
                                             has |-> [ i \in DOMAIN all |-> v[1] = 1 /\ v[2] = all[i][2] ]]
    [] kind \in {"startnt", "startkey"}  -> Opt(v[1] = 1, v[2])
    [] kind = "prodkey"                  -> v

Readable == {"term", "nonterm", "elem", "prodelem", "streamterm", "startnt", "startkey", "prodkey"}

\* Equal values have equal hashes: h[a][b] is 1 if they have the same.
HashMatrix(h, vs) ==
  /\ Len(h) = Len(vs)
  /\ \A a, b \in DOMAIN vs : vs[a] = vs[b] => h[a][b] = 1

\* All comparisons of the values vs, as matrices.
Compared(m, vs) ==
  LET n == Len(vs)
      Same(a, b) == vs[a] = vs[b]
  IN /\ EqMatrix(m.eq, n, Same)
     /\ OrderMatrix(m.cmp, n, Same)
     /\ m.pcmp = m.cmp
     /\ m.copy = m.cmp
     /\ \A a, b \in 1..n : /\ m.ne[a][b] = 1 - m.eq[a][b]
                           /\ m.lt[a][b] = IF m.cmp[a][b] < 0 THEN 1 ELSE 0
                           /\ m.le[a][b] = IF m.cmp[a][b] <= 0 THEN 1 ELSE 0
=============================================================================
