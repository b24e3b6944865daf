------------------------------ MODULE ValuesMC ------------------------------
(* The values of a small universe: their parts determine them, and comparing *)
(* the descriptions part by part is one order that is as required, so that   *)
(* the requirement can be met.  All of them are printed for replay.          *)
EXTENDS Values, FiniteSets, SequencesExt, TLC, Json

CONSTANTS N, Leaves

VARIABLES kind, done

Ps == 1..N
Elems == {0, 1} \X Ps
Marked == {<<0, 0>>} \cup ({1} \X Ps)

RECURSIVE Nodes(_), Vals(_)
Vals(d) == { <<0, v>> : v \in 1..Leaves } \cup (IF d = 0 THEN {} ELSE { <<1>> \o x : x \in Nodes(d - 1) })
Nodes(d) == LET V == Vals(d)
                Bodies == {<<0>>}
                          \cup { <<1, 1>> \o x : x \in V } \cup { <<1, 2>> \o x : x \in V }
                          \cup { <<2, 1>> \o x \o <<2>> \o y : x, y \in V }
            IN { <<a>> \o b : a \in 1..2, b \in Bodies }

Univ(k) ==
  CASE k \in {"term", "nonterm"}                    -> { <<p>> : p \in Ps }
    [] k = "elem"                                   -> Elems
    [] k = "prodelem"                               -> { <<n>> \o e : n \in 0..3, e \in Elems }
    [] k \in {"streamterm", "startnt", "startkey"}  -> Marked
    [] k = "prodkey"                                -> Ps \X Ps
    [] k = "node"                                   -> Nodes(0)
    [] k = "value"                                  -> Vals(1)

Kinds == Readable \cup {"node", "value"}

RECURSIVE Lex(_, _)
Lex(a, b) == IF a = << >> \/ b = << >>
             THEN (IF a = b THEN 0 ELSE IF a = << >> THEN -1 ELSE 1)
             ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
             ELSE Lex(Tail(a), Tail(b))

Init == kind \in Kinds /\ done = FALSE
Emit == /\ ~done
        /\ PrintT(<<"BEH", ToJson([kind |-> kind, vals |-> SetToSeq(Univ(kind))])>>)
        /\ done' = TRUE /\ UNCHANGED kind
Next == Emit
Spec == Init /\ [][Next]_<<kind, done>>

Determined ==
  kind \in Readable =>
    LET all == SetToSeq(Univ(kind))
    IN \A a, b \in Univ(kind) : Parts(kind, a, all) = Parts(kind, b, all) => a = b

Orderable ==
  LET vs == SetToSeq(Univ(kind))
      n == Len(vs)
      c == [ a \in 1..n |-> [ b \in 1..n |-> Lex(vs[a], vs[b]) ] ]
      M(T(_)) == [ a \in 1..n |-> [ b \in 1..n |-> IF T(c[a][b]) THEN 1 ELSE 0 ] ]
  IN Compared([eq |-> M(LAMBDA x : x = 0), ne |-> M(LAMBDA x : x # 0), cmp |-> c, pcmp |-> c, copy |-> c,
               lt |-> M(LAMBDA x : x < 0), le |-> M(LAMBDA x : x <= 0)], vs)
=============================================================================
