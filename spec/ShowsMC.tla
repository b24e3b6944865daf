------------------------------- MODULE ShowsMC ------------------------------
(* All things of a small universe: their texts tell them apart, so nothing   *)
(* that is in them may be missing from their texts.  Printed for replay.     *)
EXTENDS Shows, FiniteSets, Json

VARIABLES x, done

T(k, v, n, f, c) == [k |-> k, v |-> v, n |-> n, f |-> f, c |-> c]
Small == {T("int", 1, "", << >>, << >>), T("int", -20, "", << >>, << >>), T("str", 0, "a b", << >>, << >>)}
Over(A) == LET S == {<< >>} \cup { <<a>> : a \in A } \cup { <<a, b>> : a, b \in A }
               F(c) == [ i \in DOMAIN c |-> IF i = 1 THEN "f" ELSE "gg" ]
           IN UNION { { T(k, 0, "", << >>, c) : k \in {"list", "set"} } \cup { T("tuple", 0, "Pt", << >>, c) }
                      \cup (IF c = << >> THEN {} ELSE { T("tuple", 0, "", << >>, c) })
                      \cup { T("struct", 0, "St", F(c), c) } : c \in S }
Two == Over(Small)
Nested == { y \in Two : Len(y.c) <= 1 }
Things == Small \cup Two \cup Over(Nested \cup {T("int", 1, "", << >>, << >>)})

Init == x \in Things /\ done = FALSE
Next == ~done /\ PrintT(<<"BEH", ToJson(x)>>) /\ done' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, done>>

Texts == { Plain(y) : y \in Things }
Spread == { Pretty(y) : y \in Things }
ASSUME /\ Cardinality(Texts) = Cardinality(Things)
       /\ Cardinality(Spread) = Cardinality(Things)
=============================================================================
