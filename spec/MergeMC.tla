------------------------------ MODULE MergeMC -------------------------------
(* All short histories of merging maps, printed for replay.  Checked: what a *)
(* map holds depends on the history as the property says - it is the fold of *)
(* all values stored under the key, in their order.                          *)
EXTENDS MergeMaps, TLC, Json

CONSTANTS N

VARIABLES hist, done, stored       \* stored: per map and key, all values in order

Vals == {<< >>, <<1>>, <<2, 1>>}
Keys == 1..2

Note(op) == hist' = Append(hist, op) /\ done' = FALSE

Init == MmInit(2) /\ hist = << >> /\ done = FALSE
        /\ stored = [ m \in 1..2 |-> [ k \in Keys |-> << >> ] ]

Ways == {"insert", "owned", "borrowed", "ref"}

Do == \/ \E m \in 1..2, k \in Keys, v \in Vals, w \in Ways :
           /\ w # "insert" => m = 1
           /\ \E ch \in BOOLEAN : Store(m, k, v, ch)
           /\ stored' = [stored EXCEPT ![m][k] = Append(@, v)]
           /\ Note([op |-> w, m |-> m, k |-> k, v |-> v])
      \/ \E m \in 1..2, k \in Keys :
           /\ \E ch \in BOOLEAN : StoreEntry(m, 3 - m, k, ch)
           /\ stored' = IF k \in DOMAIN mms[3 - m] THEN [stored EXCEPT ![m][k] = Append(@, mms[3 - m][k])] ELSE stored
           /\ Note([op |-> "entry", m |-> m, k |-> k])

Emit == /\ Len(hist) = N /\ ~done
        /\ PrintT(<<"BEH", ToJson(hist)>>)
        /\ done' = TRUE /\ UNCHANGED <<mms, hist, stored>>

Next == (Len(hist) < N /\ Do) \/ Emit
Spec == Init /\ [][Next]_<<mms, hist, done, stored>>

RECURSIVE Fold(_, _)
Fold(a, vs) == IF vs = << >> THEN a ELSE Fold(Merged(a, vs[1]), Tail(vs))

Folded == \A m \in 1..2, k \in Keys :
            IF stored[m][k] = << >> THEN k \notin DOMAIN mms[m]
            ELSE k \in DOMAIN mms[m] /\ mms[m][k] = Fold(stored[m][k][1], Tail(stored[m][k]))
\* A merge that reports no change changes nothing, and the other way round.
Truthful == \A v, x \in Vals : MergeChanges(v, x) = (Merged(v, x) # v)
=============================================================================
