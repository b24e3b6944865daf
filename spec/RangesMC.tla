------------------------------ MODULE RangesMC ------------------------------
(* All short histories of range operations, as a check of Ranges and to be   *)
(* replayed in the code.                                                     *)
EXTENDS Ranges, TLC, Json

CONSTANTS N, MaxRanges

VARIABLES hist, done

Texts == {<<>>, <<97, 233, 10>>, <<128104, 98>>}

Note(op) == hist' = Append(hist, op) /\ done' = FALSE

Init == RangesInit /\ hist = << >> /\ done = FALSE

Room == Len(rs) < MaxRanges

Do ==
  \/ \E t \in Texts : Room /\ Create(t) /\ Note([op |-> "new", text |-> t])
  \/ \E i \in DOMAIN rs :
       \/ Room /\ Clone(i) /\ Note([op |-> "clone", r |-> i])
       \/ Room /\ (Advance(i, 1) \/ TooFar(i, 1)) /\ Note([op |-> "read", r |-> i])
       \/ (AdvanceM(i, 1) \/ TooFar(i, 1)) /\ Note([op |-> "readm", r |-> i])
       \/ \E n \in {0, 2, 3} :
            \/ Room /\ (Advance(i, n) \/ TooFar(i, n)) /\ Note([op |-> "adv", r |-> i, n |-> n])
            \/ (AdvanceM(i, n) \/ TooFar(i, n)) /\ Note([op |-> "advm", r |-> i, n |-> n])
       \/ \E q \in DOMAIN rs :
            Room /\ (Cut(i, q) \/ Refuse(i, q)) /\ Note([op |-> "cut", r |-> i, q |-> q])

Emit == /\ Len(hist) = N /\ ~done
        /\ PrintT(<<"BEH", ToJson(hist)>>)
        /\ done' = TRUE /\ UNCHANGED <<texts, rs, hist>>

Next == (Len(hist) < N /\ Do) \/ Emit

Spec == Init /\ [][Next]_<<texts, rs, hist, done>>

\* Texts never change.
TextsKept == [][\A x \in DOMAIN texts : texts'[x] = texts[x]]_rvars
=============================================================================
