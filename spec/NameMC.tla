------------------------------- MODULE NameMC -------------------------------
(* How names are built: a name refers to a counted cell; before a change of  *)
(* a shared cell the name gets a copy.  Checked to refine Names; all short   *)
(* histories are printed for replay.                                         *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N, CopyOnWrite

VARIABLES cells,     \* [text, refs]
          refs,      \* names: the number of their cell, 0 when dropped
          hist, done

ivars == <<cells, refs, hist, done>>

ns == [ i \in DOMAIN refs |-> [live |-> refs[i] # 0, text |-> IF refs[i] = 0 THEN << >> ELSE cells[refs[i]].text] ]

A == INSTANCE Names

Texts == {<< >>, <<97>>, <<98, 233>>}

Note(op) == hist' = Append(hist, op) /\ done' = FALSE

Init == cells = << >> /\ refs = << >> /\ hist = << >> /\ done = FALSE

New(t) == /\ cells' = Append(cells, [text |-> t, refs |-> 1])
          /\ refs' = Append(refs, Len(cells) + 1)
          /\ Note([op |-> "new", text |-> t])
Clone(i) == /\ refs[i] # 0
            /\ cells' = [cells EXCEPT ![refs[i]].refs = @ + 1]
            /\ refs' = Append(refs, refs[i])
            /\ Note([op |-> "clone", i |-> i])
Drop(i) == /\ refs[i] # 0
           /\ cells' = [cells EXCEPT ![refs[i]].refs = @ - 1]
           /\ refs' = [refs EXCEPT ![i] = 0]
           /\ Note([op |-> "drop", i |-> i])

\* Making the text of name i f(text).
Mutate(i, new) ==
  /\ refs[i] # 0
  /\ IF cells[refs[i]].refs > 1 /\ CopyOnWrite
     THEN /\ cells' = Append([cells EXCEPT ![refs[i]].refs = @ - 1], [text |-> new, refs |-> 1])
          /\ refs' = [refs EXCEPT ![i] = Len(cells) + 1]
     ELSE /\ cells' = [cells EXCEPT ![refs[i]].text = new]
          /\ UNCHANGED refs

Text(i) == cells[refs[i]].text

Do ==
  \/ \E t \in Texts : New(t)
  \/ \E i \in DOMAIN refs :
       \/ Clone(i) \/ Drop(i)
       \/ \E t \in {<<97>>} : Mutate(i, Text(i) \o t) /\ Note([op |-> "push", i |-> i, text |-> t])
       \/ \E t \in {<<98, 233>>} : Mutate(i, t) /\ Note([op |-> "set", i |-> i, text |-> t])
       \/ Mutate(i, << >>) /\ Note([op |-> "clear", i |-> i])
       \/ Mutate(i, Text(i)) /\ Note([op |-> "touch", i |-> i])

Emit == /\ Len(hist) = N /\ ~done
        /\ PrintT(<<"BEH", ToJson(hist)>>)
        /\ done' = TRUE /\ UNCHANGED <<cells, refs, hist>>

Next == (Len(hist) < N /\ Do) \/ Emit
Spec == Init /\ [][Next]_ivars

Counted == \A c \in DOMAIN cells : cells[c].refs = Len(SelectSeq(refs, LAMBDA r : r = c))
Refines == [][ \/ \E t \in Texts : A!New(t)
               \/ \E i \in DOMAIN refs :
                    \/ A!Clone(i) \/ A!Drop(i) \/ A!Push(i, <<97>>) \/ A!Put(i, <<98, 233>>)
                    \/ A!Put(i, << >>) ]_ns
=============================================================================
