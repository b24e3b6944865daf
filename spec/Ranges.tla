------------------------------- MODULE Ranges -------------------------------
(* Ranges of texts (C17).  A range is a text and two positions in it.        *)
EXTENDS Integers, Sequences

VARIABLES texts,     \* all texts
          rs         \* all ranges: [x, a, b], text x from a to b

rvars == <<texts, rs>>

RangesInit == texts = << >> /\ rs = << >>

TextOf(r) == SubSeq(texts[r.x], r.a + 1, r.b)
Size(r) == r.b - r.a

Add(r) == rs' = Append(rs, r) /\ UNCHANGED texts
Move(i, r) == rs' = [rs EXCEPT ![i] = r] /\ UNCHANGED texts
Fails == UNCHANGED rvars

Create(t) == /\ texts' = Append(texts, t)
             /\ rs' = Append(rs, [x |-> Len(texts) + 1, a |-> 0, b |-> Len(t)])

Clone(i) == i \in DOMAIN rs /\ Add(rs[i])

CanAdvance(i, n) == i \in DOMAIN rs /\ n <= Size(rs[i])
Passed(i, n)     == SubSeq(texts[rs[i].x], rs[i].a + 1, rs[i].a + n)
Further(i, n)    == [rs[i] EXCEPT !.a = @ + n]

\* What advancing by n yields, as a new range or in place.
Advance(i, n)  == CanAdvance(i, n) /\ Add(Further(i, n))
AdvanceM(i, n) == CanAdvance(i, n) /\ Move(i, Further(i, n))
TooFar(i, n)   == i \in DOMAIN rs /\ ~CanAdvance(i, n) /\ Fails

\* A suffix: of the same text, ending where the range ends.
IsSuffix(q, i) == rs[q].x = rs[i].x /\ rs[q].b = rs[i].b /\ rs[i].a <= rs[q].a

Cut(i, q)    == i \in DOMAIN rs /\ q \in DOMAIN rs /\ IsSuffix(q, i) /\ Add([rs[i] EXCEPT !.b = rs[q].a])
Refuse(i, q) == i \in DOMAIN rs /\ q \in DOMAIN rs /\ ~IsSuffix(q, i) /\ Fails

\* What is cut off and what remains make up the range.
CutExact == \A i, q \in DOMAIN rs :
              IsSuffix(q, i) => TextOf([rs[i] EXCEPT !.b = rs[q].a]) \o TextOf(rs[q]) = TextOf(rs[i])
Inside == \A i \in DOMAIN rs : 0 <= rs[i].a /\ rs[i].a <= rs[i].b /\ rs[i].b <= Len(texts[rs[i].x])
=============================================================================
