----------------------------- MODULE Positions ------------------------------
(* Positions in texts (C18).  A text is a sequence of characters; position i *)
(* is the one behind the first i of them.                                    *)
EXTENDS Graphemes, FiniteSets

CR == 13
LF == 10

\* The line ends: <<i, j>> is the end from position i to position j.
LineEnds(t) ==
  { <<i - 1, i + 1>> : i \in { i \in 1..(Len(t) - 1) : t[i] = CR /\ t[i + 1] = LF } }
  \cup { <<i - 1, i>> : i \in { i \in 1..Len(t) :
           \/ t[i] = CR /\ (i = Len(t) \/ t[i + 1] # LF)
           \/ t[i] = LF /\ (i = 1 \/ t[i - 1] # CR) } }

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

\* Number of line ends that lie before i entirely.
LineOf(t, i) == Cardinality({ e \in LineEnds(t) : e[2] <= i })

\* The line that i is on: from where to where.
LineFrom(t, i) == MaxOf({0} \cup { e[2] : e \in { e \in LineEnds(t) : e[2] <= i } })
LineTo(t, i)   == MinOf({Len(t)} \cup { e[1] : e \in { e \in LineEnds(t) : e[2] > i } })

ColumnOf(t, i) ==
  LET from == LineFrom(t, i)
      to   == LineTo(t, i)
      line == SubSeq(t, from + 1, to)
  IN Begin(line, (IF i < to THEN i ELSE to) - from)

PosOf(t, i) == <<LineOf(t, i), ColumnOf(t, i), ByteLen(SubSeq(t, 1, i))>>

\* Position k of the text that is u, again and again.  u begins with a letter,
\* and hence with a cluster, and no line end spans two copies.
FarPos(u, k) ==
  LET q == k \div Len(u)
      r == k % Len(u)
      lines == LineOf(u, Len(u))
      whole == Begin(u, Len(u))
      here  == PosOf(u, r)
      col == IF lines = 0 THEN (q * whole) + here[2]
             ELSE IF here[1] = 0 /\ q > 0 THEN ColumnOf(u, Len(u)) + here[2]
             ELSE here[2]
  IN <<(q * lines) + here[1], col, (q * ByteLen(u)) + here[3]>>
=============================================================================
