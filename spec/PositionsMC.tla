---------------------------- MODULE PositionsMC -----------------------------
(* The table of lines that is built when a text is read, and its search by   *)
(* offset, give the positions of module Positions.  Checked for every text   *)
(* of up to N characters; every text is also printed, to have all of its     *)
(* positions computed by the code.                                           *)
EXTENDS Positions, TLC, Json

CONSTANTS N, Alphabet, Rich

\* A character of each kind, if Rich.
Chars == IF Rich THEN {13, 10, 97, 233, 769, 8205, 128104, 127466, 4352, 4449, 1536, 0}
         ELSE Alphabet

VARIABLES t,         \* the text
          at,        \* characters scanned
          open,      \* where the line begins; -1 at a line end
          table      \* lines found: <<from, to>>

pvars == <<t, at, open, table>>

\* A text is built first (at = -1), then scanned.
Init == t = << >> /\ at = -1 /\ open = 0 /\ table = << >>

Write == /\ at = -1 /\ Len(t) < N
         /\ \E c \in Chars : t' = Append(t, c)
         /\ UNCHANGED <<at, open, table>>

Go == /\ at = -1 /\ at' = 0
      /\ PrintT(<<"BEH", ToJson(t)>>)
      /\ UNCHANGED <<t, open, table>>

From(x) == IF open >= 0 THEN open ELSE x

Scan ==
  /\ at \in 0..(Len(t) - 1)
  /\ LET c == t[at + 1] IN
     IF c = CR \/ c = LF
     THEN /\ table' = Append(table, <<From(at), at>>)
          /\ open' = -1
          /\ at' = IF c = CR /\ at + 2 <= Len(t) /\ t[at + 2] = LF THEN at + 2 ELSE at + 1
     ELSE /\ open' = From(at) /\ at' = at + 1 /\ UNCHANGED table
  /\ UNCHANGED t

Last == /\ at = Len(t)
        /\ table' = Append(table, <<From(at), at>>)
        /\ at' = Len(t) + 1
        /\ UNCHANGED <<t, open>>

Next == Write \/ Go \/ Scan \/ Last

Spec == Init /\ [][Next]_pvars

\* The search: the last line that begins at or before i.
Found(i) == MaxOf({ x \in DOMAIN table : table[x][1] <= i })

Searched(i) ==
  LET x == Found(i)
      from == table[x][1]
      to == table[x][2]
  IN <<x - 1, Begin(SubSeq(t, from + 1, to), (IF i < to THEN i ELSE to) - from), ByteLen(SubSeq(t, 1, i))>>

TableOk == at = Len(t) + 1 => \A i \in 0..Len(t) : Searched(i) = PosOf(t, i)

\* Positions never go back, and tell different offsets apart.
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Ordered == at = -1 => \A i \in 0..(Len(t) - 1) :
                        /\ Less(PosOf(t, i), PosOf(t, i + 1))
                        /\ PosOf(t, i)[3] < PosOf(t, i + 1)[3]
=============================================================================
