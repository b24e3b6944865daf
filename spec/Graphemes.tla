----------------------------- MODULE Graphemes ------------------------------
(* Unicode: encoded lengths, and the rules for extended grapheme clusters    *)
(* (UAX #29, without the rule for Indic conjuncts) for the characters that   *)
(* the scenarios use.                                                        *)
EXTENDS Integers, Sequences

Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

RECURSIVE ByteLen(_)
ByteLen(s) == IF s = << >> THEN 0 ELSE Bytes(s[1]) + ByteLen(Tail(s))

Class(c) ==
  CASE c = 13 -> "CR"
    [] c = 10 -> "LF"
    [] c < 32 \/ c \in 127..159 \/ c \in {173, 8203, 8206, 8207, 8232, 8233, 65279} -> "Control"
    [] c \in 768..879 \/ c \in 8400..8432 \/ c \in 65024..65039 \/ c = 8204
       \/ c \in 127995..127999 -> "Extend"
    [] c = 8205 -> "ZWJ"
    [] c \in 127462..127487 -> "RI"
    [] c \in 1536..1541 -> "Prepend"
    [] c \in {2307, 2366, 3635} -> "SpacingMark"
    [] c \in 4352..4447 -> "L"
    [] c \in 4448..4519 -> "V"
    [] c \in 4520..4607 -> "T"
    [] c \in 44032..55203 -> IF (c - 44032) % 28 = 0 THEN "LV" ELSE "LVT"
    [] c \in 128512..128591 \/ c \in {169, 174, 10084, 128104, 128105, 128103, 9786} -> "Pict"
    [] OTHER -> "Other"

\* s[i] ends a sequence Pict Extend* ZWJ.
RECURSIVE PictBefore(_, _)
PictBefore(s, i) == i >= 1 /\ (Class(s[i]) = "Pict" \/ (Class(s[i]) = "Extend" /\ PictBefore(s, i - 1)))
Joiner(s, i) == Class(s[i]) = "ZWJ" /\ PictBefore(s, i - 1)

\* The number of regional indicators that end at i.
RECURSIVE RIs(_, _)
RIs(s, i) == IF i >= 1 /\ Class(s[i]) = "RI" THEN 1 + RIs(s, i - 1) ELSE 0

\* Is there a boundary between s[i] and s[i+1]?
Boundary(s, i) ==
  LET a == Class(s[i])
      b == Class(s[i + 1])
  IN CASE a = "CR" /\ b = "LF" -> FALSE
       [] a \in {"Control", "CR", "LF"} -> TRUE
       [] b \in {"Control", "CR", "LF"} -> TRUE
       [] a = "L" /\ b \in {"L", "V", "LV", "LVT"} -> FALSE
       [] a \in {"LV", "V"} /\ b \in {"V", "T"} -> FALSE
       [] a \in {"LVT", "T"} /\ b = "T" -> FALSE
       [] b \in {"Extend", "ZWJ", "SpacingMark"} -> FALSE
       [] a = "Prepend" -> FALSE
       [] b = "Pict" /\ Joiner(s, i) -> FALSE
       [] a = "RI" /\ b = "RI" /\ RIs(s, i) % 2 = 1 -> FALSE
       [] OTHER -> TRUE

\* The number of clusters of s that begin among its first k characters.
RECURSIVE Begin(_, _)
Begin(s, k) == IF k = 0 THEN 0
               ELSE Begin(s, k - 1) + (IF k = 1 \/ Boundary(s, k - 1) THEN 1 ELSE 0)
=============================================================================
