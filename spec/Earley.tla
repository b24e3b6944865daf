------------------------------- MODULE Earley -------------------------------
(* The Earley parser as a state machine: a chart of items for each input    *)
(* position, extended by one inference at a time in any order, and a forest *)
(* whose nodes are extended in place when a known item is found again.       *)
(*                                                                           *)
(* An item is <<head, production, dot, origin, splits>> where head 0 is the *)
(* start rule (0 -> start eos) and splits are the positions at which the    *)
(* nonterminals passed over begin.  If SplitKey is FALSE, splits are left   *)
(* out of the identity of items: the design the code had first, in which    *)
(* nodes for different divisions of the input get mixed.                     *)
(*                                                                           *)
(* The nodes of an item are one for each symbol passed over.  A node is     *)
(* named after the chart entry for which it was first made.                 *)
EXTENDS Forests, TLC

CONSTANTS SplitKey     \* are items with different splits kept apart?

VARIABLES d,           \* the grammar description
          w,           \* the input
          pos,         \* position of the current item set
          val,         \* <<position, item>> -> sequence of nodes: the chart
          alts,        \* node -> set of alternatives: the forest
          st           \* "close", "none" (rejected) or "end"

evars == <<d, w, pos, val, alts, st>>

PP == ProdsOf(d)

\* Right-hand side of an item; the end of stream never matches a token.
EOS == 1000000
ERhs(it) == IF it[1] = 0 THEN <<-d.start, EOS>> ELSE PP[it[1]][it[2]].e

NextSym(it) == IF it[3] < Len(ERhs(it)) THEN ERhs(it)[it[3] + 1] ELSE 0
Complete1(it) == it[3] = Len(ERhs(it))

At(p) == { x[2] : x \in { y \in DOMAIN val : y[1] = p } }

\* The item after passing over one symbol, whose part begins at s.
Adv(it, s) == <<it[1], it[2], it[3] + 1, it[4],
                IF SplitKey /\ NextSym(it) < 0 THEN Append(it[5], s) ELSE it[5]>>

Ext(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]

\* Insert item it at position p with nodes vs, the last of which is a new one
\* that has just the alternative a.  Returns <<val, alts>>.
Insert(v, al, p, it, vs, a) ==
  LET k == <<p, it>>
  IN IF k \in DOMAIN v
     THEN \* merge node by node
          LET old == v[k]
              n == Len(old)
              more(x) == UNION { IF i = n THEN {a} ELSE al[vs[i]]
                               : i \in { j \in DOMAIN old : old[j] = x } }
          IN <<v, [ x \in DOMAIN al |-> al[x] \cup more(x) ]>>
     ELSE <<Ext(v, k, Append(vs, k)), Ext(al, k, {a})>>

InitFor(desc, word) ==
  /\ d = desc
  /\ w = word
  /\ pos = 0
  /\ val = (<<0, <<0, 1, 0, 0, << >>>>>> :> << >>)
  /\ alts = << >>
  /\ st = "close"

\* All that can be inferred at the current position, as the resulting
\* <<val, alts>>, from the chart (v, al).
PredictOf(v, it) ==
  LET A == -NextSym(it)
      new == { <<pos, <<A, m, 0, pos, << >>>>>> : m \in DOMAIN Prods(PP, A) }
  IN [ x \in DOMAIN v \cup new |-> IF x \in DOMAIN v THEN v[x] ELSE << >> ]

Waiting(it) == { o \in At(it[4]) : NextSym(o) = -it[1] }

BranchAlt(it) == [k |-> "br", t |-> PP[it[1]][it[2]].k, v |-> 0, c |-> val[<<pos, it>>]]

Predict(it) ==
  /\ NextSym(it) < 0
  /\ val' = PredictOf(val, it)
  /\ val' # val
  /\ UNCHANGED alts

\* Pass the completed item it over in the waiting item o.
CompleteWith(it, o) ==
  LET r == Insert(val, alts, pos, Adv(o, it[4]), val[<<it[4], o>>], BranchAlt(it))
  IN /\ r # <<val, alts>>
     /\ val' = r[1] /\ alts' = r[2]

Infer ==
  \E it \in At(pos) :
     \/ Predict(it)
     \/ Complete1(it) /\ \E o \in Waiting(it) : CompleteWith(it, o)

Close == st = "close" /\ Infer /\ UNCHANGED <<d, w, pos, st>>

Saturated == st = "close" /\ ~ENABLED Infer

\* One deterministic order, for big universes: everything that can be
\* predicted at once, then single completions.
CloseSome ==
  /\ st = "close"
  /\ LET new == UNION { DOMAIN PredictOf(val, it) : it \in { x \in At(pos) : NextSym(x) < 0 } }
     IN IF ~(new \subseteq DOMAIN val)
        THEN /\ val' = [ x \in DOMAIN val \cup new |-> IF x \in DOMAIN val THEN val[x] ELSE << >> ]
             /\ UNCHANGED alts
        ELSE LET cand == { <<it, o>> \in { x \in At(pos) : Complete1(x) } \X
                                         UNION { Waiting(x) : x \in { y \in At(pos) : Complete1(y) } } :
                             /\ o \in Waiting(it)
                             /\ Insert(val, alts, pos, Adv(o, it[4]), val[<<it[4], o>>], BranchAlt(it)) # <<val, alts>> }
             IN /\ cand # {}
                /\ LET c == CHOOSE x \in cand : TRUE
                       r == Insert(val, alts, pos, Adv(c[2], c[1][4]), val[<<c[1][4], c[2]>>], BranchAlt(c[1]))
                   IN val' = r[1] /\ alts' = r[2]
  /\ UNCHANGED <<d, w, pos, st>>

\* Pass the next token.
Shift ==
  /\ Saturated
  /\ pos < Len(w)
  /\ LET ready == { it \in At(pos) : NextSym(it) = w[pos + 1] }
         leaf == [k |-> "leaf", t |-> w[pos + 1], v |-> pos + 1, c |-> << >>]
         new == [ x \in { <<pos + 1, Adv(it, pos)>> : it \in ready } |->
                    LET it == CHOOSE o \in ready : x = <<pos + 1, Adv(o, pos)>>
                    IN Append(val[<<pos, it>>], x) ]
     IN IF ready = {}
        THEN st' = "none" /\ UNCHANGED <<pos, val, alts>>
        ELSE /\ pos' = pos + 1
             /\ val' = new @@ val
             /\ alts' = [ x \in DOMAIN new |-> {leaf} ] @@ alts
             /\ UNCHANGED st
  /\ UNCHANGED <<d, w>>

Finish ==
  /\ Saturated
  /\ pos = Len(w)
  /\ st' = IF \E it \in At(pos) : NextSym(it) = EOS THEN "end" ELSE "none"
  /\ UNCHANGED <<d, w, pos, val, alts>>

AnyOrder == Close \/ Shift \/ Finish
OneOrder == CloseSome \/ Shift \/ Finish

----------------------------------------------------------------------------
(* Properties.                                                               *)

FinalItem == CHOOSE it \in At(pos) : NextSym(it) = EOS
Root == val[<<pos, FinalItem>>][1]
Values == [ i \in DOMAIN w |-> i ]

InLanguage == Len(w) \in Table(PP, w)[1][d.start]

\* C01
AcceptsLanguage ==
  /\ st = "end" => InLanguage
  /\ st = "none" => ~InLanguage

\* C02
OnlyDerivations == st = "end" => SoundF(PP, d.start, w, Values, alts, Root)

\* C03
AllDerivations == st = "end" => CompleteF(PP, d.start, w, Values, alts, Root)

\* Items of the chart mean what they should: an item at position p with
\* origin o has derived w[o+1..p] with the symbols before its dot.
ItemsValid ==
  LET E == Table(PP, w)
  IN \A x \in DOMAIN val :
       LET it == x[2] IN
       it[1] # 0 => SplitsFrom(E, w, SubSeq(ERhs(it), 1, it[3]), 1, it[4], x[1]) # {}

\* Parsing comes to an end: the chart only grows, and within finitely many
\* items (C01).
Ends == <>(st # "close")
=============================================================================
