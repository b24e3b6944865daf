----------------------------- MODULE TraceLong ------------------------------
(* C01, C02 and C03 on inputs of thousands of tokens, for linear grammars    *)
(* (see Linear).  T.side says which way the grammar leans.                   *)
EXTENDS TraceBase, Linear

VARIABLES P,    \* the grammar, leaning to the left
          G     \* its shapes

vars == <<tr, l, P, G>>

Left == T.side = "left"

Init == /\ InitBase
        /\ P = IF Left THEN ProdsOf(T.g) ELSE MirrorP(ProdsOf(T.g))
        /\ G = Shapes(P)

Word(e) == IF Left THEN e.w ELSE Reverse(e.w)
Vals(e) == IF Left THEN e.v ELSE Reverse(e.v)
For(e)  == IF Left THEN e.f ELSE MirrorF(e.f)

\* Short inputs are judged by the general definitions too.
Same(a, b) == IF a = b THEN b ELSE IF PrintT(<<"DIFFER", T.id>>) THEN b ELSE b
Short(e) == Len(e.w) <= 12

Member(e) == LET w == Word(e)
                 m == LinMember(G, T.g.start, w)
             IN IF Short(e) THEN Same(m, Len(w) \in Table(P, w)[1][T.g.start]) ELSE m

SoundOk(e) == LET w == Word(e)
                  v == Vals(e)
                  f == For(e)
                  s == LinSound(G, T.g.start, w, v, f)
              IN IF Short(e) THEN Same(s, Sound(P, T.g.start, w, v, f)) ELSE s

CompleteOk(e) == LET w == Word(e)
                     v == Vals(e)
                     f == For(e)
                     s == LinComplete(G, T.g.start, w, v, f)
                 IN IF Short(e) THEN Same(s, Complete(P, T.g.start, w, v, f)) ELSE s

ParseOk(e) ==
  CASE Prop = "C01" -> e.out = (IF Member(e) THEN "some" ELSE "none")
    [] Prop = "C02" -> e.out = "some" => SoundOk(e)
    [] Prop = "C03" -> IF e.out = "some" THEN Member(e) => CompleteOk(e) ELSE ~Member(e)

Assumed == Linear(P, G) \/ Assert(FALSE, "not a linear grammar")

Parse == IsOp("parse") /\ (Assumed /\ ParseOk(Ev)) = TRUE /\ Step /\ UNCHANGED <<P, G>>

Prepare == IsOp("prepare") /\ Step /\ UNCHANGED <<P, G>>

Lost == IsOp("lost") /\ Prop # "C01" /\ Step /\ UNCHANGED <<P, G>>

Match == Parse \/ Prepare \/ Lost

Next == \/ Match
        \/ ~ENABLED Match /\ Reject /\ UNCHANGED <<P, G>>
        \/ Accept /\ UNCHANGED <<P, G>>

Spec == Init /\ [][Next]_vars
=============================================================================
