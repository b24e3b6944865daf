------------------------------ MODULE ClosureMC -----------------------------
(* The recursive definitions of Closure are what they should be: among all   *)
(* closed sets or solutions the least.  Problems are printed for replay.     *)
EXTENDS Closure, TLC, Json

CONSTANTS MaxKey, MaxEdges

Keys == 1..MaxKey
Values == {1, 2}

Sorted(S) == SelectSeq([ i \in Keys |-> i ], LAMBDA x : x \in S)
EdgeKinds == [f : Keys, t : Keys, mask : {{}, {1, 2}, {1}}, add : {{}, {2}}]

VARIABLES kind, p

Init == \/ /\ kind = "bfs"
           /\ p \in [init : SUBSET Keys, g : [ Keys -> { Sorted(S) : S \in SUBSET Keys } ]]
        \/ /\ kind = "sets"
           /\ p \in [init : {<<k, S>> : k \in Keys, S \in SUBSET Values},
                     edges : {{}} \cup (IF MaxEdges = 1 THEN { {e} : e \in EdgeKinds }
                                    ELSE { {e, f} : e \in EdgeKinds, f \in EdgeKinds })]
        \/ /\ kind = "point"
           /\ p \in [start : Keys, f : [Keys -> Keys]]

ToList(S) == SelectSeq([ i \in 1..9 |-> i ], LAMBDA x : x \in S)

Emit ==
  PrintT(<<"BEH", ToJson(
    CASE kind = "bfs" -> [op |-> "bfs", init |-> ToList(p.init), g |-> p.g]
      [] kind = "point" -> [op |-> "point", start |-> p.start, f |-> p.f]
      [] kind = "sets" -> [op |-> "sets", init |-> <<[k |-> p.init[1], v |-> ToList(p.init[2])]>>,
                           edges |-> { [f |-> e.f, t |-> e.t, mask |-> ToList(e.mask), add |-> ToList(e.add)] : e \in p.edges }])>>)

Next == kind # "" /\ kind' = "" /\ Emit /\ UNCHANGED p
Spec == Init /\ [][Next]_<<kind, p>>

Functions == UNION { [D -> SUBSET Values] : D \in SUBSET Keys }
Below(F, G) == DOMAIN F \subseteq DOMAIN G /\ \A k \in DOMAIN F : F[k] \subseteq G[k]

LeastOk ==
  CASE kind = "bfs" ->
         LET R == Reach(p.g, p.init)
         IN /\ p.init \subseteq R /\ Closed(p.g, R)
            /\ \A S \in SUBSET Keys : (p.init \subseteq S /\ Closed(p.g, S)) => R \subseteq S
    [] kind = "sets" ->
         LET I == [ k \in {p.init[1]} |-> p.init[2] ]
             L == LeastSets(p.edges, I)
         IN /\ SolvesSets(I, p.edges, L)
            /\ \A F \in Functions : SolvesSets(I, p.edges, F) => Below(L, F)
    [] OTHER -> TRUE
=============================================================================
