------------------------------- MODULE WorkMC -------------------------------
(* The two work list algorithms, for all small graphs, against Closure.      *)
(*  Kind = "bfs": search in waves; Kind = "sets": propagation in waves,      *)
(*  where a value may already be a new one when it is passed on.             *)
EXTENDS Closure, TLC, Json

CONSTANTS Kind,
          MaxKey,
          Mark       \* "all", or a broken variant: "old" does not note keys
                     \* that are new, "late" knows only what was expanded

VARIABLES prob,      \* the problem: [init, g] or [init, edges]
          cur, next, \* this wave and the next one
          res,       \* seen elements, or values so far
          calls      \* how often each key was expanded

wvars == <<prob, cur, next, res, calls>>

Keys == 1..MaxKey
Values == {1, 2}

Sorted(S) == SelectSeq([ i \in Keys |-> i ], LAMBDA x : x \in S)

BfsProblems == [init : SUBSET Keys, g : [ Keys -> { Sorted(S) : S \in SUBSET Keys } ]]

EdgeKinds == [f : Keys, t : Keys, mask : {{}, {1}, {1, 2}}, add : {{}, {2}}]
SetProblems == [init : {<<k, S>> : k \in Keys, S \in SUBSET Values}, edges : {{}} \cup { {e, f} : e \in EdgeKinds, f \in EdgeKinds }]

Init ==
  /\ next = {}
  /\ calls = [ k \in Keys |-> 0 ]
  /\ \/ /\ Kind = "bfs" /\ prob \in BfsProblems
        /\ cur = prob.init /\ res = IF Mark = "late" THEN {} ELSE prob.init
     \/ /\ Kind = "sets" /\ prob \in SetProblems
        /\ cur = {prob.init[1]}
        /\ res = [ k \in {prob.init[1]} |-> prob.init[2] ]

Expand(x) ==
  /\ x \in cur
  /\ cur' = cur \ {x}
  /\ calls' = [calls EXCEPT ![x] = @ + 1]
  /\ LET new == Elems(prob.g[x]) \ res
     IN /\ res' = res \cup (IF Mark = "late" THEN {x} ELSE new)
        /\ next' = next \cup new
  /\ UNCHANGED prob

Put(F, k, v) == [ y \in DOMAIN F \cup {k} |-> IF y = k THEN v ELSE F[y] ]

\* Everything passed on from x, edge by edge with the value at the beginning.
Update(x) ==
  /\ x \in cur
  /\ cur' = cur \ {x}
  /\ calls' = [calls EXCEPT ![x] = IF @ < 9 THEN @ + 1 ELSE @]
  /\ LET out == { e \in prob.edges : e.f = x }
         tos == { e.t : e \in out }
         got(k) == UNION { Passed(res, e) : e \in { e \in out : e.t = k } }
         changed == { k \in tos : k \notin DOMAIN res \/ ~(got(k) \subseteq res[k]) }
     IN /\ res' = [ k \in DOMAIN res \cup tos |->
                      (IF k \in DOMAIN res THEN res[k] ELSE {}) \cup (IF k \in tos THEN got(k) ELSE {}) ]
        /\ next' = next \cup (IF Mark = "old" THEN changed \cap DOMAIN res ELSE changed)
  /\ UNCHANGED prob

Wave == /\ cur = {} /\ next # {}
        /\ cur' = next /\ next' = {}
        /\ UNCHANGED <<prob, res, calls>>

Next == \/ \E x \in Keys : (Kind = "bfs" /\ Expand(x)) \/ (Kind = "sets" /\ Update(x))
        \/ Wave

Spec == Init /\ [][Next]_wvars /\ WF_wvars(Next)

Done == cur = {} /\ next = {}

Ends == <>Done

BfsOk == (Kind = "bfs" /\ Done) => /\ res = Reach(prob.g, prob.init)
                                   /\ \A x \in Keys : calls[x] = (IF x \in res THEN 1 ELSE 0)
\* The result solves the problem and is part of every solution.
SetsOk == (Kind = "sets" /\ Done) =>
            LET I == [ k \in {prob.init[1]} |-> prob.init[2] ]
            IN SolvesSets(I, prob.edges, res) /\ res = LeastSets(prob.edges, I)
SetsGrow == Kind = "sets" =>
            LET L == LeastSets(prob.edges, [ k \in {prob.init[1]} |-> prob.init[2] ])
            IN \A k \in DOMAIN res : k \in DOMAIN L /\ res[k] \subseteq L[k]
=============================================================================
