------------------------------- MODULE Forest -------------------------------
(* The store of parse forests (C13): several trees, each with nodes that     *)
(* hold sets of alternatives.  An alternative is its content: a leaf         *)
(* (kind, value) or a branch (action, nodes).                                *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES ntrees,
          nodes,     \* all nodes: [tree, alts], alts a set of contents
          objs       \* all alternatives that were made: [tree, con]

fvars == <<ntrees, nodes, objs>>

LeafOf(t, v)   == [k |-> "leaf", t |-> t, v |-> v, c |-> << >>]
BranchOf(t, c) == [k |-> "br", t |-> t, v |-> 0, c |-> c]

ForestInit(n) == ntrees = n /\ nodes = << >> /\ objs = << >>

AllIn(tree, c) == \A i \in DOMAIN c : nodes[c[i]].tree = tree

NewNode(tree, alts) == nodes' = Append(nodes, [tree |-> tree, alts |-> alts]) /\ UNCHANGED <<ntrees, objs>>
NewAlt(tree, con)   == objs' = Append(objs, [tree |-> tree, con |-> con]) /\ UNCHANGED <<ntrees, nodes>>

MakeNode(tree)         == NewNode(tree, {})
MakeLeafAlt(tree, t, v) == NewAlt(tree, LeafOf(t, v))
MakeBranchAlt(tree, t, c) == AllIn(tree, c) /\ NewAlt(tree, BranchOf(t, c))
MakeLeaf(tree, t, v)   == NewNode(tree, {LeafOf(t, v)})
MakeBranch(tree, t, c) == AllIn(tree, c) /\ NewNode(tree, {BranchOf(t, c)})

\* Contents S go to node n; ch tells whether one was new.
Extend(n, S, ch) ==
  /\ ch = ~(S \subseteq nodes[n].alts)
  /\ nodes' = [nodes EXCEPT ![n].alts = @ \cup S]
  /\ UNCHANGED <<ntrees, objs>>

AddAlt(n, a, ch) == nodes[n].tree = objs[a].tree /\ Extend(n, {objs[a].con}, ch)
\* An alternative read from node m.
AddFrom(n, m, con, ch) == /\ nodes[n].tree = nodes[m].tree /\ con \in nodes[m].alts
                          /\ Extend(n, {con}, ch)
AddAll(n, m, ch) == nodes[n].tree = nodes[m].tree /\ Extend(n, nodes[m].alts, ch)

\* Objects of different trees are not mixed.
RefuseKids(tree, c) == ~AllIn(tree, c) /\ UNCHANGED fvars
RefuseAlt(n, a)     == nodes[n].tree # objs[a].tree /\ UNCHANGED fvars
RefuseNode(n, m)    == nodes[n].tree # nodes[m].tree /\ UNCHANGED fvars

-----------------------------------------------------------------------------
(* What can be seen.                                                         *)

First(P(_), n) == CHOOSE i \in 1..n : P(i) /\ \A j \in 1..(i - 1) : ~P(j)

\* The first alternative made that equals content con of a tree; 0 if none.
ObjOf(tree, con) ==
  IF \E i \in DOMAIN objs : objs[i] = [tree |-> tree, con |-> con]
  THEN First(LAMBDA i : objs[i] = [tree |-> tree, con |-> con], Len(objs)) ELSE 0

\* Alternatives have nodes of their own tree only.
Separate == /\ \A n \in DOMAIN nodes : \A a \in nodes[n].alts : AllIn(nodes[n].tree, a.c)
            /\ \A i \in DOMAIN objs : AllIn(objs[i].tree, objs[i].con.c)
\* Nothing goes away.
Monotone == [][ /\ \A n \in DOMAIN nodes : n \in DOMAIN nodes' /\ nodes[n].alts \subseteq nodes'[n].alts
                /\ \A i \in DOMAIN objs : i \in DOMAIN objs' /\ objs'[i] = objs[i] ]_fvars

-----------------------------------------------------------------------------
(* The picture of a node (C15): what is reachable from it.                   *)

RECURSIVE ReachFrom(_)
ReachFrom(S) == LET N == S \cup UNION { UNION { { a.c[i] : i \in DOMAIN a.c } : a \in nodes[n].alts } : n \in S }
                IN IF N = S THEN S ELSE ReachFrom(N)

PicNodes(n) == ReachFrom({n})
PicAlts(n)  == UNION { nodes[m].alts : m \in PicNodes(n) }
=============================================================================
