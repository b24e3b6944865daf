---------------------------- MODULE TraceForest -----------------------------
(* Conformance of recorded histories of the forest store (C13, C15).         *)
EXTENDS TraceBase, Pictures

vars == <<tr, l, ntrees, nodes, objs>>

Init == InitBase /\ ForestInit(T.trees)

None == [k |-> "none", t |-> 0, v |-> 0, c |-> << >>]

Ok == Ev.out = "ok"
No == Ev.out = "panic"

\* A large tree: node i holds the leaf (i % 5, i) and the branch i % 3 with the
\* nodes i and i + 1 (after the last, the first); one more node holds all the
\* branches, and another one is given what that one has.
FarLeaf(i) == [k |-> "leaf", t |-> i % 5, v |-> i, c |-> << >>]
FarBranch(i, n) == [k |-> "br", t |-> i % 3, v |-> 0, c |-> <<i, (i % n) + 1>>]
FarOk(e) ==
  /\ e.nodes = e.n /\ e.alts = e.n /\ e.news = e.n /\ e.joined = e.n
  /\ e.first = TRUE /\ e.second = FALSE /\ e.more = e.n
  /\ e.hub = e.n + Cardinality({ e.at[i] : i \in DOMAIN e.at })
  /\ Len(e.got) = Len(e.at)
  /\ \A x \in DOMAIN e.got :
       LET g == e.got[x] IN
       /\ g.i = e.at[x] /\ g.same = TRUE /\ g.re = <<FALSE, FALSE, FALSE, FALSE>> /\ g.ne = TRUE
       /\ Len(g.alts) = 2 /\ { g.alts[y] : y \in 1..2 } = { FarLeaf(g.i), FarBranch(g.i, e.n) }

Op ==
  \/ Ev.op = "far" /\ Ok /\ FarOk(Ev) = TRUE /\ UNCHANGED fvars
  \/ Ev.op = "node" /\ Ok /\ MakeNode(Ev.tree) /\ Ev.res = Len(nodes')
  \/ Ev.op = "leafalt" /\ Ok /\ MakeLeafAlt(Ev.tree, Ev.t, Ev.v) /\ Ev.res = Len(objs')
  \/ Ev.op = "leaf" /\ Ok /\ MakeLeaf(Ev.tree, Ev.t, Ev.v) /\ Ev.res = Len(nodes')
  \/ Ev.op = "bralt" /\ Ok /\ MakeBranchAlt(Ev.tree, Ev.t, Ev.c) /\ Ev.res = Len(objs')
  \/ Ev.op = "branch" /\ Ok /\ MakeBranch(Ev.tree, Ev.t, Ev.c) /\ Ev.res = Len(nodes')
  \/ Ev.op \in {"bralt", "branch"} /\ No /\ RefuseKids(Ev.tree, Ev.c)
  \/ Ev.op = "add" /\ Ok /\ AddAlt(Ev.n, Ev.a, Ev.ch)
  \/ Ev.op = "add" /\ No /\ RefuseAlt(Ev.n, Ev.a)
  \/ Ev.op = "all" /\ Ok /\ AddAll(Ev.n, Ev.m, Ev.ch)
  \/ Ev.op = "all" /\ No /\ RefuseNode(Ev.n, Ev.m)
  \/ Ev.op = "addof" /\ Ok /\ Ev.took # None /\ AddFrom(Ev.n, Ev.m, Ev.took, Ev.ch)
  \/ Ev.op = "addof" /\ Ok /\ Ev.took = None /\ Ev.ch = FALSE
     /\ Cardinality(nodes[Ev.m].alts) <= Ev.i /\ UNCHANGED fvars
  \/ Ev.op = "addof" /\ No /\ RefuseNode(Ev.n, Ev.m) /\ Cardinality(nodes[Ev.m].alts) > Ev.i
  \/ Ev.op = "dot" /\ Ok /\ UNCHANGED fvars /\ Shows(Ev.dot, Ev.n) = TRUE

Once(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Elems(s) == { s[i] : i \in DOMAIN s }

ObjOfP(tree, con) ==
  IF \E i \in DOMAIN objs' : objs'[i] = [tree |-> tree, con |-> con]
  THEN First(LAMBDA i : objs'[i] = [tree |-> tree, con |-> con], Len(objs')) ELSE 0

Shown(st) ==
  /\ Len(st.nodes) = Len(nodes') /\ Len(st.alts) = Len(objs')
  /\ \A n \in DOMAIN nodes' :
       /\ Once(st.nodes[n]) /\ Elems(st.nodes[n]) = nodes'[n].alts
       \* What a node returns equals what was made with that content.
       /\ Len(st.objs[n]) = Len(st.nodes[n])
       /\ Elems(st.objs[n]) = { ObjOfP(nodes'[n].tree, a) : a \in nodes'[n].alts }
       /\ st.tree[n] = nodes'[n].tree
       \* Each node is one of its own.
       /\ st.same[n] = n
  /\ \A i \in DOMAIN objs' :
       /\ st.alts[i] = objs'[i].con
       /\ st.aeq[i] = ObjOfP(objs'[i].tree, objs'[i].con)
       /\ st.atree[i] = objs'[i].tree

Operate == More /\ Op /\ (~Ev.seen \/ Shown(Ev.st)) = TRUE /\ (Ev.seen \/ "broken" \notin DOMAIN Ev) = TRUE /\ Step

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED fvars
        \/ Accept /\ UNCHANGED fvars

Spec == Init /\ [][Next]_vars
=============================================================================
