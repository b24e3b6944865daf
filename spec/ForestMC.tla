------------------------------ MODULE ForestMC ------------------------------
(* How the store is built: per tree, nodes with sets of alternative numbers, *)
(* and a table in which each content has one number.  Checked to refine      *)
(* Forest; all short histories are printed for replay.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Trees, MaxNodes, MaxObjs,
          Dot,       \* histories end with the pictures of all nodes
          Intern     \* "all"; broken variants: "none" gives each alternative
                     \* its own number, "short" looks at the first child only

VARIABLES tabs,      \* per tree, the contents by number
          ins,       \* per tree, the nodes by index: sets of numbers
          nh, ah,    \* handles: nodes [tree, ix], alternatives [tree, ix]
          rep,       \* the last report
          hist, done

ivars == <<tabs, ins, nh, ah, rep, hist, done>>

Ts == 1..Trees

\* Children are stored by their index in their tree; outside they are handles.
Outside(tree, con) ==
  [con EXCEPT !.c = [ i \in DOMAIN con.c |-> CHOOSE h \in DOMAIN nh : nh[h] = [tree |-> tree, ix |-> con.c[i]] ]]

ntrees == Trees
nodes == [ h \in DOMAIN nh |->
             [tree |-> nh[h].tree,
              alts |-> { Outside(nh[h].tree, tabs[nh[h].tree][a]) : a \in ins[nh[h].tree][nh[h].ix] }] ]
objs == [ a \in DOMAIN ah |-> [tree |-> ah[a].tree, con |-> Outside(ah[a].tree, tabs[ah[a].tree][ah[a].ix])] ]

F == INSTANCE Forest

Init == /\ tabs = [ t \in Ts |-> << >> ] /\ ins = [ t \in Ts |-> << >> ]
        /\ nh = << >> /\ ah = << >> /\ rep = FALSE /\ hist = << >> /\ done = FALSE

Note(op) == hist' = Append(hist, op) /\ done' = FALSE

\* The number of content con: <<number, table>>.
Equal(a, b) == CASE Intern = "all" -> a = b
                 [] Intern = "none" -> FALSE
                 [] Intern = "short" -> /\ a.k = b.k /\ a.t = b.t /\ a.v = b.v
                                        /\ (a.c = b.c \/ (a.c # << >> /\ b.c # << >> /\ a.c[1] = b.c[1]))
Lookup(tree, con) ==
  LET tab == tabs[tree]
  IN IF \E i \in DOMAIN tab : Equal(tab[i], con)
     THEN <<CHOOSE i \in DOMAIN tab : Equal(tab[i], con), tab>>
     ELSE <<Len(tab) + 1, Append(tab, con)>>

Inside(c) == [ i \in DOMAIN c |-> nh[c[i]].ix ]
SameTree(tree, c) == \A i \in DOMAIN c : nh[c[i]].tree = tree

Leaf(t, v) == [k |-> "leaf", t |-> t, v |-> v, c |-> << >>]
Branch(t, c) == [k |-> "br", t |-> t, v |-> 0, c |-> Inside(c)]

NodeWith(tree, S) ==
  /\ ins' = [ins EXCEPT ![tree] = Append(@, S)]
  /\ nh' = Append(nh, [tree |-> tree, ix |-> Len(ins[tree]) + 1])

MakeNode(tree) ==
  /\ Len(nh) < MaxNodes
  /\ NodeWith(tree, {})
  /\ rep' = FALSE /\ UNCHANGED <<tabs, ah>>
  /\ Note([op |-> "node", tree |-> tree])

MakeAlt(tree, con, op) ==
  /\ Len(ah) < MaxObjs
  /\ LET r == Lookup(tree, con)
     IN tabs' = [tabs EXCEPT ![tree] = r[2]] /\ ah' = Append(ah, [tree |-> tree, ix |-> r[1]])
  /\ rep' = FALSE /\ UNCHANGED <<ins, nh>>
  /\ Note(op)

MakeFull(tree, con, op) ==
  /\ Len(nh) < MaxNodes
  /\ LET r == Lookup(tree, con)
     IN tabs' = [tabs EXCEPT ![tree] = r[2]] /\ NodeWith(tree, {r[1]})
  /\ rep' = FALSE /\ UNCHANGED ah
  /\ Note(op)

Refused(op) == UNCHANGED <<tabs, ins, nh, ah>> /\ rep' = FALSE /\ Note(op)

Add(n, S, op) ==
  /\ LET x == nh[n] IN
     /\ rep' = ~(S \subseteq ins[x.tree][x.ix])
     /\ ins' = [ins EXCEPT ![x.tree][x.ix] = @ \cup S]
  /\ UNCHANGED <<tabs, nh, ah>>
  /\ Note(op)

Kids == {<< >>} \cup { <<n>> : n \in DOMAIN nh } \cup { <<n, m>> : n, m \in DOMAIN nh }

Do ==
  \/ \E t \in Ts :
       \/ MakeNode(t)
       \/ \E v \in 1..2 : MakeAlt(t, Leaf(1, v), [op |-> "leafalt", tree |-> t, t |-> 1, v |-> v])
       \/ MakeFull(t, Leaf(1, 1), [op |-> "leaf", tree |-> t, t |-> 1, v |-> 1])
       \/ \E c \in Kids :
            IF SameTree(t, c)
            THEN \/ MakeAlt(t, Branch(1, c), [op |-> "bralt", tree |-> t, t |-> 1, c |-> c])
                 \/ MakeFull(t, Branch(1, c), [op |-> "branch", tree |-> t, t |-> 1, c |-> c])
            ELSE \/ Refused([op |-> "bralt", tree |-> t, t |-> 1, c |-> c])
                 \/ Refused([op |-> "branch", tree |-> t, t |-> 1, c |-> c])
  \/ \E n \in DOMAIN nh, a \in DOMAIN ah :
       IF nh[n].tree = ah[a].tree THEN Add(n, {ah[a].ix}, [op |-> "add", n |-> n, a |-> a])
       ELSE Refused([op |-> "add", n |-> n, a |-> a])
  \/ \E n, m \in DOMAIN nh :
       IF nh[n].tree = nh[m].tree THEN Add(n, ins[nh[m].tree][nh[m].ix], [op |-> "all", n |-> n, m |-> m])
       ELSE Refused([op |-> "all", n |-> n, m |-> m])

Dots == IF Dot THEN [ i \in DOMAIN nh |-> [op |-> "dot", n |-> i] ] ELSE << >>

Emit == /\ Len(hist) = N /\ ~done
        /\ PrintT(<<"BEH", ToJson(hist \o Dots)>>)
        /\ done' = TRUE /\ UNCHANGED <<tabs, ins, nh, ah, rep, hist>>

Next == (Len(hist) < N /\ Do) \/ Emit
Spec == Init /\ [][Next]_ivars

\* Equal contents, equal alternatives.
Interned == \A a, b \in DOMAIN ah : (ah[a] = ah[b]) = (objs[a] = objs[b])
Separate == F!Separate
Last == hist'[Len(hist')]

Step(o) ==
  CASE o.op = "node" -> F!MakeNode(o.tree)
    [] o.op = "leafalt" -> F!MakeLeafAlt(o.tree, o.t, o.v)
    [] o.op = "bralt" -> F!MakeBranchAlt(o.tree, o.t, o.c) \/ F!RefuseKids(o.tree, o.c)
    [] o.op = "leaf" -> F!MakeLeaf(o.tree, o.t, o.v)
    [] o.op = "branch" -> F!MakeBranch(o.tree, o.t, o.c) \/ F!RefuseKids(o.tree, o.c)
    [] o.op = "add" -> F!AddAlt(o.n, o.a, rep') \/ F!RefuseAlt(o.n, o.a)
    [] o.op = "all" -> F!AddAll(o.n, o.m, rep') \/ F!RefuseNode(o.n, o.m)
Refines == [][ done' \/ Step(Last) ]_ivars
Monotone == F!Monotone
=============================================================================
