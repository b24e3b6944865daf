------------------------------ MODULE Pictures ------------------------------
(* Is a drawn graph the picture of a node (C15)?  Vertices have no names     *)
(* that would mean anything, so the graphs are compared up to renaming: by   *)
(* refining colours in both at once until nothing changes, where a colour is *)
(* determined by the label and the colours of all neighbours, those of the   *)
(* children in order.  Graphs that are equal up to renaming always agree.    *)
EXTENDS Forest, TLC, SequencesExt

\* Graphs are sequences of vertices [lab, out], out a sequence of numbers.
NodeLab == [k |-> "node", t |-> 0, v |-> 0]
Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
Place(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

ForestGraph(n) ==
  LET ns == SetToSeq(PicNodes(n))
      as == SetToSeq(PicAlts(n))
  IN [ i \in 1..(Len(ns) + Len(as)) |->
         IF i <= Len(ns)
         THEN LET mine == SetToSeq(nodes[ns[i]].alts)
              IN [lab |-> NodeLab, out |-> [ j \in DOMAIN mine |-> Len(ns) + Place(as, mine[j]) ]]
         ELSE LET a == as[i - Len(ns)]
              IN [lab |-> [k |-> a.k, t |-> a.t, v |-> a.v], out |-> [ j \in DOMAIN a.c |-> Place(ns, a.c[j]) ]] ]

\* The drawn vertices get the numbers behind n.
DrawnGraph(d, n) ==
  [ i \in DOMAIN d.v |->
      [lab |-> [k |-> d.v[i].k, t |-> d.v[i].t, v |-> d.v[i].v],
       out |-> LET es == SelectSeq(d.e, LAMBDA e : e[1] = i) IN [ j \in DOMAIN es |-> n + es[j][2] ]] ]

\* Numbers for values: the position of a value among those that occur.
Numbered(f) == LET s == SetToSeq({ f[x] : x \in DOMAIN f })
                   num == [ v \in { s[i] : i \in DOMAIN s } |-> Place(s, v) ]
               IN [ x \in DOMAIN f |-> num[f[x]] ]

Bag(s) == [ y \in { s[i] : i \in DOMAIN s } |-> Count(s, y) ]

\* Does each colour occur as often in both, that is up to n and behind?
Even(col, n) == \A c \in { col[x] : x \in DOMAIN col } :
                  Cardinality({ x \in 1..n : col[x] = c }) = Cardinality({ x \in (n + 1)..Len(col) : col[x] = c })

RECURSIVE Agree(_, _, _, _)
Agree(G, pre, col, n) ==
  IF ~Even(col, n) THEN FALSE
  ELSE LET sig == [ x \in DOMAIN G |->
                      LET o == [ i \in DOMAIN G[x].out |-> col[G[x].out[i]] ]
                          p == [ i \in DOMAIN pre[x] |-> <<col[pre[x][i][1]], pre[x][i][2]>> ]
                      IN <<col[x], IF G[x].lab.k = "node" THEN Bag(o) ELSE o, Bag(p)>> ]
           new == Numbered(sig)
       IN IF Cardinality({ new[x] : x \in DOMAIN new }) = Cardinality({ col[x] : x \in DOMAIN col })
          THEN TRUE
          ELSE Agree(G, pre, new, n)

\* Where x occurs: the vertices and, for children, the place.
Edges(G) == UNION { { <<y, i, G[y].out[i]>> : i \in DOMAIN G[y].out } : y \in DOMAIN G }
Pre(G, es, x) ==
  LET s == SetToSeq({ e \in es : e[3] = x })
  IN [ j \in DOMAIN s |-> <<s[j][1], IF G[s[j][1]].lab.k = "node" THEN 0 ELSE s[j][2]>> ]

Shows(d, n) ==
  /\ d.bad = 0 /\ d.ids = Len(d.v)
  \* Edges go between vertices, from nodes to alternatives and back.
  /\ \A i \in DOMAIN d.e :
       /\ d.e[i][1] \in DOMAIN d.v /\ d.e[i][2] \in DOMAIN d.v
       /\ (d.v[d.e[i][1]].k = "node") # (d.v[d.e[i][2]].k = "node")
  /\ LET A == ForestGraph(n)
         G == A \o DrawnGraph(d, Len(A))
         es == Edges(G)
     IN /\ 2 * Len(A) = Len(G)
        /\ Agree(G, [ x \in DOMAIN G |-> Pre(G, es, x) ], Numbered([ x \in DOMAIN G |-> G[x].lab ]), Len(A))
=============================================================================
