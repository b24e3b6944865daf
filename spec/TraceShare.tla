----------------------------- MODULE TraceShare -----------------------------
(* Conformance of several parses and hand-built nodes in one tree (C04).     *)
EXTENDS TraceBase, Forests

VARIABLE roots     \* what each root represented when it was obtained

vars == <<tr, l, roots>>

Init == InitBase /\ roots = << >>

Same(f, g) == f = g \/ SameTrees(Alts(f), f.root, Alts(g), g.root)

\* Recorded forests number the nodes of all roots together; bring the part of
\* one root into the form in which node ids are 1..n.
Dense(f) ==
  LET ids == { f.n[x].i : x \in DOMAIN f.n }
      pos(i) == CHOOSE x \in DOMAIN f.n : f.n[x].i = i
      num == [ i \in ids |-> pos(i) ]
      alt(a) == [k |-> a.k, t |-> a.t, v |-> a.v, c |-> [ j \in DOMAIN a.c |-> num[a.c[j]] ]]
  IN [root |-> num[f.root],
      n |-> [ x \in DOMAIN f.n |-> [i |-> x, a |-> [ y \in DOMAIN f.n[x].a |-> alt(f.n[x].a[y]) ]] ]]

\* What the user adds to a root appears wherever that root is.
Grafted(f, g, h) ==        \* f after the root of g got what the root of h has
  IF \A x \in DOMAIN f.n : f.n[x].i # g.root THEN f
  ELSE LET have == { f.n[x].i : x \in DOMAIN f.n }
           more == SelectSeq(h.n, LAMBDA e : e.i \notin have)
           add  == (CHOOSE x \in DOMAIN h.n : h.n[x].i = h.root)
           put(e) == IF e.i = g.root THEN [e EXCEPT !.a = @ \o h.n[add].a] ELSE e
           all  == f.n \o more
       IN [f EXCEPT !.n = [ x \in DOMAIN all |-> put(all[x]) ]]

\* Everything obtained earlier is what it was.
Before(op) ==
  IF op.arg.o = "graft"
  THEN LET at(i) == roots[(i % Len(roots)) + 1]
       IN [ i \in DOMAIN roots |-> Grafted(roots[i], at(op.arg.n), at(op.arg.m)) ]
  ELSE roots

Kept(e, was) == \A i \in DOMAIN was : was[i] = e.raw[i] \/ Same(Dense(was[i]), e.now[i])

Judged(op) == [out |-> op.out, some |-> op.some, fsome |-> op.fsome, fresh |-> op.fresh, arg |-> op.arg,
               raw |-> op.roots, now |-> [ i \in DOMAIN op.roots |-> Dense(op.roots[i]) ]]

NewOk(e) ==
  LET f == e.now[Len(e.now)]
      o == e.arg
      F == Alts(f)
  IN CASE o.o = "parse" ->
            \/ Same(f, e.fresh)
            \* not built alike, but of the same trees
            \/ LET P == ProdsOf(T.gs[o.g])
                   s == T.gs[o.g].start
               IN \A h \in {f, e.fresh} : Sound(P, s, o.w, o.v, h) /\ Complete(P, s, o.w, o.v, h)
       [] o.o = "leaf" ->
            \A a \in F[f.root] : a = [k |-> "leaf", t |-> o.t, v |-> o.v, c |-> << >>] /\ Cardinality(F[f.root]) = 1
       [] o.o = "branch" ->
            /\ Cardinality(F[f.root]) = 1
            /\ \A a \in F[f.root] :
                 /\ a.k = "br" /\ a.t = o.k /\ Len(a.c) = Len(o.c)
                 /\ \A j \in DOMAIN a.c :
                      LET r == Dense(roots[(o.c[j] % Len(roots)) + 1])
                      IN SameTrees(F, a.c[j], Alts(r), r.root)

Operate ==
  /\ More /\ Ev.out = "ok"
  /\ LET e == Judged(Ev) IN
     /\ e.some = e.fsome
     /\ Len(e.now) = Len(roots) + (IF e.some THEN 1 ELSE 0)
     /\ (Kept(e, Before(Ev)) /\ (e.some => NewOk(e))) = TRUE
     /\ roots' = Ev.roots
  /\ Step

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED roots
        \/ Accept /\ UNCHANGED roots

Spec == Init /\ [][Next]_vars
=============================================================================
