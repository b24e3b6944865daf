------------------------------- MODULE Linear -------------------------------
(* Grammars in which every production is a tail, or a nonterminal and a tail *)
(* that is not empty, or the mirror image of that.  A tail consists of      *)
(* terminals and of classes: nonterminals all of whose productions are      *)
(* strings of terminals of one length, which may be 0.                       *)
(* For these, derivability and forests can be decided in one pass over the  *)
(* input, which makes inputs of many thousands of tokens affordable.  The   *)
(* meaning is that of Derive and Forests; short inputs are judged by both.  *)
EXTENDS Forests, SequencesExt

MirrorP(P) == [ A \in DOMAIN P |-> [ m \in DOMAIN P[A] |-> [k |-> P[A][m].k, e |-> Reverse(P[A][m].e)] ] ]

MirrorF(f) ==
  [root |-> f.root,
   n |-> [ i \in DOMAIN f.n |->
             [i |-> f.n[i].i,
              a |-> [ x \in DOMAIN f.n[i].a |->
                        [k |-> f.n[i].a[x].k, t |-> f.n[i].a[x].t, v |-> f.n[i].a[x].v,
                         c |-> Reverse(f.n[i].a[x].c)] ]] ] ]

IsClass(P, A) ==
  /\ \A m \in DOMAIN P[A] : \A k \in DOMAIN P[A][m].e : IsTerm(P[A][m].e[k])
  /\ \A m, n \in DOMAIN P[A] : Len(P[A][m].e) = Len(P[A][n].e)

\* Lengths of what the symbols of a tail cover, one after the other.
Widths(P, ts) == [ k \in DOMAIN ts |-> IF IsTerm(ts[k]) THEN 1 ELSE Len(P[-ts[k]][1].e) ]

Sums(ws) == FoldLeft(LAMBDA s, x : Append(s, s[Len(s)] + x), <<0>>, ws)

\* The productions with all that the rest needs to know about them: front (0
\* if there is none), tail, where the symbols of the tail begin, and its width.
ShapeOf(P, p) ==
  LET hd == p.e # << >> /\ IsNT(p.e[1]) /\ ~IsClass(P, -p.e[1])
      ts == IF hd THEN SubSeq(p.e, 2, Len(p.e)) ELSE p.e
      ss == Sums(Widths(P, ts))
  IN [k |-> p.k, len |-> Len(p.e), front |-> IF hd THEN -p.e[1] ELSE 0, ts |-> ts, at |-> ss, w |-> ss[Len(ss)]]

Shapes(P) == [ A \in DOMAIN P |-> [ m \in DOMAIN P[A] |-> ShapeOf(P, P[A][m]) ] ]

\* Is this what the beginning of the module says?
Linear(P, G) ==
  \A A \in DOMAIN P : \A m \in DOMAIN P[A] :
     LET s == G[A][m]
     IN /\ \A k \in DOMAIN s.ts : IsTerm(s.ts[k]) \/ IsClass(P, -s.ts[k])
        /\ s.front # 0 => s.w > 0
        /\ \A n \in DOMAIN P[A] : P[A][m].k = P[A][n].k => m = n

MaxWidth(G) == LET S == UNION { { G[A][m].w : m \in DOMAIN G[A] } : A \in DOMAIN G }
               IN CHOOSE k \in S \cup {0} : \A i \in S : i <= k

Str(w, i, ts) == \A x \in DOMAIN ts : w[i + x] = ts[x]

\* Does symbol x cover w[i+1..]?  (Its width is known and within w.)
Has(G, w, x, i) == IF IsTerm(x) THEN w[i + 1] = x
                   ELSE \E m \in DOMAIN G[-x] : Str(w, i, G[-x][m].ts)

\* Does the tail of s cover what is before j?
Reads(G, w, j, s) == /\ s.w <= j
                     /\ \A k \in DOMAIN s.ts : Has(G, w, s.ts[k], j - s.w + s.at[k])

\* Nonterminals that derive w[1..j]; Before(i) is that for i < j.
DerivedAt(G, w, j, Before(_)) ==
  { A \in DOMAIN G :
      \E m \in DOMAIN G[A] :
        LET s == G[A][m]
        IN /\ Reads(G, w, j, s)
           /\ IF s.front = 0 THEN s.w = j ELSE s.front \in Before(j - s.w) }

(* Membership: a window of the last MaxWidth(G) sets is all there is to know.*)
LinMember(G, start, w) ==
  LET K == MaxWidth(G)
      Start == << DerivedAt(G, w, 0, LAMBDA i : {}) >>
      \* win holds the sets for j - Len(win) .. j - 1
      Push(win, j) ==
        LET new == DerivedAt(G, w, j, LAMBDA i : win[Len(win) - (j - 1) + i])
            all == Append(win, new)
        IN IF Len(all) > K + 1 THEN Tail(all) ELSE all
      last == FoldLeft(Push, Start, [ j \in 1..Len(w) |-> j ])
  IN start \in last[Len(last)]

(* All of the sets: element j + 1 for w[1..j]. *)
LinTable(G, w) ==
  LET Push(D, j) == Append(D, DerivedAt(G, w, j, LAMBDA i : D[i + 1]))
  IN FoldLeft(Push, << DerivedAt(G, w, 0, LAMBDA i : {}) >>, [ j \in 1..Len(w) |-> j ])

----------------------------------------------------------------------------
(* Forests.  A group <<U, A, j>> is a set of nodes, each of which is to hold *)
(* derivations of w[1..j] by A.                                              *)

LeafIs(w, val, a, x, i) == a.k = "leaf" /\ a.t = x /\ w[i + 1] = x /\ a.v = val[i + 1]

\* u holds only derivations of what follows i by tail symbol x ...
OnlyTail(G, F, w, val, u, x, i) ==
  /\ F[u] # {}
  /\ \A a \in F[u] :
       IF IsTerm(x) THEN LeafIs(w, val, a, x, i)
       ELSE /\ a.k = "br"
            /\ \E m \in DOMAIN G[-x] :
                 LET s == G[-x][m]
                 IN /\ a.t = s.k /\ Len(a.c) = s.len
                    /\ \A k \in DOMAIN a.c : /\ F[a.c[k]] # {}
                                             /\ \A b \in F[a.c[k]] : LeafIs(w, val, b, s.ts[k], i + k - 1)

\* ... and all of them.
AllTail(G, F, w, val, u, x, i) ==
  IF IsTerm(x) THEN \E a \in F[u] : LeafIs(w, val, a, x, i)
  ELSE \A m \in DOMAIN G[-x] :
         LET s == G[-x][m]
         IN Str(w, i, s.ts) =>
              \E a \in F[u] : /\ a.k = "br" /\ a.t = s.k /\ Len(a.c) = s.len
                              /\ \A k \in DOMAIN a.c : \E b \in F[a.c[k]] : LeafIs(w, val, b, s.ts[k], i + k - 1)

\* Is alternative a, up to j, like production s, with tails as Tail1 has it?
Fit(Tail1(_, _, _), s, a, j) ==
  /\ a.k = "br" /\ a.t = s.k /\ Len(a.c) = s.len
  /\ IF s.front = 0 THEN s.w = j ELSE s.w <= j
  /\ LET d == s.len - Len(s.ts)
     IN \A k \in DOMAIN s.ts : Tail1(a.c[k + d], s.ts[k], j - s.w + s.at[k])

\* The groups at j come first: all others are at smaller positions.
Walk(n, root, start, Fine(_), Below(_)) ==
  LET At(acc, i) ==
        LET j  == n + 1 - i
            gs == { g \in acc.fr : g[3] = j }
        IN IF ~acc.ok \/ gs = {} THEN acc
           ELSE [ok |-> \A g \in gs : Fine(g),
                 fr |-> (acc.fr \ gs) \cup UNION { Below(g) : g \in gs }]
      end == FoldLeft(At, [ok |-> TRUE, fr |-> { <<{root}, start, n>> }], [ i \in 1..(n + 1) |-> i ])
  IN end.ok

LinSound(G, start, w, val, f) ==
  LET F == Alts(f)
      Tail1(u, x, i) == OnlyTail(G, F, w, val, u, x, i)
      Fine(g) == \A u \in g[1] : /\ F[u] # {}
                                 /\ \A a \in F[u] : \E m \in DOMAIN G[g[2]] : Fit(Tail1, G[g[2]][m], a, g[3])
      Fitting(g, s) == UNION { { a \in F[u] : Fit(Tail1, s, a, g[3]) } : u \in g[1] }
      Below(g) ==
        { h \in { LET s == G[g[2]][m]
                  IN IF s.front = 0 THEN << {}, 0, 0 >>
                     ELSE << { a.c[1] : a \in Fitting(g, s) }, s.front, g[3] - s.w >>
                : m \in DOMAIN G[g[2]] } : h[1] # {} }
  IN Walk(Len(w), f.root, start, Fine, Below)

LinComplete(G, start, w, val, f) ==
  LET F == Alts(f)
      D == LinTable(G, w)
      Tail1(u, x, i) == AllTail(G, F, w, val, u, x, i)
      \* Productions of A that derive w[1..j]
      Due(A, j) == { m \in DOMAIN G[A] :
                       LET s == G[A][m]
                       IN Reads(G, w, j, s) /\ IF s.front = 0 THEN s.w = j ELSE s.front \in D[j - s.w + 1] }
      Fitting(g, m) == UNION { { a \in F[u] : Fit(Tail1, G[g[2]][m], a, g[3]) } : u \in g[1] }
      Fine(g) == \A m \in Due(g[2], g[3]) : Fitting(g, m) # {}
      Below(g) ==
        { LET s == G[g[2]][m] IN << { a.c[1] : a \in Fitting(g, m) }, s.front, g[3] - s.w >>
        : m \in { i \in Due(g[2], g[3]) : G[g[2]][i].front # 0 } }
  IN /\ start \in D[Len(w) + 1]
     /\ Walk(Len(w), f.root, start, Fine, Below)

=============================================================================
