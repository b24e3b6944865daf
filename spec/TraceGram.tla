----------------------------- MODULE TraceGram ------------------------------
(* Conformance of everything that is a function of a grammar: building (C05),*)
(* reading back (C06), wrapping (C07), the analyses (C08-C10), the removal   *)
(* of empty productions (C11), printing (C24), identity of handles (C26),   *)
(* items (C21) and LR(1) item sets (C27).                                    *)
EXTENDS TraceBase, NonNull, Lr1, Orders

VARIABLES P,        \* the grammar of the scenario: head -> productions
          N,        \* its nullable nonterminals
          F,        \* its first sets
          QL,       \* its productions in order
          items     \* the current LR(1) item set

consts == <<P, N, F, QL>>
vars == <<tr, l, P, N, F, QL, items>>

Init == /\ InitBase
        /\ P = ProdsOf(T.g)
        /\ N = NullableNTs(P)
        /\ F = IF Prop \in {"C09", "C10", "C27"} THEN FirstOfAll(P, N) ELSE << >>
        /\ QL = IF Prop \in {"C21", "C24", "C27"} THEN ProdList(P) ELSE << >>
        /\ items = {}

Start == T.g.start
Probe == 1..T.probe
Hs == SortedInts(DOMAIN P)
Amb == NullAmbiguous(P, N)

----------------------------------------------------------------------------
(* C05 *)
BuildOk(e) ==
  IF WellFormed(P, Start) THEN e.out = "ok"
  ELSE /\ e.out = "err"
       /\ Range(e.norule) = NoRule(P, Start)
       /\ Range(e.noprod) = NoProds(P)
       /\ Range(e.unreach) = Unreach(P, Start)

(* C06 *)
ProdAs(h, p) == [h |-> h, k |-> p.k, v |-> p.v, e |-> p.e, n |-> p.n]
RuleAs(h) == [h |-> h, p |-> [ i \in DOMAIN P[h] |-> ProdAs(h, P[h][i]) ]]
AllAs == LET Q == ProdList(P) IN [ i \in DOMAIN Q |-> ProdAs(Q[i][1], P[Q[i][1]][Q[i][2]]) ]

Padded(s) == [ i \in 1..Len(s) + 2 |-> IF i <= Len(s) THEN s[i] ELSE 0 ]

ViewOk(x, q) ==
  LET p == P[q[1]][q[2]] IN
  /\ x.e = p.e
  /\ x.num = Len(p.e)
  /\ x.at = Padded(p.e)
  /\ x.pat = Padded(p.e)
  /\ x.patn = Padded(p.n)
  /\ x.first = (IF p.e = << >> THEN 0 ELSE p.e[1])
  /\ x.kh = q[1] /\ x.kk = p.k
  /\ x.asterm = [ i \in DOMAIN p.e |-> IF IsTerm(p.e[i]) THEN p.e[i] ELSE 0 ]
  /\ x.asnt = [ i \in DOMAIN p.e |-> IF IsNT(p.e[i]) THEN -p.e[i] ELSE 0 ]

ReadOk(e) ==
  /\ e.out = "ok"
  /\ e.clone_same /\ e.again_same
  /\ e.a.start = Start
  /\ e.a.rules = [ i \in DOMAIN Hs |-> RuleAs(Hs[i]) ]
  /\ e.a.map = [ i \in DOMAIN Hs |-> [h |-> Hs[i], r |-> RuleAs(Hs[i])] ]
  /\ e.a.prods = AllAs
  /\ LET Q == ProdList(P) IN
     /\ Len(e.a.views) = Len(Q)
     /\ \A i \in DOMAIN Q : ViewOk(e.a.views[i], Q[i])
  /\ \A h \in Probe :
       LET x == e.a.look[h] IN
       IF h \in DOMAIN P THEN x.some /\ x.r = RuleAs(h) /\ x.again ELSE ~x.some

(* C07 *)
StartProd == [h |-> 0, k |-> 0, v |-> -1, e |-> <<-Start, 100000>>, n |-> <<100000, 0>>]
StartRule == [h |-> 0, p |-> <<StartProd>>]

WrapOk(e) ==
  /\ e.out = "ok"
  /\ e.start = 0
  /\ Cardinality({ i \in DOMAIN e.rules : e.rules[i].h = 0 }) = 1
  /\ \A i \in DOMAIN e.rules : e.rules[i].h = 0 => e.rules[i] = StartRule
  /\ SelectSeq(e.rules, LAMBDA r : r.h # 0) = [ i \in DOMAIN Hs |-> RuleAs(Hs[i]) ]
  /\ e.startrule = <<StartProd>>
  /\ e.startprod = StartProd

(* C08 *)
IsSet(s, S) == Range(s) = S /\ Len(s) = Cardinality(S)

NullableOk(e) ==
  IF Amb THEN e.out = "err"
  ELSE /\ e.out = "ok"
       /\ IsSet(e.is, N \cap Probe) /\ IsSet(e.is2, N \cap Probe)
       /\ IsSet(e.set, N) /\ IsSet(e.set2, N)
       /\ Len(e.prods) = Len(Hs)
       /\ \A i \in DOMAIN Hs :
            LET A == Hs[i]
                want == [ m \in DOMAIN P[A] |-> SeqNullable(N, P[A][m].e) ]
            IN e.prods[i].h = A /\ e.prods[i].np = want /\ e.prods[i].np2 = want
       /\ \A A \in Probe :
            e.wit[A] = IF A \in N THEN CHOOSE i \in NullProds(P, N, A) : TRUE ELSE 0

(* C09 *)
FirstsOk(e) ==
  IF Amb THEN e.out = "err"
  ELSE /\ e.out = "ok"
       /\ \A A \in Probe : Range(e.first[A]) = IF A \in DOMAIN P THEN F[A] ELSE {}

(* C10 *)
FollowsOk(e) ==
  IF Amb THEN e.out = "err"
  ELSE /\ e.out = "ok"
       /\ LET W == FollowOfAll(P, N, F)
          IN \A A \in Probe : Range(e.follow[A]) = IF A \in DOMAIN P THEN W[A] ELSE {}

(* C11 *)
NonNullOk(e) ==
  IF Refused(P, N) THEN e.out = "err"
  ELSE /\ e.out = "ok"
       /\ e.start = Start
       /\ e.heads = Hs
       /\ \A i \in DOMAIN e.prods : ~e.prods[i].dupkey /\ e.prods[i].e # << >>
       /\ \A A \in DOMAIN P :
            LET mine == { i \in DOMAIN e.prods : e.prods[i].h = A }
                want == UNION { { <<m, v>> : v \in Variants(N, P[A][m]) } : m \in DOMAIN P[A] }
                Is(i, x) ==
                  /\ e.prods[i].e = VariantRhs(P[A][x[1]], x[2])
                  /\ e.prods[i].n = VariantNames(P[A][x[1]], x[2])
                  /\ \E j \in DOMAIN e.prods[i].orig :
                       LET o == e.prods[i].orig[j]
                       IN o.o = x[1] /\ o.drop = x[2] /\ o.args /\ o.val
            IN /\ Cardinality(mine) = Cardinality(want)
               /\ \A x \in want : \E i \in mine : Is(i, x)
               /\ \A i \in mine : \E x \in want : Is(i, x)

(* C24 *)
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
NTName(A) == "n" \o Pad3(A)

RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Flat(Tail(ss))

NameText(n) == IF n = 0 THEN << >> ELSE <<"e" \o Pad3(n), ":">>
ElemText(x) == IF IsTerm(x) THEN <<"t" \o Pad3(x)>> ELSE <<"<", NTName(-x), ">">>
ProdText(p) == IF p.e = << >> THEN <<"ε">>
               ELSE Flat([ i \in DOMAIN p.e |-> NameText(p.n[i]) \o ElemText(p.e[i]) ])
ProdsText(ps) == Flat([ i \in DOMAIN ps |-> (IF i = 1 THEN << >> ELSE <<"|">>) \o ProdText(ps[i]) ])
RuleText(A) == <<NTName(A), "=", ">">> \o ProdsText(P[A]) \o <<";">>
RulesText == Flat([ i \in DOMAIN Hs |-> RuleText(Hs[i]) ])

PrettyOk(e) ==
  e.out = "ok" /\
  e.s = <<"Start", "=", NTName(Start), ",", "Rules", "{">> \o RulesText \o <<"}", ",">>

PrettyWrappedOk(e) ==
  e.out = "ok" /\
  e.s = <<"Start", "=", "<", "START", ">", ",", "Rules", "{", "<", "START", ">", "=", ">",
          "start", ":", "<", NTName(Start), ">", "<", "EOS", ">", ";">> \o RulesText \o <<"}", ",">>

\* The debug form, without commas.
DTerm(x)  == <<"Terminal", "(", "t" \o Pad3(x), ")">>
DNT(A)    == <<"NonTerminal", "(", NTName(A), ")">>
DOne(x, wr) == IF IsTerm(x) THEN (IF wr THEN <<"Term", "(">> \o DTerm(x) \o <<")">> ELSE DTerm(x))
               ELSE (IF wr THEN <<"NTerm", "(">> \o DNT(-x) \o <<")">> ELSE DNT(-x))
DElem(x, wr) == IF IsTerm(x) THEN DOne(x, wr) ELSE <<"<">> \o DOne(x, wr) \o <<">">>
DHead(A, wr) == <<"head", ":">> \o DOne(-A, wr)
DProd(A, p, wr) == <<"Prod", "{">> \o DHead(A, wr) \o <<"elems", ":", "[">>
                    \o Flat([ i \in DOMAIN p.e |-> NameText(p.n[i]) \o DElem(p.e[i], wr) ]) \o <<"]", "}">>
DRule(A, wr) == <<"Rule", "{">> \o DHead(A, wr) \o <<"prods", ":", "[">>
                 \o Flat([ i \in DOMAIN P[A] |-> DProd(A, P[A][i], wr) ]) \o <<"]", "}">>
DAll == Flat([ i \in DOMAIN Hs |-> Flat([ j \in DOMAIN P[Hs[i]] |-> P[Hs[i]][j].e ]) ])
DUsed(Test(_), wr) == LET xs == SelectSeq(DAll, Test) IN Flat([ i \in DOMAIN xs |-> DOne(xs[i], wr) ])
DRules(wr) == Flat([ i \in DOMAIN Hs |-> DRule(Hs[i], wr) ])
DStart == <<"head", ":", "Start">>

DebugOk(e) ==
  e.out = "ok" /\ e.same /\
  e.s = <<"Grammar", "{", "Terms", ":", "[">> \o DUsed(IsTerm, FALSE)
        \o <<"]", "NonTerms", ":", "[">> \o DUsed(IsNT, FALSE)
        \o <<"]", "Rules", ":", "[">> \o DRules(FALSE) \o <<"]", "}">>

DebugWrappedOk(e) ==
  e.out = "ok" /\ e.same /\
  e.s = <<"Grammar", "{", "Terms", ":", "[", "EndOfStream">> \o DUsed(IsTerm, TRUE)
        \o <<"]", "NonTerms", ":", "[">> \o DOne(-Start, TRUE) \o DUsed(IsNT, TRUE)
        \o <<"]", "Rules", ":", "[", "Rule", "{">> \o DStart \o <<"prods", ":", "[", "Prod", "{">> \o DStart
        \o <<"elems", ":", "[", "start", ":", "<">> \o DOne(-Start, TRUE) \o <<">", "EndOfStream", "]", "}", "]", "}">>
        \o DRules(TRUE) \o <<"]", "}">>

\* Keys and values print as themselves.
DocsOk(e) ==
  /\ e.out = "ok"
  /\ e.keys = [ q \in DOMAIN QL |-> "k" \o Pad3(P[QL[q][1]][QL[q][2]].k) ]
  /\ e.wkeys = <<"<START>">> \o e.keys
  /\ e.vals = <<"<START>", "k000", "()">>
  /\ \A i \in DOMAIN e.nkeys : e.nkeys[i][1] = e.nkeys[i][2]

(* C26 *)
HandlesOk(e) ==
  /\ e.out = "ok"
  /\ LET n == Len(e.id)
         Same(a, b) == e.id[a] = e.id[b]
     IN /\ EqMatrix(e.eq, n, Same)
        /\ OrderMatrix(e.cmp, n, Same)
        /\ e.pcmp = e.cmp

CrossOk(e) ==
  /\ e.out = "ok"
  /\ \A i \in DOMAIN e.req : \A j \in DOMAIN e.req[i] : e.req[i][j] = 2 /\ e.rcmp[i][j] = 2
  /\ \A i \in DOMAIN e.peq : \A j \in DOMAIN e.peq[i] : e.peq[i][j] = 0 /\ e.pcmp[i][j] # 0

(* C21 *)
None2 == <<0, 0>>

ItemOk(e) ==
  LET q == QL[e.p]
      p == P[q[1]][q[2]]
      n == Len(p.e)
      At(i) == IF e.d + i <= n THEN p.e[e.d + i] ELSE 0
      AtN(i) == IF e.d + i <= n THEN <<p.e[e.d + i], p.n[e.d + i]>> ELSE None2
      after == IF e.d < n THEN <<e.p, e.d + 1>> ELSE None2
      syms == T.probe_syms
  IN /\ e.out = "ok"
     /\ e.id = <<e.p, e.d>>
     /\ e.next = At(1) /\ e.nextpe = AtN(1)
     /\ e.offs = [ i \in 1..n + 2 |-> At(i) ]
     /\ e.offpe = [ i \in 1..n + 2 |-> AtN(i) ]
     /\ e.done = (e.d = n)
     /\ e.k = p.k
     /\ e.nxe = AtN(1) /\ e.nxs = after
     /\ e.adv = [ i \in DOMAIN syms |-> IF e.d < n /\ syms[i] = At(1) THEN after ELSE None2 ]

ItemCmpOk(e) ==
  /\ e.out = "ok"
  /\ LET n == Len(e.id)
         Same(a, b) == e.id[a] = e.id[b]
     IN EqMatrix(e.eq, n, Same) /\ OrderMatrix(e.cmp, n, Same) /\ e.pcmp = e.cmp

Sym(it) == ItemSym(P, QL, it)
NextPe(it) == LET p == P[QL[it[1]][1]][QL[it[1]][2]] IN <<p.e[it[2] + 1], p.n[it[2] + 1]>>
DoneItem(it) == it[2] = Len(ItemRhs(P, QL, it))

ItemSetOk(e) ==
  /\ e.out = "ok"
  /\ LET M == Range(e.members)
         nx == { it \in M : ~DoneItem(it) }
         Grow(S) == S \cup UNION { IF IsNT(Sym(it)) THEN ItemsOf(QL, -Sym(it)) ELSE {} : it \in S }
         cl == Lfp(Grow, M)
         \* M with all that follow on each production.
         along == UNION { { <<it[1], d>> : d \in it[2]..Len(ItemRhs(P, QL, it)) } : it \in M }
     IN /\ IsSet(e.items, M) /\ IsSet(e.coll, M)
        /\ e.same
        /\ IsSet(e.complete, M \ nx)
        /\ IsSet([ i \in DOMAIN e.nexts |-> e.nexts[i].e ], { NextPe(it) : it \in nx })
        /\ \A i \in DOMAIN e.nexts :
             IsSet(e.nexts[i].s, { <<it[1], it[2] + 1>> : it \in { x \in nx : NextPe(x) = e.nexts[i].e } })
        /\ IsSet(e.closure, cl) /\ IsSet(e.expanded, cl)
        /\ IsSet(e.advance, along)

SetCmpOk(e) ==
  /\ e.out = "ok"
  /\ LET n == Len(e.members)
         Same(a, b) == Range(e.members[a]) = Range(e.members[b])
     IN EqMatrix(e.eq, n, Same) /\ OrderMatrix(e.cmp, n, Same)

(* C27 *)
LrPairs(st) == UNION { { <<st.items[i].i, t>> : t \in Range(st.items[i].la) } : i \in DOMAIN st.items }

LrStateOk(st, S) ==
  /\ Cardinality({ st.items[i].i : i \in DOMAIN st.items }) = Len(st.items)
  /\ LrPairs(st) = S
  /\ Range(st.reduce) = Reducible(P, QL, S)

LrStartTo(e) ==
  Closure(P, QL, N, F, UNION { { <<e.seed[i].i, t>> : t \in Range(e.seed[i].la) } : i \in DOMAIN e.seed })

LrStart == /\ IsOp("lrstart") /\ Prop = "C27"
           /\ IF Amb THEN items' = {}
              ELSE /\ Ev.out = "ok"
                   /\ LrStateOk(Ev.st, LrStartTo(Ev))
                   /\ items' = LrStartTo(Ev)

LrShift == /\ IsOp("lrshift") /\ Prop = "C27"
           /\ IF Amb THEN items' = {}
              ELSE /\ Ev.out = "ok"
                   /\ IsSet(Ev.on, ShiftOn(P, QL, items))
                   /\ Len(Ev.to) = Len(Ev.on)
                   /\ \A i \in DOMAIN Ev.on :
                        LrStateOk(Ev.to[i], GotoOf(P, QL, N, F, items, Ev.on[i]))
                   /\ items' = IF Ev.go = 0 THEN items ELSE GotoOf(P, QL, N, F, items, Ev.on[Ev.go])

----------------------------------------------------------------------------
\* Which events a property decides, and how.
Judge(e) ==
  CASE e.op = "lost" -> FALSE
    [] e.op = "escape" -> FALSE
    [] e.op = "build" -> Prop = "C05" => BuildOk(e)
    [] e.op = "read" -> ReadOk(e)
    [] e.op = "wrap" -> WrapOk(e)
    [] e.op = "nullable" -> NullableOk(e)
    [] e.op = "firsts" -> FirstsOk(e)
    [] e.op = "follows" -> FollowsOk(e)
    [] e.op = "nonnull" -> NonNullOk(e)
    [] e.op = "pretty" -> PrettyOk(e)
    [] e.op = "prettyw" -> PrettyWrappedOk(e)
    [] e.op = "debug" -> DebugOk(e)
    [] e.op = "debugw" -> DebugWrappedOk(e)
    [] e.op = "docs" -> DocsOk(e)
    [] e.op = "cmp" -> HandlesOk(e)
    [] e.op = "cross" -> CrossOk(e)
    [] e.op = "item" -> ItemOk(e)
    [] e.op = "icmp" -> ItemCmpOk(e)
    [] e.op = "set" -> ItemSetOk(e)
    [] e.op = "scmp" -> SetCmpOk(e)
    [] OTHER -> FALSE

Observe == /\ More /\ Ev.op \notin {"lrstart", "lrshift"}
           /\ Judge(Ev) = TRUE
           /\ UNCHANGED items

Match == (Observe \/ LrStart \/ LrShift) /\ Step /\ UNCHANGED consts

Next == \/ Match
        \/ ~ENABLED Match /\ Reject /\ UNCHANGED <<P, N, F, QL, items>>
        \/ Accept /\ UNCHANGED <<P, N, F, QL, items>>

Spec == Init /\ [][Next]_vars
=============================================================================
