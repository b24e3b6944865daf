------------------------------ MODULE Builder -------------------------------
(* Building a grammar: the calls a user makes, and how the result is         *)
(* checked.  A call opens a rule, opens a production in the rule that is     *)
(* open, or adds an element to the production that is open; closing is       *)
(* implied.  Finish turns the rules into a map from heads to productions,    *)
(* walks it from the start symbol, and reports.                              *)
EXTENDS Gram

CONSTANTS NNT, NT, MaxRules, MaxProds, MaxLen,
          LastWins,     \* FALSE: the broken variant in which the first rule
                        \* of a head stays
          SeeStart      \* FALSE: the broken variant that walks from the
                        \* successors of the start symbol and does not count
                        \* the start symbol as seen

VARIABLES start, rules, ph,
          map,          \* the rule map
          todo, seen,   \* the walk
          report        \* "none", "ok", or the three sets

bvars == <<start, rules, ph, map, todo, seen, report>>

NTs == 1..NNT
Symbols == (1..NT) \cup { -A : A \in NTs }

d == [start |-> start, how |-> 0, rules |-> rules]

Init == /\ start \in NTs
        /\ rules = << >> /\ ph = "calls"
        /\ map = << >> /\ todo = {} /\ seen = {} /\ report = "none"

Walk0 == UNCHANGED <<start, map, todo, seen, report>>

LastR == Len(rules)
LastP == Len(rules[LastR].p)

AddRule(h) == /\ ph = "calls" /\ LastR < MaxRules
              /\ rules' = Append(rules, [h |-> h, p |-> << >>])
              /\ UNCHANGED ph /\ Walk0

AddProd == /\ ph = "calls" /\ LastR > 0 /\ LastP < MaxProds
           /\ rules' = [rules EXCEPT ![LastR].p =
                          Append(@, [k |-> LastP + 1, v |-> LastR, e |-> << >>, n |-> << >>])]
           /\ UNCHANGED ph /\ Walk0

AddElem(x) == /\ ph = "calls" /\ LastR > 0 /\ LastP > 0
              /\ Len(rules[LastR].p[LastP].e) < MaxLen
              /\ rules' = [rules EXCEPT ![LastR].p[LastP].e = Append(@, x),
                                        ![LastR].p[LastP].n = Append(@, 0)]
              /\ UNCHANGED ph /\ Walk0

Insert(m, r) == [ h \in DOMAIN m \cup {r.h} |->
                    IF h = r.h /\ (LastWins \/ h \notin DOMAIN m) THEN r.p ELSE m[h] ]

RECURSIVE MapOf(_, _)
MapOf(rs, m) == IF rs = << >> THEN m ELSE MapOf(Tail(rs), Insert(m, rs[1]))

Finish == /\ ph = "calls" /\ ph' = "walk"
          /\ map' = MapOf(rules, << >>)
          /\ todo' = (IF SeeStart THEN {start} ELSE Succs(map', start))
          /\ seen' = todo'
          /\ UNCHANGED <<start, rules, report>>

Visit(A) == /\ ph = "walk" /\ A \in todo
            /\ todo' = (todo \ {A}) \cup (Succs(map, A) \ seen)
            /\ seen' = seen \cup Succs(map, A)
            /\ UNCHANGED <<start, rules, ph, map, report>>

Report == /\ ph = "walk" /\ todo = {} /\ ph' = "end"
          /\ LET nr == { A \in UsedNTs(map) \cup {start} : A \notin DOMAIN map }
                 np == { A \in DOMAIN map : map[A] = << >> }
                 ur == { A \in UsedNTs(map) : A \notin seen }
             IN report' = IF nr = {} /\ np = {} /\ ur = {} THEN <<"ok">> ELSE <<nr, np, ur>>
          /\ UNCHANGED <<start, rules, map, todo, seen>>

Calls == (\E h \in NTs : AddRule(h)) \/ AddProd \/ \E x \in Symbols : AddElem(x)

Check == Finish \/ (\E A \in NTs : Visit(A)) \/ Report

----------------------------------------------------------------------------
\* The declarative account, from the calls alone.
ReportOk ==
  ph = "end" =>
    LET P == ProdsOf(d) IN
    /\ map = P
    /\ report = IF WellFormed(P, start) THEN <<"ok">>
                ELSE <<NoRule(P, start), NoProds(P), Unreach(P, start)>>

WalkOk == ph = "walk" => seen \subseteq ReachNTs(map, start)
=============================================================================
