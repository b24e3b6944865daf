-------------------------------- MODULE Shows -------------------------------
(* The text of lists, sets, tuples and structs of things, as printed by the  *)
(* formatting helpers (C29): on one line, or spread over lines.              *)
(*                                                                           *)
(* A thing is [k, v, n, f, c]: its form k, a number v, a name n, the names f *)
(* of the fields of a struct, and the things c in it.                        *)
EXTENDS Integers, Sequences, TLC

Quote == "\""

RECURSIVE Join(_)
Join(ss) == IF ss = << >> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Join(Tail(ss))

RECURSIVE Plain(_)
Plain(x) ==
  LET In == [ i \in DOMAIN x.c |-> Plain(x.c[i]) ]
  IN CASE x.k = "int"    -> ToString(x.v)
       [] x.k = "str"    -> Quote \o x.n \o Quote
       [] x.k = "list"   -> "[" \o Join(In) \o "]"
       [] x.k = "set"    -> "{" \o Join(In) \o "}"
       [] x.k = "tuple"  -> IF x.c = << >> THEN x.n
                            ELSE x.n \o "(" \o Join(In) \o (IF x.n = "" /\ Len(x.c) = 1 THEN ",)" ELSE ")")
       [] x.k = "struct" -> IF x.c = << >> THEN x.n
                            ELSE x.n \o " { " \o Join([ i \in DOMAIN In |-> x.f[i] \o ": " \o In[i] ]) \o " }"

\* Indented, with the prefix p before and a comma after.
Inside(ls, p) == [ i \in DOMAIN ls |-> "    " \o (IF i = 1 THEN p ELSE "") \o ls[i] \o (IF i = Len(ls) THEN "," ELSE "") ]

RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Concat(Tail(ss))

RECURSIVE Pretty(_)
Pretty(x) ==
  LET Body(P(_)) == Concat([ i \in DOMAIN x.c |-> Inside(Pretty(x.c[i]), P(i)) ])
      None(i) == ""
      Field(i) == x.f[i] \o ": "
      Wrap(open, close, P(_)) == <<open>> \o Body(P) \o <<close>>
  IN IF x.k \in {"int", "str"} \/ x.c = << >> THEN <<Plain(x)>>
     ELSE CASE x.k = "list"   -> Wrap("[", "]", None)
            [] x.k = "set"    -> Wrap("{", "}", None)
            [] x.k = "tuple"  -> Wrap(x.n \o "(", ")", None)
            [] x.k = "struct" -> Wrap(x.n \o " {", "}", Field)
=============================================================================
