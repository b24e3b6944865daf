------------------------------- MODULE Passes -------------------------------
(* Analyses and their contexts (C12).  conf describes the analyses:          *)
(*   conf.p[i] = [deps, fail]: the analyses it asks for, as <<distance to    *)
(*     the context, analysis>>, and whether it fails: "no", "before" or      *)
(*     "after" asking, or never for others' errors ("swallow");              *)
(*   conf.starts: for each context, the start symbol of its grammar.         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES conf,
          stack,     \* queries in progress: [c, p, ph, di, err, v]; ph is
                     \* "asked", "runs" or "ended"; di counts what was asked
          res,       \* results: <<c, p>> to serial numbers
          failed     \* errors: <<c, p>> to error numbers

pvars == <<conf, stack, res, failed>>

PassInit == stack = << >> /\ res = << >> /\ failed = << >>

Contexts == 1..Len(conf.starts)
Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
SetTop(f) == stack' = Append(Rest, f)

Running(c, p) == \E i \in DOMAIN stack : stack[i].ph = "runs" /\ stack[i].c = c /\ stack[i].p = p

Frame(c, p) == [c |-> c, p |-> p, ph |-> "asked", di |-> 0, err |-> 0, v |-> 0]

\* What a running analysis asks for next: <<context, analysis>>.
NextDep(f) == LET d == conf.p[f.p].deps[f.di + 1]
              IN <<((f.c - 1 + d[1]) % Len(conf.starts)) + 1, d[2]>>
HasNext(f) == /\ f.ph = "runs" /\ f.err = 0
              /\ conf.p[f.p].fail # "before"
              /\ f.di < Len(conf.p[f.p].deps)

\* A query: from outside, or from the analysis that runs.
Get(c, p) ==
  /\ \/ stack = << >> /\ stack' = <<Frame(c, p)>>
     \/ stack # << >> /\ HasNext(Top) /\ NextDep(Top) = <<c, p>>
        /\ stack' = Append(Append(Rest, [Top EXCEPT !.di = @ + 1]), Frame(c, p))
  /\ UNCHANGED <<conf, res, failed>>

Asked(c, p) == stack # << >> /\ Top.ph = "asked" /\ Top.c = c /\ Top.p = p

\* It is computed now: it must be neither there nor under way.
Run(c, p, start) ==
  /\ Asked(c, p)
  /\ ~Running(c, p) /\ <<c, p>> \notin DOMAIN res
  /\ start = conf.starts[c]
  /\ SetTop([Top EXCEPT !.ph = "runs"])
  /\ UNCHANGED <<conf, res, failed>>

\* The computation ends: v is the serial number or the error.
ErrOf(f) == IF conf.p[f.p].fail = "before" THEN f.p
            ELSE IF f.err # 0 THEN f.err
            ELSE IF conf.p[f.p].fail = "after" THEN f.p ELSE 0

Done(c, p, out, v) ==
  /\ stack # << >> /\ Top.ph = "runs" /\ Top.c = c /\ Top.p = p /\ ~HasNext(Top)
  /\ IF ErrOf(Top) = 0
     THEN /\ out = "ok" /\ \A x \in DOMAIN res : res[x] # v
          /\ res' = Put(res, <<c, p>>, v) /\ UNCHANGED failed
     ELSE /\ out = "err" /\ v = ErrOf(Top)
          /\ failed' = Put(failed, <<c, p>>, v) /\ UNCHANGED res
  /\ SetTop([Top EXCEPT !.ph = "ended", !.v = v, !.err = ErrOf(Top)])
  /\ UNCHANGED conf

\* The answer to a query.
Returns(f) == stack' = IF Rest = << >> THEN << >>
                       ELSE LET g == Rest[Len(Rest)]
                                e == IF conf.p[g.p].fail = "swallow" THEN 0 ELSE f
                            IN [Rest EXCEPT ![Len(Rest)].err = IF @ = 0 THEN e ELSE @]

\* There, from before or just now: the same for every query.
GotOk(c, p, v, start) ==
  /\ stack # << >> /\ Top.c = c /\ Top.p = p /\ Top.ph \in {"asked", "ended"} /\ Top.err = 0
  /\ <<c, p>> \in DOMAIN res /\ v = res[<<c, p>>]
  /\ start = conf.starts[c]
  /\ Returns(0)
  /\ UNCHANGED <<conf, res, failed>>

\* Failed, just now or before.
GotErr(c, p, v) ==
  /\ stack # << >> /\ Top.c = c /\ Top.p = p
  /\ \/ Top.ph = "ended" /\ Top.err # 0
     \/ Top.ph = "asked" /\ ~Running(c, p) /\ <<c, p>> \in DOMAIN failed
  /\ v = failed[<<c, p>>]
  /\ Returns(v)
  /\ UNCHANGED <<conf, res, failed>>

\* Asked for while it is being computed: all ends with a panic.
Panic == /\ stack # << >> /\ Top.ph = "asked" /\ Running(Top.c, Top.p)
         /\ UNCHANGED pvars
=============================================================================
