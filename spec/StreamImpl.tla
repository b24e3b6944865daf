---------------------------- MODULE StreamImpl ------------------------------
(* How the streams are built: values share the buffer of tokens and differ   *)
(* in their position.  A buffer goes away with the last value that uses it.  *)
(* Model checked to refine Streams; every behaviour of N operations is also  *)
(* printed, to be replayed in the code.                                      *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N,         \* operations
          MaxLen,    \* tokens of an input
          InPlace    \* broken variant: reading moves the position itself

\* The inputs; a token is its kind and its value.
Inputs == { [ j \in 1..n |-> <<j, 4 + j>> ] : n \in 0..MaxLen }

VARIABLES bufs,      \* buffers: [toks, refs]
          vals,      \* values: [live, buf, pos]
          hist, done

ivars == <<bufs, vals, hist, done>>

Rest(v) == LET t == bufs[v.buf].toks IN SubSeq(t, v.pos + 1, Len(t))

\* The abstract values.
ss == [ i \in DOMAIN vals |-> [live |-> vals[i].live, rest |-> Rest(vals[i])] ]

S == INSTANCE Streams

Note(op) == hist' = Append(hist, op) /\ done' = FALSE

Init == bufs = << >> /\ vals = << >> /\ hist = << >> /\ done = FALSE

New(toks) ==
  /\ bufs' = Append(bufs, [toks |-> toks, refs |-> 1])
  /\ vals' = Append(vals, [live |-> TRUE, buf |-> Len(bufs) + 1, pos |-> 0])
  /\ Note([op |-> "new", toks |-> toks])

Share(i, p) ==
  /\ bufs' = [bufs EXCEPT ![vals[i].buf].refs = @ + 1]
  /\ vals' = Append(vals, [vals[i] EXCEPT !.pos = p])

Clone(i) == vals[i].live /\ Share(i, vals[i].pos) /\ Note([op |-> "clone", s |-> i])

Next1(i) ==
  /\ vals[i].live
  /\ IF vals[i].pos < Len(bufs[vals[i].buf].toks)
     THEN /\ bufs' = [bufs EXCEPT ![vals[i].buf].refs = @ + 1]
          /\ LET w == [vals[i] EXCEPT !.pos = @ + 1]
             IN vals' = Append(IF InPlace THEN [vals EXCEPT ![i] = w] ELSE vals, w)
     ELSE UNCHANGED <<bufs, vals>>
  /\ Note([op |-> "next", s |-> i])

Drop(i) ==
  /\ vals[i].live
  /\ vals' = [vals EXCEPT ![i].live = FALSE]
  /\ bufs' = [bufs EXCEPT ![vals[i].buf].refs = @ - 1]
  /\ Note([op |-> "drop", s |-> i])

Emit == /\ Len(hist) = N /\ ~done
        /\ PrintT(<<"BEH", ToJson(hist)>>)
        /\ done' = TRUE /\ UNCHANGED <<bufs, vals, hist>>

Next == \/ /\ Len(hist) < N
           /\ \/ \E t \in Inputs : New(t)
              \/ \E i \in DOMAIN vals : Clone(i) \/ Next1(i) \/ Drop(i)
        \/ Emit

Spec == Init /\ [][Next]_ivars

PositionOk == \A i \in DOMAIN vals : vals[i].pos \in 0..Len(bufs[vals[i].buf].toks)
\* A buffer that a live value uses is there.
Counted == \A b \in DOMAIN bufs :
             bufs[b].refs = Len(SelectSeq(vals, LAMBDA v : v.live /\ v.buf = b))

Refines == S!StreamInit /\ [][ \/ \E t \in Inputs : S!New(t)
                               \/ \E i \in DOMAIN vals :
                                    \/ S!Clone(i) \/ S!Drop(i) \/ S!AtEnd(i)
                                    \/ Rest(vals[i]) # << >> /\ S!Read(i, Rest(vals[i])[1]) ]_ss
Persists == S!Persistent
=============================================================================
