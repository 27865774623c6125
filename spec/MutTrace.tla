------------------------------ MODULE MutTrace ------------------------------
EXTENDS Mutation, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l>>
(* over many calls on the genome a, the results o were seen *)
Reached(op, a, seen) ==
    LET S == Range(seen) IN
    /\ op \in {"swap", "inversion", "duplicate"} /\ Len(a) <= 8 => S = Results(op, a)
    /\ op = "scramble" /\ Len(a) <= 4 => S = Results(op, a)
    /\ op \in {"swap", "inversion", "duplicate", "scramble"} =>
          \A k \in DOMAIN a : \E o \in S : o[k] # a[k]
(* the places that were changed; how often the distance between the outermost *)
(* of them was in each tenth of the places                                    *)
Touched(op, n, places, spans) ==
    op \in {"swap", "inversion", "duplicate", "scramble"} =>
        /\ Range(places) = 1..n
        /\ op # "duplicate" /\ n >= 40 => \A j \in 1..10 : spans[j] > 0
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ \/ E.k = "mut" /\ Req({"C26"}, MutationOK(E.op, E.a, E.o))
       \/ E.k = "pan" /\ Req({"C26"}, FALSE)
       \/ E.k = "reach" /\ Req({"C27"}, Reached(E.op, E.a, E.seen))
       \/ E.k = "touch" /\ Req({"C27"}, Touched(E.op, E.n, E.places, E.spans))
       \/ E.k = "pair" /\ Req({"C27"}, PairsOK(E.n, E.N, E.cnt))
       \/ E.k = "range" /\ Req({"C27"}, RangesOK(E.n, E.lo, E.hi, E.N, E.cnt))
       \/ E.k = "many" /\ Req({"C27"}, ManyPairsOK(E.n, E.N, E.tens, E.both, E.half, E.ends, E.each))
       \/ E.k = "wide" /\ Req({"C27"}, WideRangesOK(E.lens, E.one, E.room, E.N, E.len, E.start, E.half, E.ends))
       \/ E.k = "orders" /\ Req({"C27"}, OrdersOK(E.n, E.N, E.cnt))
       \/ E.k = "moved" /\ Req({"C27"}, MovedOK(E))
       \/ E.k = "refuse" /\ Req({"C27"}, (E.panic = 1) = ~Admits(E.op, E.n, E.lo, E.hi))
       \/ E.k = "rpan" /\ Req({"C27"}, FALSE)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
