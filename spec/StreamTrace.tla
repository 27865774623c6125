---------------------------- MODULE StreamTrace ----------------------------
(* Accepts exactly the uses of generators that Streams allows.               *)
EXTENDS Streams, Json, IOUtils
VARIABLES c, l, s, limit
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ s = Fresh /\ limit = 0
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, s, limit>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ \/ E.k = "run" /\ limit' = E.threads /\ s' = [s EXCEPT !.bred = {}]
       \/ E.k = "new" /\ s' = Made(s, E.g) /\ UNCHANGED limit
       \/ /\ E.k = "take"
          /\ Req({"C34"}, MayTake(s, E.t, E.g, E.p, E.breed = 1, limit))
          /\ s' = Take(s, E.t, E.g, E.p, E.breed = 1) /\ UNCHANGED limit
       \/ /\ E.k = "draw"
          /\ Req({"C34"}, MayDraw(s, E.t, E.g, E.p))
          /\ s' = Draw(s, E.t, E.g, E.p) /\ UNCHANGED limit
       \/ /\ E.k = "give"
          /\ Req({"C34"}, MayDraw(s, E.t, E.g, E.p))
          /\ s' = Give(s, E.t, E.g, E.p) /\ UNCHANGED limit
       \/ /\ E.k = "end"      \* everything that was asked for was bred
          /\ Req({"C34"}, s.held = {} /\ E.panic = 0 /\ E.foreign = 0)
          /\ UNCHANGED <<s, limit>>
       \/ /\ E.k = "long"     \* a long run, counted: generators, and uses that do not go on
          /\ Req({"C34"}, E.bred <= E.threads /\ E.back = 0 /\ E.mixed = 0 /\ E.foreign = 0 /\ E.panic = 0)
          /\ UNCHANGED <<s, limit>>
       \/ /\ E.k = "twin"     \* one thread: the numbers of all breedings; the run was repeated
          /\ Req({"C34"}, E.a = E.b /\ Cardinality(Range(E.first)) = Len(E.first))
          /\ UNCHANGED <<s, limit>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l, s, limit>>
=============================================================================
