------------------------------ MODULE PopTrace ------------------------------
(* Accepts exactly the recorded histories of real populations that are       *)
(* behaviours of Population. A history that is none ends in a deadlock.      *)
EXTENDS Population, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]

Init == c \in 1..Len(Cases) /\ l = 0 /\ pop = NoPop
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, pop>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ \/ E.k = "new" /\ New(E.in, E.out, E.gen, E.stag, E.st, E.fit)
       \/ E.k = "rep" /\ Replace(E.in, E.left, E.out, E.gen, E.stag, E.st, E.fit)
       \/ E.k = "take" /\ TakeFittest(E.fit)
       \/ E.k = "vec" /\ IntoMembers(E.out)
       \/ E.k = "panic" /\ Req({IF E.op = "take" THEN "C02" ELSE "C01"}, FALSE) /\ UNCHANGED pop
       \/ E.k = "crowd" /\ Crowd(E)
       \/ E.k = "ages" /\ Ages(E)
       \/ E.k = "empty" /\ Req({"C01"}, \A k \in DOMAIN E.res : E.res[k] = "refused") /\ UNCHANGED pop
Next == Step \/ Done
Spec == Init /\ [][Next]_<<pop, c, l>>
=============================================================================
