---------------------------- MODULE RepeatTrace ----------------------------
(* Accepts exactly the calls of operators that Repeats allows.               *)
EXTENDS Repeats, Json, IOUtils
VARIABLES c, l, s
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ s = Idle
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, s>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ \/ E.k = "seed" /\ s' = Seed(s, E.w, E.g)
       \/ /\ E.k = "call"
          /\ Req({"C35"}, E.panic = 0 /\ MayCall(s, E.w, E.c, E.g, E.r, E.to))
          /\ s' = Call(s, E.w, E.c, E.g, E.r, E.to)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
