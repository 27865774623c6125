------------------------------ MODULE LerpTrace ------------------------------
EXTENDS Interpolation, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ \/ E.k = "usize" /\ CallUsize(E)
       \/ E.k = "float" /\ CallFloat(E)
       \/ E.k = "sweep" /\ Sweep(E)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
