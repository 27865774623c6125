------------------------------ MODULE OrderTrace ------------------------------
EXTENDS Order, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ heap = {}
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, heap>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ \/ E.k = "cmp" /\ Compare(E.a, E.b, E.cf, E.oc, E.pc, E.ops)
       \/ E.k = "minmax" /\ MinMax(E.a, E.b, E.max, E.min)
       \/ E.k = "push" /\ Push(E.x)
       \/ E.k = "pop" /\ Pop(E.x)
       \/ E.k = "change" /\ Change(E.g, E.f)
       \/ E.k = "end" /\ Empty
Next == Step \/ Done
Spec == Init /\ [][Next]_<<heap, c, l>>
=============================================================================
