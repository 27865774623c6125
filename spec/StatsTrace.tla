------------------------------ MODULE StatsTrace ------------------------------
EXTENDS Stats, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ samples = <<>> /\ snaps = <<>>
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, samples, snaps>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ \/ E.k = "rec" /\ Record(E.x, E.st)
       \/ E.k = "collect" /\ Collect(E.st)
       \/ E.k = "snap" /\ Snapshot(E.st)
       \/ E.k = "conv" /\ Collect(E.st)
       \/ E.k = "text" /\ Text(E.st, E.dec)
       \/ E.k = "look" /\ Look(E.i, E.st)
       \/ E.k = "set" /\ Override(E.i, E.w, E.x, E.ok, E.st)
       \/ E.k = "panic" /\ Req({"C28"}, FALSE) /\ UNCHANGED <<samples, snaps>>
       \/ E.k = "bulk" /\ Bulk(E.xs, E.st, E.rt)
       \/ E.k = "many" /\ Many(E.runs, E.st, E.rt)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<samples, snaps, c, l>>
=============================================================================
