------------------------------ MODULE EvoTrace ------------------------------
(* Accepts exactly the recorded runs that are behaviours of Evolution.       *)
EXTENDS Evolution, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ Idle
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l>> /\ UNCHANGED evars
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ CASE E.k = "begin" -> Begin(E.cfg, E.env)
         [] E.k = "start" -> Start(E.made, E.in, E.args)
         [] E.k = "init" -> Initialize(E.evals, E.out)
         [] E.k = "cb" -> Present(E.mem, E.gen, E.stag, E.ans)
         [] E.k = "hook" -> Hook(E.mem, E.gen, E.before, E.after, E.sel)
         [] E.k = "prep" -> PrepareSelector(E.sel, E.mem)
         [] E.k = "elites" -> Elites(E.e)
         [] E.k = "gen" -> Generate(E.breeds, E.out)
         [] E.k = "rep" -> Replaced(E.mem, E.gen, E.stag)
         [] E.k = "turn" -> Turn(E.breeds, E.mem, E.gen, E.stag)
         [] E.k = "endi" -> ReturnIndividual(E.i)
         [] E.k = "endp" -> ReturnPopulation(E.mem, E.gen, E.stag)
         [] E.k = "aborted" -> Aborted
         [] E.k = "panic" -> Panics
         [] E.k = "stray" -> Stray(E.sel)
         [] E.k = "long" -> Long(E)
         [] E.k = "single" -> Single(E)
         [] E.k = "quota" -> Quota(E)
         [] E.k = "brood" -> Brood(E)
         [] E.k = "intake" -> Intake(E)
         [] E.k = "twin" -> Twins(E.a, E.b)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<evars, c, l>>
=============================================================================
