----------------------------- MODULE EngineTrace ----------------------------
(* Accepts exactly the recorded runs of user-made algorithms that are        *)
(* behaviours of Engine.                                                     *)
EXTENDS Engine, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ Idle
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l>> /\ UNCHANGED nvars
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ CASE E.k = "begin" -> Begin(E.cfg)
         [] E.k = "ext" -> Extend(E.kind, E.n, E.arg, E.had, E.out)
         [] E.k = "conf" -> Configure(E.p)
         [] E.k = "init" -> Initialize(E.act, E.in, E.out, E.gen)
         [] E.k = "panic" -> Panics
         [] E.k = "cb" -> Present(E.mem, E.gen, E.stag, E.ans)
         [] E.k = "prep" -> Prepare(E.mem, E.gen, E.want)
         [] E.k = "elites" -> Elites(E.act, E.mem, E.before, E.after)
         [] E.k = "gen" -> Generate(E.act, E.mem, E.before, E.after, E.bred)
         [] E.k = "rep" -> Replace(E.act, E.mem, E.before, E.out, E.gen, E.stag)
         [] E.k = "whole" -> Whole(E.bred, E.mem, E.gen, E.stag)
         [] E.k = "pick" -> Pick(E.first, E.excl, E.second, E.crossed)
         [] E.k = "rule" -> Rule(E.parents, E.made, E.valid, E.asked, E.answer, E.res)
         [] E.k = "endi" -> EndWith(E.i)
         [] E.k = "endp" -> EndAll(E.mem, E.gen, E.stag)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<nvars, c, l>>
=============================================================================
