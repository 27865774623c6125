----------------------------- MODULE ModelTrace -----------------------------
(* Accepts exactly what the default methods of a model may do.               *)
EXTENDS Breed, Extend, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
(* how often crossover (cr) and mutation (mr, both in thousandths) happen in N   *)
(* breedings, together and alone, with a first parent in the lower and in the   *)
(* upper half: within six standard deviations                                *)
Expected(cr, mr, k) ==
    ((IF k % 2 = 0 THEN 1000 - cr ELSE cr) * (IF k < 2 THEN 1000 - mr ELSE mr)) \div 100
FreqOK(N, cr, mr, cells) ==
    \A k \in 0..7 :
        LET p == Expected(cr, mr, k % 4)
            q == (p + 1) \div 2
            d == cells[k + 1] * 10000 - (N \div 2) * p
            tol == 6 * ISqrt(N) * ISqrt(q * (10000 - q)) + 20000
        IN  IF p = 0 THEN cells[k + 1] <= 20 ELSE d <= tol /\ -d <= tol
Breeding ==
    LET r == E.rs[1] IN
    /\ Req({"C09", "C10", "C05"}, Len(E.rs) = 1)
    /\ Req({"C05"}, SelectionsOK(r, E.mem, E.sel))
    /\ Req({"C10"}, PipelineOK(r, E.mem, E.cr, E.mr))
    /\ Req({"C09"}, SurvivalOK(E.env, r, E.res))
Init == c \in 1..Len(Cases) /\ l = 0
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ CASE E.k = "breed" -> Breeding
         [] E.k = "altered" -> Req({"C09"}, FALSE)
         [] E.k = "freq" -> Req({"C10"}, FreqOK(E.N, E.cr, E.mr, E.cells))
         [] E.k = "many" -> Req({"C12"}, ExtendedMany(E))
         [] E.k = "ext" -> Req({"C12"},
                /\ E.ok = 1 /\ E.stray = 0
                /\ IF E.kind = "rand" THEN ExtendedRandomly(E.before, E.after, E.n, E.made, E.args, E.arg)
                   ELSE E.args = <<>> /\ ExtendedWith(E.before, E.after, E.n, E.made, E.model))
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
