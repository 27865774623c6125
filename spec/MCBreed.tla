------------------------------ MODULE MCBreed -------------------------------
(* Every breeding over a few genomes, with every model and all rates 0, 1    *)
(* and in between; the machine must satisfy C05, C09 and C10.                *)
EXTENDS BreedMachine, Json
CONSTANTS NGenes, MaxFit, MaxMem, Emit
VARIABLES env, mem, cr, mr, w
Genes == 0..(NGenes - 1)
Imps == <<{0}, {1, 0}, {2}, {3, 2}>>
Envs == {[fit |-> f, bad |-> b, ovr |-> o] : f \in [1..NGenes -> 0..MaxFit], b \in {<<>>, <<0>>, <<NGenes - 1>>}, o \in {0, 1}}
Pops(e) == {s \in UNION {[1..n -> Genes] : n \in 1..MaxMem} :
               /\ Distinct(s) /\ \A k \in DOMAIN s : Valid(e, s[k])
               /\ \A k \in 1..(Len(s) - 1) : Fit(e, s[k]) <= Fit(e, s[k + 1])}
Sel == 1
Init ==
    /\ env \in Envs
    /\ \E s \in Pops(env) : mem = [k \in DOMAIN s |-> Ind(env, s[k])]
    /\ cr \in {0, 500, 1000} /\ mr \in {0, 500, 1000}
    /\ w = Waiting
Next == /\ w' \in Steps(env, mem, Sel, cr, mr, Genes, Imps, w)
        /\ UNCHANGED <<env, mem, cr, mr>>
Spec == Init /\ [][Next]_<<env, mem, cr, mr, w>>

Finished == w.pc = "done"
(* C10, C05 *)
Piped == Finished => PipelineOK(w.r, mem, cr, mr) /\ SelectionsOK(w.r, mem, Sel)
(* C09, by the outcome predicate that judges the code, and as it is stated *)
Survived == Finished => SurvivalOK(env, w.r, w.res)
NeverWorse == Finished =>
    /\ Valid(env, G(w.res)) /\ w.res = Ind(env, G(w.res))
    /\ env.ovr = 0 => \A k \in DOMAIN w.p : F(w.res) >= Fit(env, w.p[k])
    /\ w.res = Ind(env, w.cur) \/ w.res \in Range(mem)
(* the predicates are not satisfied by everything: broken machines are refused *)
Invalid(e) == CHOOSE g \in Genes : ~Valid(e, g)
Refuses == Finished =>
    /\ ~PipelineOK([w.r EXCEPT !.v = <<>>], mem, cr, mr)
    /\ ~PipelineOK([w.r EXCEPT !.i = <<>>], mem, cr, mr)
    /\ ~PipelineOK([w.r EXCEPT !.m = @ \o <<<<0, 0>>, <<0, 0>>>>], mem, cr, mr)
    /\ ~SelectionsOK(w.r, mem, Sel + 1)
    /\ \A g \in Genes : (~Valid(env, g) /\ w.cur # g) => ~SurvivalOK(env, w.r, Ind(env, g))
    /\ (env.ovr = 0 /\ Fit(env, w.cur) < F(w.res) /\ w.cur # G(w.res)) => ~SurvivalOK(env, w.r, Ind(env, w.cur))
(* [fit, bad, [ovr, own, cr, mr], members, script] *)
Emitted == (Emit /\ Finished /\ cr # 500 /\ mr # 500) =>
    \A own \in {0, 1} : PrintT("REPLAY " \o ToJson(
        <<env.fit, env.bad, <<env.ovr, own, cr, mr>>, [k \in DOMAIN mem |-> G(mem[k])], Script(w.r)>>))
=============================================================================
