-------------------------------- MODULE Breed --------------------------------
(* How one individual is bred (EvolutionModel::breed in src/model.rs).       *)
(*                                                                           *)
(* A breeding is recorded as a record of what the model and the selector     *)
(* were asked to do, in the order in which it happened:                      *)
(*   s  selections      <<selector, zero-based position, genome>>            *)
(*   x  crossovers      <<parent 1, parent 2, offspring>> (genomes)          *)
(*   m  mutations       <<before, after>>                                    *)
(*   i  improvements    <<before, after>>                                    *)
(*   v  evaluations     <<genome, fitness>>                                  *)
(*   k  survival rule   <<offspring, its fitness, parent, its fitness, answer>> *)
(*   o  the order: 1 select, 2 crossover, 3 mutate, 4 improve, 5 evaluate, 6 survive *)
(* Rates are in thousandths. An environment env gives what the model assigns *)
(* to genomes: env.fit[g + 1] is the fitness of genome g, env.bad the set of *)
(* the invalid genomes, env.ovr = 1 if the model overrides the survival rule.*)
EXTENDS Base

Fit(env, g) == env.fit[g + 1]
Valid(env, g) == g \notin Range(env.bad)
Ind(env, g) == <<g, Fit(env, g)>>
NoBreed == [s |-> <<>>, x |-> <<>>, m |-> <<>>, i |-> <<>>, v |-> <<>>, k |-> <<>>, o |-> <<>>]

Selected(r) == {r.s[j][3] : j \in DOMAIN r.s}
(* the genome the offspring started as; -1 if that was not recorded *)
Origin(r) ==
    IF r.x # <<>> THEN r.x[1][3]
    ELSE IF r.m # <<>> THEN r.m[1][1]
    ELSE IF r.i # <<>> THEN r.i[1][1]
    ELSE IF r.v # <<>> THEN r.v[1][1] ELSE -1
Parents(r) == IF r.x # <<>> THEN {r.x[Len(r.x)][1], r.x[Len(r.x)][2]} ELSE {Origin(r)} \ {-1}

(* C10 *)
PipelineOK(r, mem, cr, mr) ==
    /\ Len(r.x) <= 1 /\ Len(r.m) <= 1 /\ Len(r.i) = 1 /\ Len(r.v) = 1
    /\ r.s # <<>>
    /\ \A j \in 1..(Len(r.o) - 1) : r.o[j] <= r.o[j + 1]
    /\ IF r.x # <<>> THEN r.x[1][1] # r.x[1][2] /\ {r.x[1][1], r.x[1][2]} \subseteq Selected(r)
       ELSE Origin(r) \in Selected(r)
    /\ LET c1 == Origin(r)
           c2 == IF r.m # <<>> THEN r.m[1][2] ELSE c1
       IN  /\ r.m # <<>> => r.m[1][1] = c1
           /\ r.i[1][1] = c2
           /\ r.v[1][1] = r.i[1][2]
    /\ cr = 0 => r.x = <<>>
    /\ (cr = 1000 /\ r.x = <<>> /\ Len(mem) > 1) => Len(r.s) > 1 /\ Cardinality(Selected(r)) = 1
    /\ mr = 0 => r.m = <<>>
    /\ mr = 1000 => r.m # <<>>
(* C05: parents are selected by the selector in force, from the current population *)
SelectionsOK(r, mem, sel) ==
    /\ r.s # <<>>
    /\ \A j \in DOMAIN r.s :
         /\ r.s[j][1] = sel
         /\ r.s[j][2] + 1 \in DOMAIN mem /\ G(mem[r.s[j][2] + 1]) = r.s[j][3]
    /\ Parents(r) \subseteq {G(x) : x \in Range(mem)}

(* C09: what may come out *)
Better(env, P) == {p \in P : \A q \in P : Fit(env, q) <= Fit(env, p)}
Asked(env, r, off) ==
    \E j \in DOMAIN r.k :
        /\ r.k[j][1] = off /\ r.k[j][2] = Fit(env, off)
        /\ r.k[j][3] \in Better(env, Parents(r)) /\ r.k[j][4] = Fit(env, r.k[j][3])
Kept(env, r) ==
    LET off == r.v[Len(r.v)][1] IN
    /\ Valid(env, off)
    /\ IF env.ovr = 1 THEN r.k # <<>> /\ r.k[Len(r.k)][5] = 1
       ELSE \A p \in Parents(r) : Fit(env, off) >= Fit(env, p)
Outcomes(env, r) ==
    IF r.v = <<>> \/ Parents(r) = {} THEN {}
    ELSE IF Kept(env, r) THEN {Ind(env, r.v[Len(r.v)][1])}
    ELSE {Ind(env, p) : p \in Better(env, Parents(r))}
RuleAskedOK(env, r) ==
    (r.v # <<>> /\ env.ovr = 1 /\ Valid(env, r.v[Len(r.v)][1])) => Asked(env, r, r.v[Len(r.v)][1])
SurvivalOK(env, r, res) == r.v # <<>> /\ RuleAskedOK(env, r) /\ res \in Outcomes(env, r)
=============================================================================
