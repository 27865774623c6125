---------------------------- MODULE MCEvolution -----------------------------
(* Runs of both algorithms with several workers that breed in parallel, in   *)
(* every interleaving of their steps (BreedMachine). Each step of a run that *)
(* the machine makes has to be one Evolution allows: where it is not, the    *)
(* run is stuck, which TLC reports as a deadlock. The invariants state the   *)
(* properties C03-C11 without the help of Evolution's transitions.           *)
EXTENDS Evolution, BreedMachine, Json, Randomization
CONSTANTS NGenes, FitOf, BadOf, Ovrs, Sizes, Elites0, CrossRates, MutRates, Algs, Modes, MaxIn, MaxGens,
          HookActs, \* what the hook may do: 0 nothing, 1 other rates, 2 another selector
          Workers,
          Emit      \* record and print the behaviours
VARIABLES work,   \* the workers
          done,   \* the finished breedings of this generation: <<record, result>>
          hist,   \* of all breedings, for the replay
          bests,  \* the best fitness of every population presented
          yes     \* how often the callback answered true
mcvars == <<evars, work, done, hist, bests, yes>>
aux == <<work, done, hist, bests, yes>>

Genes == 0..(NGenes - 1)
FitA == <<1, 0, 1>>
FitB == <<0, 1, 1, 2, 3>>
FitC == <<2, 2, 0, 1, 2, 3, 1>>
BadA == {<<>>, <<1>>}
BadB == {<<>>, <<4>>, <<0, 4>>}
BadC == {<<>>, <<5>>}
Imps == [k \in 1..NGenes |-> IF k = 2 THEN {1, 0} ELSE {k - 1}]
Range1 == {<<1000, 1000, 1000, 1000>>}
P(c, m) == [clo |-> c, chi |-> 1000, mlo |-> m, mhi |-> 1000, int |-> 1]
Cfgs == {[alg |-> a, mode |-> o, n |-> n, elite |-> e, cr |-> c, mr |-> m, p |-> P(c, m), wrapped |-> 1] :
            a \in Algs, o \in Modes, n \in Sizes, e \in Elites0, c \in CrossRates, m \in MutRates}
Ins(c) == CASE c.mode = "pop" -> UNION {[1..k -> Genes] : k \in 1..MaxIn}
            [] c.mode = "ind" -> {<<g>> : g \in Genes}
            [] OTHER -> {<<NGenes>>}

(* in a simulation only a few of the many ways to begin *)
Few(k, S) == IF Emit /\ Cardinality(S) > k THEN RandomSubset(k, S) ELSE S

(* ascending in fitness, and for equal fitness in genomes *)
RECURSIVE Arrange(_)
Arrange(S) == IF S = {} THEN <<>>
              ELSE LET x == CHOOSE y \in S : \A z \in S : F(y) < F(z) \/ (F(y) = F(z) /\ G(y) <= G(z))
                   IN  <<x>> \o Arrange(S \ {x})

Init ==
    /\ Idle /\ work = [k \in 1..Workers |-> Waiting] /\ done = <<>> /\ hist = <<>> /\ bests = <<>> /\ yes = 0
GoBegin ==
    /\ phase = "idle"
    /\ \E c \in Few(4, Cfgs) : c.elite < c.n /\ \E i \in Few(4, Ins(c)) : \E b \in BadOf : \E o \in Ovrs :
          Begin(c @@ [in |-> i], [fit |-> FitOf, bad |-> b, ovr |-> o])
    /\ UNCHANGED aux
GoStart ==
    /\ phase = "start"
    /\ CASE cfg.mode = "pop" -> Start(<<>>, cfg.in, <<>>)
         [] cfg.mode = "ind" ->
              \E t \in [1..(cfg.n - 1) -> Genes] : Start([k \in DOMAIN t |-> <<cfg.in[1], t[k]>>], cfg.in \o t, <<>>)
         [] OTHER -> \E t \in [1..cfg.n -> Genes] :
              Start([k \in DOMAIN t |-> <<-1, t[k]>>], t, [k \in DOMAIN t |-> cfg.in[1]])
    /\ UNCHANGED aux
GoInit ==
    /\ phase = "given"
    /\ IF \A g \in Range(given) : ~Valid(env, g) THEN Panics
       ELSE Initialize([k \in DOMAIN given |-> Ind(env, given[k])], Arrange(ValidOf(env, given)))
    /\ UNCHANGED aux
GoPresent ==
    /\ phase \in {"init", "made"}
    /\ \E ans \in (IF gen < MaxGens THEN {1} ELSE {}) \cup (IF Emit /\ gen < MaxGens THEN {} ELSE {0}) :
          Present(mem, gen, stag, ans) /\ yes' = yes + ans
    /\ bests' = Append(bests, MaxF(mem))
    /\ UNCHANGED <<work, done, hist>>
Adapted ==
    IF cfg.alg = "ga" THEN IF gen = 0 THEN <<cfg.cr, cfg.mr>> ELSE rates
    ELSE IF gen = 0 THEN <<cfg.p.chi, cfg.p.mlo>>
    ELSE IF ~Adapts(cfg.p, gen) THEN rates
    ELSE LET d == Diversity(Variance(Fs(mem)), ref) IN
         <<Scale(cfg.p.clo, cfg.p.chi, d), Scale(cfg.p.mlo, cfg.p.mhi, 1000 - d)>>
GoHook ==
    /\ phase = "asked"
    /\ \E a \in HookActs :
          Hook(mem, gen, Adapted, IF a = 1 THEN <<1000 - Adapted[1], 1000 - Adapted[2]>> ELSE Adapted,
               IF gen = 0 \/ a = 2 THEN sel + 1 ELSE sel)
    /\ UNCHANGED aux
GoPrepare == phase = "hooked" /\ PrepareSelector(sel, mem) /\ UNCHANGED aux
GoElites == phase \in {"asked", "hooked", "ready"} /\ kept = 0 /\ Elites(Tail0(mem, Min2(cfg.elite, Len(mem)))) /\ UNCHANGED aux

Busy == Cardinality({k \in DOMAIN work : work[k].pc \notin {"idle"}})
Wanted == cfg.n - Len(next)
GoWork ==
    /\ phase = "ready" /\ kept = 1
    /\ \E k \in DOMAIN work :
        /\ work[k].pc = "idle" => Len(done) + Busy < Wanted
        /\ \/ \E w \in Steps(env, mem, sel, rates[1], rates[2], Genes, Imps, work[k]) :
                work' = [work EXCEPT ![k] = w] /\ done' = done /\ hist' = hist
           \/ /\ work[k].pc = "done"
              /\ work' = [work EXCEPT ![k] = Waiting]
              /\ done' = Append(done, <<work[k].r, work[k].res>>)
              /\ hist' = IF Emit THEN Append(hist, Script(work[k].r)) ELSE hist
    /\ UNCHANGED <<evars, bests, yes>>
GoGenerate ==
    /\ phase = "ready" /\ kept = 1 /\ Len(done) = Wanted
    /\ Generate([k \in DOMAIN done |-> done[k][1]], next \o [k \in DOMAIN done |-> done[k][2]])
    /\ done' = <<>>
    /\ UNCHANGED <<work, hist, bests, yes>>
GoReplace ==
    /\ phase = "bred"
    /\ LET m == Arrange(Range(next)) IN
       Replaced(m, gen + 1, IF MaxF(m) > MaxF(mem) THEN 0 ELSE stag + 1)
    /\ UNCHANGED aux
GoEnd ==
    /\ phase = "stopped"
    /\ IF cfg.mode = "pop" THEN ReturnPopulation(mem, gen, stag)
       ELSE ReturnIndividual(CHOOSE x \in seen : F(x) = best)
    /\ UNCHANGED aux
Next == GoBegin \/ GoStart \/ GoInit \/ GoPresent \/ GoHook \/ GoPrepare \/ GoElites \/ GoWork \/ GoGenerate
        \/ GoReplace \/ GoEnd \/ (phase = "ended" /\ ~Emit /\ UNCHANGED mcvars)
Spec == Init /\ [][Next]_mcvars
FairSpec == Spec /\ WF_mcvars(Next)
RunEnds == <>(phase = "ended")  \* however the workers take turns: no run and no breeding goes on without end

Running == phase \notin {"idle", "start", "given", "ended"} /\ mem # <<>>
AllValid == Running => \A x \in Range(mem) \cup Range(next) \cup seen : Valid(env, G(x)) /\ x = Ind(env, G(x))  \* C11
Counted == Running =>                                                                          \* C03, C04
    /\ shown = Len(bests) /\ shown \in {gen, gen + 1}
    /\ yes = IF phase = "stopped" THEN gen ELSE IF phase \in {"init", "made"} THEN gen ELSE gen + 1
    /\ phase = "made" => stag = IF MaxF(mem) > bests[gen] THEN 0 ELSE stag
EliteKept == (Running /\ cfg.elite > 0) => \A k \in 1..(Len(bests) - 1) : bests[k + 1] >= bests[k]  \* C07
ElitesInside == phase = "bred" => \A x \in Range(Tail0(mem, EliteCount)) : x \in Range(next)
FullSize == phase = "bred" => Len(next) = cfg.n                                                  \* C08
BestReturned == phase = "stopped" => best = FoldSeq(LAMBDA x, a : Max2(x, a), -1, bests)          \* C06
BredFine == \A k \in DOMAIN done :                                                               \* C09, C10
    LET r == done[k][1] IN
    /\ SurvivalOK(env, r, done[k][2])
    /\ env.ovr = 0 => \A p \in Parents(r) : F(done[k][2]) >= Fit(env, p)
    /\ PipelineOK(r, mem, rates[1], rates[2])
RatesInside == (phase \in {"hooked", "ready"} /\ cfg.alg = "aga" /\ HookActs = {0}) => InRanges(cfg.p, rates)  \* C13
(* with the default rule and no elites the best may only be lost, never invented *)
NeverInvented == (Running /\ env.ovr = 0) => \A k \in DOMAIN bests : bests[k] <= best
(* [fit, bad, [n, elite, ovr, own, cr, mr, gens], input, scripts] *)
Emitted == (Emit /\ phase = "ended" /\ cfg.mode = "pop" /\ hist # <<>>) =>
    PrintT("REPLAY " \o ToJson(<<env.fit, env.bad, <<cfg.n, cfg.elite, env.ovr, Len(hist) % 2, cfg.cr, cfg.mr, gen>>, cfg.in, hist>>))
View == <<phase, given, cfg, env, mem, gen, stag, next, kept, breeds, rates, sel, ref, best, seen, shown, work, done, hist, bests>>
=============================================================================
