------------------------------ MODULE Evolution ------------------------------
(* A run of an evolution (src/evolution.rs, src/algorithms.rs, ga.rs,        *)
(* aga.rs): configuration, initial population, and then per generation: the  *)
(* callback is asked, the model's hook and the selector are prepared, the    *)
(* elites are kept, the rest is bred (by any number of workers; see Breed),  *)
(* and the population is replaced.                                           *)
(*                                                                           *)
(* cfg = [alg ("ga" | "aga"), mode ("pop" | "ind" | "rand"), n, elite, cr,   *)
(* mr, p (the ranges and the interval of the adaptive algorithm), in (the    *)
(* genomes the run starts from), wrapped (1: every step of the algorithm is  *)
(* seen; 0: only what the model and the callback see)].                      *)
EXTENDS Breed, Adaptive

VARIABLES phase,    \* idle, start, given, init, asked, hooked, ready, bred, made,
                    \* stopped, aborting, ended
          cfg, env, \* this run's parameters, and the model
          mem, gen, stag,  \* the population
          given,    \* the genomes of the initial individuals
          next,     \* the next population, while it is built
          kept,     \* 1: the elites are in it (before or after the hook and the selector)
          breeds,   \* the breedings for it
          rates,    \* <<crossover, mutation>> in force
          sel,      \* the selector in force
          ref,      \* the reference variance (adaptive)
          best,     \* the best fitness presented so far
          seen,     \* all individuals presented so far
          shown     \* the number of populations presented

evars == <<phase, given, cfg, env, mem, gen, stag, next, kept, breeds, rates, sel, ref, best, seen, shown>>
NoCfg == [alg |-> "none"]
NoEnv == [fit |-> <<>>]
Idle ==
    /\ phase = "idle" /\ given = <<>> /\ cfg = NoCfg /\ env = NoEnv /\ mem = <<>> /\ gen = 0 /\ stag = 0 /\ next = <<>> /\ kept = 0
    /\ breeds = <<>> /\ rates = <<0, 0>> /\ sel = 0 /\ ref = <<0, 1>> /\ best = -99999 /\ seen = {} /\ shown = 0

(* A run begins: nothing of earlier runs is left. *)
Begin(c, e) ==
    /\ phase \in {"idle", "ended"}
    /\ phase' = "start" /\ given' = <<>> /\ cfg' = c /\ env' = e
    /\ mem' = <<>> /\ gen' = 0 /\ stag' = 0 /\ next' = <<>> /\ kept' = 0 /\ breeds' = <<>>
    /\ rates' = <<0, 0>> /\ sel' = 0 /\ ref' = <<0, 1>> /\ best' = -99999 /\ seen' = {} /\ shown' = 0

(* C12: what a run starts from. made: for each generated or mutated genome   *)
(* <<what it was made from, it>>; args: what the random ones were asked for. *)
Made(made) == [k \in DOMAIN made |-> made[k][2]]
StartedFrom(c, made, in, args) ==
    CASE c.mode = "rand" ->
           /\ Len(made) = c.n /\ Len(args) = c.n
           /\ \A k \in DOMAIN made : made[k][1] = -1
           /\ \A k \in DOMAIN args : args[k] = c.in[1]
           /\ c.wrapped = 1 => SameBag(in, Made(made))
      [] c.mode = "ind" ->
           /\ Len(made) = c.n - 1 /\ \A k \in DOMAIN made : made[k][1] = c.in[1]
           /\ c.wrapped = 1 => in # <<>> /\ in[1] = c.in[1] /\ SameBag(Tail(in), Made(made))
      [] OTHER -> made = <<>> /\ (c.wrapped = 1 => in = c.in)
Start(made, in, args) ==
    /\ Req({"C04"}, phase = "start")
    /\ Req({"C12"}, StartedFrom(cfg, made, in, args))
    /\ phase' = "given"
    /\ given' = IF cfg.wrapped = 1 THEN in
                ELSE CASE cfg.mode = "rand" -> Made(made)
                       [] cfg.mode = "ind" -> cfg.in \o Made(made)
                       [] OTHER -> cfg.in
    /\ UNCHANGED <<cfg, env, mem, gen, stag, next, kept, breeds, rates, sel, ref, best, seen, shown>>
(* C11: the initial population. evals: the evaluations made for it.          *)
ValidOf(e, in) == {Ind(e, g) : g \in {x \in Range(in) : Valid(e, x)}}
Evaluated(e, in, evals) == SameBag(evals, [k \in DOMAIN in |-> Ind(e, in[k])])
Initialize(evals, out) ==
    /\ Req({"C04"}, phase = "given")
    /\ Req({"C11"}, Evaluated(env, given, evals) /\ Range(out) = ValidOf(env, given))
    /\ phase' = "init" /\ mem' = out /\ gen' = 0 /\ stag' = 0
    /\ UNCHANGED <<given, cfg, env, next, kept, breeds, rates, sel, ref, best, seen, shown>>
(* C11: a run without a valid individual panics before its callback is asked; *)
(* no other run does (C08, C04).                                              *)
Panics ==
    /\ Req({"C04", "C11"}, phase = "given" => \A g \in Range(given) : ~Valid(env, g))
    /\ Req({"C04", "C08"}, phase = "given")
    /\ phase' = "ended"
    /\ UNCHANGED <<given, cfg, env, mem, gen, stag, next, kept, breeds, rates, sel, ref, best, seen, shown>>
(* The callback itself panicked: the run is over, whatever it had.            *)
Aborted ==
    /\ Req({"C04"}, phase = "aborting")
    /\ phase' = "ended"
    /\ UNCHANGED <<given, cfg, env, mem, gen, stag, next, kept, breeds, rates, sel, ref, best, seen, shown>>
(* Work of the model or the selector at a time at which there is none to do.  *)
Stray(selected) ==
    /\ Req({"C04", "C05", "C10"}, selected = 0)
    /\ Req({"C10", "C11"}, selected # 0)
    /\ UNCHANGED evars

(* The elites and the bred individuals make up the next population.          *)
EliteCount == Min2(cfg.elite, Len(mem))
ElitesOK(m, e, n) ==   \* e are n fittest members of m
    /\ Len(e) = n /\ Distinct(e) /\ Range(e) \subseteq Range(m)
    /\ \A x \in Range(m) \ Range(e) : \A y \in Range(e) : F(x) <= F(y)
(* Can the bag out be what the breedings yield, each one of its possible     *)
(* outcomes os[k]? A matching is built by augmenting paths: asg is what is   *)
(* assigned so far, dem how often an outcome is wanted, vis what was tried.  *)
Free == <<>>
RECURSIVE Try(_, _, _, _, _), Move(_, _, _, _, _)
Try(os, dem, asg, b, vis) ==
    LET cand == os[b] \ vis IN
    IF cand = {} THEN <<FALSE, asg, vis>>
    ELSE LET x == CHOOSE y \in cand : TRUE
             users == {k \in DOMAIN asg : asg[k] = x}
             want == IF x \in DOMAIN dem THEN dem[x] ELSE 0
         IN  IF Cardinality(users) < want THEN <<TRUE, [asg EXCEPT ![b] = x], vis>>
             ELSE LET r == Move(os, dem, asg, {k \in users : Cardinality(os[k]) > 1}, vis \cup {x})
                  IN  IF r[1] THEN <<TRUE, [r[2] EXCEPT ![b] = x], r[3]>>
                      ELSE Try(os, dem, asg, b, r[3])
Move(os, dem, asg, users, vis) ==   \* can one of the users do with something else?
    IF users = {} THEN <<FALSE, asg, vis>>
    ELSE LET u == CHOOSE k \in users : TRUE
             r == Try(os, dem, asg, u, vis)
         IN  IF r[1] THEN r ELSE Move(os, dem, asg, users \ {u}, r[3])
RECURSIVE Assign(_, _, _, _)
Assign(os, dem, asg, b) ==
    IF b > Len(os) THEN TRUE
    ELSE LET r == Try(os, dem, asg, b, {}) IN r[1] /\ Assign(os, dem, r[2], b + 1)
Match(e, bs, out) ==
    /\ Len(bs) = Len(out)
    /\ LET os == [k \in DOMAIN bs |-> Outcomes(e, bs[k])]
           dem == [x \in Range(out) |-> Count(out, x)]
       IN  Assign(os, dem, [k \in DOMAIN bs |-> Free], 1)
(* out without the elites *)
RECURSIVE Without(_, _)
Without(out, e) ==
    IF e = <<>> THEN out
    ELSE IF Head(e) \in Range(out) THEN Without(RemoveAt(out, CHOOSE j \in DOMAIN out : out[j] = Head(e)), Tail(e))
    ELSE Without(out, Tail(e))

(* C07, C08, C09 when only the next population is seen: it consists of elites and bred individuals *)
TurnOK(m, e, bs, n, elite, out) ==
    LET k == Min2(elite, Len(m))
        sure(x) == Cardinality({y \in Range(m) : F(y) >= F(x)}) <= k   \* x is an elite however ties are broken
        maybe(x) == Cardinality({y \in Range(m) : F(y) > F(x)}) < k
        results == UNION {Outcomes(e, bs[j]) : j \in DOMAIN bs}
    IN  /\ Req({"C08"}, Len(bs) = n - k)
        /\ Req({"C07"}, /\ \A x \in Range(m) : sure(x) => x \in Range(out)
                        /\ \A x \in Range(out) : x \in results \/ (x \in Range(m) /\ maybe(x)))
        /\ Req({"C08", "C09"}, \A j \in DOMAIN bs : Outcomes(e, bs[j]) = {} \/ Outcomes(e, bs[j]) \cap Range(out) # {})
        /\ Req({"C09"}, \A j \in DOMAIN bs : RuleAskedOK(e, bs[j]))

(* The callback is asked (C04). In a run that is seen from outside only, the *)
(* population has been replaced before.                                      *)
Present(m, g, st, ans) ==
    /\ Req({"C04"}, phase \in {"init", "made"})
    /\ Req({"C04"}, g = shown)
    /\ Req({"C04"}, m = mem)
    /\ Req({"C11"}, \A x \in Range(m) : Valid(env, G(x)) /\ x = Ind(env, G(x)))
    /\ Req({"C03"}, g = gen /\ st = stag)
    /\ Req({"C07"}, (cfg.elite > 0 /\ shown > 0) => MaxF(m) >= MaxF(mem))
    /\ phase' = IF ans = 1 THEN "asked" ELSE IF ans = 2 THEN "aborting" ELSE "stopped"
    /\ shown' = shown + 1
    /\ mem' = m /\ gen' = g /\ stag' = st
    /\ best' = Max2(best, MaxF(m)) /\ seen' = seen \cup Range(m)
    /\ next' = <<>> /\ kept' = 0 /\ breeds' = <<>>
    /\ UNCHANGED <<given, cfg, env, rates, sel, ref>>

(* The model's hook (C05). before: the rates it was given (in a GA they are  *)
(* the configured ones at first, in an AGA they are adapted now: C13); after *)
(* and s: the rates and the selector it left.                                *)
Hook(m, g, before, after, s) ==
    LET stated == IF cfg.alg = "ga" /\ g = 0 THEN <<cfg.cr, cfg.mr>> ELSE rates IN
    /\ Req({"C04", "C05"}, phase = "asked")
    /\ Req({"C05"}, m = mem /\ g = gen)
    /\ IF cfg.alg = "ga" THEN Req({"C05", "C15"}, before = stated)
       ELSE /\ Req({"C13", "C15"}, RatesOK(cfg.p, g, Fs(m), ref, rates, before))
            (* what the hook sets itself may be outside the ranges *)
            /\ Req({"C13"}, Adapts(cfg.p, g) => InRanges(cfg.p, before))
            /\ Req({"C05"}, ~Adapts(cfg.p, g) => before = rates)
    /\ phase' = "hooked"
    /\ rates' = after /\ sel' = s
    /\ ref' = RefNext(cfg.p, g, Fs(m), ref)
    /\ UNCHANGED <<given, cfg, env, mem, gen, stag, next, kept, breeds, best, seen, shown>>
(* The selector is prepared (C05). *)
PrepareSelector(s, m) ==
    /\ Req({"C05"}, phase = "hooked" /\ m = mem)
    /\ Req({"C05", "C15"}, s = sel)
    /\ phase' = "ready"
    /\ UNCHANGED <<given, cfg, env, mem, gen, stag, next, kept, breeds, rates, sel, ref, best, seen, shown>>
Elites(e) ==
    /\ Req({"C04", "C07"}, phase \in {"asked", "hooked", "ready"} /\ kept = 0)
    /\ Req({"C07"}, ElitesOK(mem, e, EliteCount))
    /\ kept' = 1 /\ next' = e
    /\ UNCHANGED <<phase, given, cfg, env, mem, gen, stag, breeds, rates, sel, ref, best, seen, shown>>
BreedOK(r) ==
    /\ Req({"C05"}, SelectionsOK(r, mem, sel))
    /\ Req({"C15"}, \A j \in DOMAIN r.s : r.s[j][1] = sel)
    /\ Req({"C10"}, PipelineOK(r, mem, rates[1], rates[2]))
    /\ Req({"C05"}, /\ rates[1] = 0 => r.x = <<>>
                    /\ rates[2] = 0 => r.m = <<>>
                    /\ rates[2] = 1000 => r.m # <<>>)
    /\ Req({"C09"}, RuleAskedOK(env, r))
(* All breedings of a generation, and the population they make with the elites. *)
Generate(bs, out) ==
    LET bred == Without(out, next) IN
    /\ Req({"C04", "C05"}, phase = "ready")
    /\ Req({"C04", "C07"}, kept = 1 \/ EliteCount = 0)
    /\ \A k \in DOMAIN bs : BreedOK(bs[k])
    /\ Req({"C08"}, Len(out) = cfg.n /\ Len(bs) = cfg.n - Len(next))
    /\ Req({"C07", "C08"}, \A x \in Range(next) : Count(out, x) >= Count(next, x))
    /\ Req({"C08", "C09"}, Match(env, bs, bred))
    /\ Req({"C11"}, \A x \in Range(out) : Valid(env, G(x)) /\ x = Ind(env, G(x)))
    /\ phase' = "bred" /\ next' = out /\ breeds' = bs
    /\ UNCHANGED <<given, cfg, env, mem, gen, stag, kept, rates, sel, ref, best, seen, shown>>
(* The population is replaced (C04; C07: by nothing else than elites and offspring). *)
Replaced(m, g, st) ==
    /\ Req({"C04"}, phase = "bred")
    /\ Req({"C01", "C07", "C08"}, Range(m) = Range(next))
    /\ Req({"C03"}, g = gen + 1 /\ st = IF MaxF(m) > MaxF(mem) THEN 0 ELSE stag + 1)
    /\ Req({"C04"}, g = gen + 1)
    /\ phase' = "made" /\ mem' = m /\ gen' = g /\ stag' = st
    /\ UNCHANGED <<given, cfg, env, next, kept, breeds, rates, sel, ref, best, seen, shown>>
(* The same, when the steps of the algorithm are not seen: m is what is presented next. *)
Turn(bs, m, g, st) ==
    /\ Req({"C04", "C05"}, phase = "ready")
    /\ \A k \in DOMAIN bs : BreedOK(bs[k])
    /\ TurnOK(mem, env, bs, cfg.n, cfg.elite, m)
    /\ Req({"C03"}, g = gen + 1 /\ st = IF MaxF(m) > MaxF(mem) THEN 0 ELSE stag + 1)
    /\ Req({"C04"}, g = gen + 1)
    /\ phase' = "made" /\ mem' = m /\ gen' = g /\ stag' = st /\ breeds' = bs
    /\ UNCHANGED <<given, cfg, env, next, kept, rates, sel, ref, best, seen, shown>>

(* The run returns an individual (C06), or the population (C04). *)
ReturnIndividual(x) ==
    /\ Req({"C04"}, phase = "stopped")
    /\ Req({"C06"}, x \in seen /\ F(x) = best /\ F(x) >= MaxF(mem))
    /\ phase' = "ended"
    /\ UNCHANGED <<given, cfg, env, mem, gen, stag, next, kept, breeds, rates, sel, ref, best, seen, shown>>
ReturnPopulation(m, g, st) ==
    /\ Req({"C04"}, phase = "stopped" /\ m = mem /\ g = gen /\ st = stag)
    /\ phase' = "ended"
    /\ UNCHANGED <<given, cfg, env, mem, gen, stag, next, kept, breeds, rates, sel, ref, best, seen, shown>>
(* A run that was counted, not recorded: e.gens generations of e.n members,  *)
(* e.elite of them kept. The rates are e.cr and e.mr (0 or 1), or (e.cycle)   *)
(* the hook sets them to 1 in every second and every third generation. Every *)
(* bred individual is a new one that survives (improvement makes it new),    *)
(* no two selections in a row are the same, and all individuals of generation e.peak have the fitness 2,    *)
(* all others 1. counts: random individuals, crossovers, mutations,          *)
(* evaluations, calls of the hook, of prepare, of select, of improve. seen:  *)
(* for some generations <<generation, stagnation (-1: it was not counted, as *)
(* individuals of big populations are a bit less fit), highest fitness, members, *)
(* members of fitness 2>>.                                                   *)
LongMax(e, k) == IF k = e.peak \/ (k > e.peak /\ e.elite > 0) THEN 2 ELSE 1
LongStag(e, k) == IF k < e.peak THEN k ELSE k - e.peak
LongTop(e, k) ==
    IF k < e.peak THEN 0
    ELSE IF e.peak = 0 /\ k = 0 THEN e.n
    ELSE IF k = e.peak THEN e.n - e.elite
    ELSE Min2(e.elite, IF e.peak = 0 THEN e.n ELSE e.n - e.elite)
Long(e) ==
    LET bred == e.gens * (e.n - e.elite)
        Times(every, rate) == (e.n - e.elite) * (IF e.cycle = 1 THEN (e.gens + every - 1) \div every ELSE rate * e.gens)
        pairs == IF e.n > 1 THEN Times(2, e.cr) ELSE 0
        c == e.counts
        first == CASE e.mode = "ind" -> e.n - 1 [] OTHER -> 0
    IN  /\ Req({"C04"}, e.panic = 0 /\ e.calls = e.gens + 1 /\ e.off = -1)
        /\ Req({"C04"}, e.mode = "pop" => e.end = e.gens)
        /\ Req({"C08"}, e.panic = 0 /\ e.sizes = <<e.n, e.n>>)
        /\ Req({"C08", "C10"}, c[8] = bred)
        /\ Req({"C10", "C11"}, c[4] = e.n + bred)
        /\ Req({"C12"}, (e.mode = "rand" => c[1] = e.n) /\ (e.mode # "rand" => c[1] = 0))
        /\ Req({"C05", "C10"}, c[2] = pairs /\ c[3] = Times(3, e.mr) + first)
        /\ Req({"C05"}, c[5] = e.gens /\ c[6] = e.gens)
        /\ Req({"C05", "C10"}, IF e.n = 1 THEN c[7] >= bred ELSE c[7] = bred + pairs)
        /\ Req({"C06"}, e.mode # "pop" => e.best = IF e.peak <= e.gens THEN 2 ELSE 1)
        /\ \A j \in DOMAIN e.seen :
             LET x == e.seen[j] IN
             /\ Req({"C03", "C04"}, x[2] = -1 \/ x[2] = LongStag(e, x[1]))
             /\ Req({"C07", "C08"}, x[3] = LongMax(e, x[1]) /\ x[5] = LongTop(e, x[1]) /\ x[4] = e.n)
        /\ UNCHANGED evars
(* C06: a run from a single individual that is fitter than all that can be    *)
(* made of it: it is the best of the first generation, and the result         *)
Single(e) ==
    /\ Req({"C04"}, e.panic = 0 /\ Len(e.bests) = e.gens + 1)
    /\ Req({"C06", "C12"}, e.panic = 0 /\ Len(e.bests) >= 1 /\ e.bests[1] = e.start)
    /\ Req({"C06"}, e.res = e.start /\ \A j \in DOMAIN e.bests : e.bests[j] <= e.res)
    /\ UNCHANGED evars
(* Steps of an algorithm, called directly and counted.                       *)
(* C07: a population of e.len members of which e.got different ones were     *)
(* kept, the least fit one at place e.low (from 0), all unchanged (e.same).  *)
(* The rate is e.a / e.b, or a bit less or more (e.side = -1, 1).            *)
FloorOf(n, a, b, side) == IF side < 0 /\ (n * a) % b = 0 THEN (n * a) \div b - 1 ELSE (n * a) \div b
Quota(e) ==
    LET k == Min2(FloorOf(e.n, e.a, e.b, e.side), e.len) IN
    /\ Req({"C07"}, e.got = k /\ e.different = k /\ e.same = 1 /\ (k > 0 => e.low = e.len - k))
    /\ UNCHANGED evars
(* C08: e.had individuals of e.n are there; the others are bred, each made and *)
(* evaluated once (C10), and all are there at the end.                       *)
Brood(e) ==
    /\ Req({"C08"}, e.made = e.n - e.had /\ e.got = e.n /\ e.kept = e.had /\ e.new = e.n - e.had)
    /\ Req({"C10"}, e.made = e.n - e.had /\ e.evals = e.made)
    /\ UNCHANGED evars
(* C11: e.n different individuals, e.bad of them invalid once evaluated; right: *)
(* the members that were evaluated once and have their fitness.              *)
Intake(e) ==
    /\ Req({"C11"}, e.evals = e.n /\ e.members = e.n - e.bad /\ e.right = e.members)
    /\ UNCHANGED evars
(* C15: the same run on a used and on a fresh instance *)
Twins(a, b) == Req({"C15"}, a = b) /\ UNCHANGED evars
=============================================================================
