------------------------------- MODULE Engine -------------------------------
(* An evolution drives any algorithm through the methods of the trait        *)
(* EvolutionAlgorithm (src/evolution.rs, src/algorithms.rs). Here it is an   *)
(* algorithm of a user's own, which overrides any of them, on a model which  *)
(* overrides how individuals are generated and bred.                         *)
(*                                                                           *)
(* cfg = [mode ("pop" | "ind" | "rand"), first (initial size), arg (what the *)
(* individuals are generated from), in (the given ones), param (names the    *)
(* parameters), seen (1: every method is overridden by one that records its  *)
(* arguments and then does something of its own (act > 0) or what the        *)
(* default does (act = 0); 0: only the required methods are there)].         *)
EXTENDS Base
VARIABLES phase,  \* idle, start, run, asked, over, ended
          cfg, given, ext, conf,
          mem, gen, stag, \* the population
          buf,    \* the next one
          done,   \* which of "prep", "elites", "gen" this generation has had
          want,   \* the size and the rates (one number) the algorithm wants now
          best,   \* the fittest presented
          seen
nvars == <<phase, cfg, given, ext, conf, mem, gen, stag, buf, done, want, best, seen>>
NoRun == [mode |-> "none"]
Idle ==
    /\ phase = "idle" /\ cfg = NoRun /\ given = <<>> /\ ext = 0 /\ conf = 0 /\ mem = <<>> /\ gen = 0 /\ stag = 0
    /\ buf = <<>> /\ done = {} /\ want = <<0, 0>> /\ best = -99999 /\ seen = {}

(* What the recording model makes of genomes: evaluation and validity. *)
Worth(g) == g % 5
Fine(g) == g % 7 # 6
Top(s) == MaxF(s)
Canonical(in, out) == Sorted(out) /\ Distinct(out) /\ Range(out) = Range(in)
IsFittest(m, x) == x \in Range(m) /\ F(x) = MaxF(m)
Usual(in, out) == /\ Sorted(out) /\ Distinct(out)
                  /\ Range(out) = {<<g, Worth(g)>> : g \in {h \in {G(x) : x \in Range(in)} : Fine(h)}}

Begin(c) ==
    /\ phase \in {"idle", "ended"}
    /\ phase' = "start" /\ cfg' = c /\ given' = c.in /\ ext' = 0 /\ conf' = 0 /\ mem' = <<>> /\ gen' = 0 /\ stag' = 0
    /\ buf' = <<>> /\ done' = {} /\ want' = <<0, 0>> /\ best' = -99999 /\ seen' = {}
(* The model is asked, once, for exactly the initial size; what it makes of it counts. *)
Extend(kind, n, arg, had, out) ==
    /\ Req({"C31"}, phase = "start" /\ ext = 0 /\ kind = cfg.mode /\ n = cfg.first /\ arg = cfg.arg /\ had = <<>>)
    /\ ext' = 1 /\ given' = out
    /\ UNCHANGED <<phase, cfg, conf, mem, gen, stag, buf, done, want, best, seen>>
Configure(p) ==
    /\ Req({"C31"}, phase = "start" /\ conf = 0 /\ p = cfg.param)
    /\ conf' = 1
    /\ UNCHANGED <<phase, cfg, given, ext, mem, gen, stag, buf, done, want, best, seen>>
Initialize(act, in, out, g) ==
    /\ Req({"C31"}, phase = "start" /\ conf = 1 /\ ext = IF cfg.mode = "pop" THEN 0 ELSE 1)
    /\ Req({"C31"}, in = given)
    /\ Req({"C31"}, act = 0 => Usual(in, out) /\ g = 0)
    /\ phase' = "run" /\ mem' = out /\ gen' = g /\ stag' = 0
    /\ UNCHANGED <<cfg, given, ext, conf, buf, done, want, best, seen>>
(* Only the default panics, if nothing is valid. *)
Panics ==
    /\ Req({"C31"}, phase = "start" /\ conf = 1 /\ \A x \in Range(given) : ~Fine(G(x)))
    /\ phase' = "ended"
    /\ UNCHANGED <<cfg, given, ext, conf, mem, gen, stag, buf, done, want, best, seen>>
(* The callback is given what the last step left. *)
Present(m, g, st, ans) ==
    /\ Req({"C31"}, phase = "run" /\ m = mem /\ g = gen /\ st = stag)
    /\ phase' = IF ans = 1 THEN "asked" ELSE "over"
    /\ done' = {} /\ best' = Max2(best, Top(m)) /\ seen' = seen \cup Range(m)
    /\ UNCHANGED <<cfg, given, ext, conf, mem, gen, stag, buf, want>>
Prepare(m, g, w) ==
    /\ Req({"C31"}, phase = "asked" /\ done \subseteq {"elites"} /\ m = mem /\ g = gen)
    /\ done' = done \cup {"prep"} /\ want' = w
    /\ UNCHANGED <<phase, cfg, given, ext, conf, mem, gen, stag, buf, best, seen>>
(* before: the buffer the elites go to; it is empty, whatever happened before *)
Elites(act, m, before, after) ==
    /\ Req({"C31"}, phase = "asked" /\ done \subseteq {"prep"} /\ m = mem /\ before = <<>>)
    /\ Req({"C31"}, act = 0 => Len(after) = 1 /\ IsFittest(m, after[1]))
    /\ done' = done \cup {"elites"} /\ buf' = after
    /\ UNCHANGED <<phase, cfg, given, ext, conf, mem, gen, stag, want, best, seen>>
(* bred: what the model's breed answered, and with what it was called: <<individual, rate, generation>> *)
BredFor(bred) == \A k \in DOMAIN bred : bred[k][2] = want[2] /\ bred[k][3] = gen
Generate(act, m, before, after, bred) ==
    /\ Req({"C31"}, phase = "asked" /\ done = {"prep", "elites"} /\ m = mem /\ before = buf)
    /\ Req({"C31"}, act = 0 =>
           /\ Len(bred) = Max2(0, want[1] - Len(before))
           /\ BredFor(bred)
           /\ SameBag(after, before \o [k \in DOMAIN bred |-> bred[k][1]]))
    /\ done' = done \cup {"gen"} /\ buf' = after
    /\ UNCHANGED <<phase, cfg, given, ext, conf, mem, gen, stag, want, best, seen>>
Replace(act, m, before, m2, g2, st2) ==
    /\ Req({"C31"}, phase = "asked" /\ done = {"prep", "elites", "gen"} /\ m = mem /\ before = buf)
    /\ Req({"C31"}, act = 0 => /\ Canonical(before, m2) /\ g2 = gen + 1
                               /\ st2 = IF Top(m2) > Top(mem) THEN 0 ELSE stag + 1)
    /\ phase' = "run" /\ mem' = m2 /\ gen' = g2 /\ stag' = st2
    /\ UNCHANGED <<cfg, given, ext, conf, buf, done, want, best, seen>>
(* A generation of an algorithm that overrides nothing: the fittest and what was bred. *)
Whole(bred, m2, g2, st2) ==
    /\ Req({"C31"}, phase = "asked" /\ done = {"prep"})
    /\ Req({"C31"}, /\ Len(bred) = Max2(0, want[1] - 1)
                    /\ BredFor(bred)
                    /\ \E x \in Range(mem) : IsFittest(mem, x) /\ Canonical(<<x>> \o [k \in DOMAIN bred |-> bred[k][1]], m2)
                    /\ g2 = gen + 1 /\ st2 = IF Top(m2) > Top(mem) THEN 0 ELSE stag + 1)
    /\ phase' = "run" /\ mem' = m2 /\ gen' = g2 /\ stag' = st2
    /\ UNCHANGED <<cfg, given, ext, conf, buf, done, want, best, seen>>
(* The default breeding with a selection mechanism of a user's own, crossover *)
(* always: first is what it selected (genomes), excl what it was then asked   *)
(* to avoid, second its answer (-1: none), crossed the parents of crossovers. *)
Pick(first, excl, second, crossed) ==
    /\ Req({"C31"}, /\ Len(first) = 1 /\ excl = first
                    /\ second = -1 => crossed = <<>>
                    /\ second # -1 => Len(crossed) = 2 /\ SameBag([k \in 1..2 |-> <<crossed[k], 0>>], <<<<first[1], 0>>, <<second, 0>>>>))
    /\ UNCHANGED nvars
(* a breeding by a model with a survival rule of its own: the rule is asked   *)
(* about every valid offspring, and its answer is what counts                 *)
Rule(parents, made, valid, asked, answer, res) ==
    LET top == {x \in Range(parents) : \A y \in Range(parents) : F(x) >= F(y)} IN
    /\ Req({"C31", "C09"},
            IF valid = 0 THEN res \in top
            ELSE /\ Len(asked) = 1 /\ asked[1][1] = G(made) /\ asked[1][2] \in {G(x) : x \in top}
                 /\ IF answer = 1 THEN res = made ELSE res \in top /\ G(res) = asked[1][2])
    /\ UNCHANGED nvars
EndWith(x) ==
    /\ Req({"C31"}, phase = "over" /\ cfg.mode # "pop" /\ x \in seen /\ F(x) = best)
    /\ phase' = "ended"
    /\ UNCHANGED <<cfg, given, ext, conf, mem, gen, stag, buf, done, want, best, seen>>
EndAll(m, g, st) ==
    /\ Req({"C31"}, phase = "over" /\ cfg.mode = "pop" /\ m = mem /\ g = gen /\ st = stag)
    /\ phase' = "ended"
    /\ UNCHANGED <<cfg, given, ext, conf, mem, gen, stag, buf, done, want, best, seen>>
=============================================================================
