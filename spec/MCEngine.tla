------------------------------ MODULE MCEngine ------------------------------
(* All runs of algorithms whose overriding methods do the things of a small  *)
(* menu, with all outcomes of the default methods. Lapse: a mistake of the   *)
(* engine; {} is the specification.                                          *)
EXTENDS Engine, Json
CONSTANTS Modes, Firsts, Sizes, MaxGens, InitActs, EliteActs, GenActs, RepActs, Fresh, Emit, Lapse
VARIABLES script, \* what the overriding methods do: <<mode, seen, first, init act>>, then per generation <<size, elites, gen, rep>>
          last    \* the best fitness of the population before
vars == <<nvars, script, last>>
NewOnes == {<<g, Worth(g)>> : g \in Fresh}
Pile(S) == SetToSortSeq(S, LAMBDA x, y : F(x) < F(y) \/ (F(x) = F(y) /\ G(x) < G(y)))
Stranger == <<40, 9>>
Raw(s) == [k \in DOMAIN s |-> <<s[k], -5>>]
Init == Idle /\ script = <<>> /\ last = -9
BeginRun ==
    /\ phase = "idle"
    /\ \E m \in Modes, f \in Firsts, s \in {0, 1}, a \in InitActs :
         /\ s = 0 => a = 0
         /\ Begin([mode |-> m, first |-> f, arg |-> 3, in |-> IF m = "pop" THEN Raw([k \in 1..f |-> k]) ELSE <<>>, param |-> 7, seen |-> s])
         /\ script' = <<<<CASE m = "pop" -> 0 [] m = "ind" -> 1 [] OTHER -> 2, s, f, a>>>>
    /\ UNCHANGED last
DoExtend ==
    /\ phase = "start" /\ cfg.mode # "pop" /\ ext = 0
    /\ Extend(cfg.mode, cfg.first, cfg.arg, <<>>, Raw([k \in 1..cfg.first |-> k + 3]))
    /\ UNCHANGED <<script, last>>
DoConfigure == phase = "start" /\ conf = 0 /\ Configure(cfg.param) /\ UNCHANGED <<script, last>>
ActOf(k) == script[1][k]
DoInit ==
    /\ phase = "start" /\ conf = 1 /\ (cfg.mode = "pop" \/ ext = 1)
    /\ IF ActOf(4) = 0
       THEN Initialize(0, given, Pile({<<g, Worth(g)>> : g \in {G(x) : x \in Range(given)} \cap {h \in 0..60 : Fine(h)}}), 0)
       ELSE Initialize(1, given, Pile({Stranger} \cup Range(given)), 0)
    /\ UNCHANGED <<script, last>>
Show ==
    /\ phase = "run"
    /\ \E ans \in {0, 1} : (Len(script) - 1 < MaxGens \/ ans = 0) /\ Present(mem, gen, stag, ans)
    /\ UNCHANGED script /\ last' = last
DoPrepare ==
    /\ phase = "asked" /\ "prep" \notin done
    /\ \E n \in Sizes : Prepare(mem, gen, <<n, 1>>) /\ script' = Append(script, <<n, 0, 0, 0>>)
    /\ last' = Top(mem)
Mark(k, a) == script' = [script EXCEPT ![Len(script)][k] = a]
Before == IF "clear" \in Lapse THEN buf ELSE <<>>
DoElites ==
    /\ phase = "asked" /\ "prep" \in done /\ "elites" \notin done /\ cfg.seen = 1
    /\ \E a \in EliteActs :
         /\ Mark(2, a)
         /\ CASE a = 0 -> \E x \in {y \in Range(mem) : IsFittest(mem, y)} :
                            IF Lapse = {} THEN Elites(0, mem, <<>>, <<x>>)
                            ELSE done' = done \cup {"elites"} /\ buf' = Append(Before, x)
                                 /\ UNCHANGED <<phase, cfg, given, ext, conf, mem, gen, stag, want, best, seen>>
              [] a = 1 -> Elites(1, mem, <<>>, <<>>)
              [] a = 2 -> Elites(2, mem, <<>>, <<mem[1], mem[Len(mem)]>>)
              [] OTHER -> Elites(3, mem, <<>>, <<Stranger, mem[Len(mem)]>>)
    /\ UNCHANGED last
Bred(s) == [k \in DOMAIN s |-> <<s[k], want[2], gen>>]
DoGenerate ==
    /\ phase = "asked" /\ {"prep", "elites"} \subseteq done /\ "gen" \notin done
    /\ \E a \in GenActs :
         /\ Mark(3, a)
         /\ CASE a = 0 -> \E s \in [1..Max2(0, want[1] - Len(buf)) -> NewOnes] :
                            /\ buf \o s # <<>>
                            /\ Generate(0, mem, buf, buf \o s, Bred(s))
              [] a = 1 -> Generate(1, mem, buf, <<Stranger>>, <<>>)
              [] OTHER -> Generate(2, mem, buf, Append(buf, Stranger), <<>>)
    /\ UNCHANGED last
DoReplace ==
    /\ phase = "asked" /\ "gen" \in done
    /\ \E a \in RepActs :
         /\ Mark(4, a)
         /\ LET all == Pile(Range(buf)) IN
            CASE a = 0 -> Replace(0, mem, buf, all, gen + 1, IF Top(all) > Top(mem) THEN 0 ELSE stag + 1)
              [] a = 1 -> Replace(1, mem, buf, mem, gen, stag)
              [] a = 2 -> Replace(2, mem, buf, all, 0, 0)
              [] OTHER -> Replace(3, mem, buf, <<buf[1]>>, gen + 1, IF F(buf[1]) > Top(mem) THEN 0 ELSE stag + 1)
    /\ UNCHANGED last
DoWhole ==
    /\ phase = "asked" /\ "prep" \in done /\ cfg.seen = 0
    /\ \E x \in {y \in Range(mem) : IsFittest(mem, y)}, s \in [1..Max2(0, want[1] - 1) -> NewOnes] :
         LET all == Pile({x} \cup Range(s)) IN Whole(Bred(s), all, gen + 1, IF Top(all) > Top(mem) THEN 0 ELSE stag + 1)
    /\ UNCHANGED <<script, last>>
DoEnd ==
    /\ phase = "over"
    /\ IF cfg.mode = "pop" THEN EndAll(mem, gen, stag) ELSE \E x \in {y \in seen : F(y) = best} : EndWith(x)
    /\ UNCHANGED <<script, last>>
Next == BeginRun \/ DoExtend \/ DoConfigure \/ DoInit \/ Show \/ DoPrepare \/ DoElites \/ DoGenerate \/ DoReplace \/ DoWhole \/ DoEnd
Spec == Init /\ [][Next]_vars
Now == script[Len(script)]
Usually(k) == Len(script) > 1 /\ Now[k] = 0
NeverEmpty == phase \in {"run", "asked", "over"} => mem # <<>>
(* with the defaults, the best is never lost, and the size is the wanted one or that of the elites *)
BestStays == (phase = "run" /\ Usually(2) /\ Now[3] # 1 /\ Usually(4)) => Top(mem) >= last
SizeRule == (phase = "asked" /\ "gen" \in done /\ Usually(3)) => Len(buf) = Max2(want[1], IF Usually(2) THEN 1 ELSE IF Now[2] = 1 THEN 0 ELSE 2)
Configured == phase \notin {"idle", "start"} => conf = 1
(* the run's individual is the best of all that were shown, also if a user's method lost it *)
Emitted == (Emit /\ phase = "ended") => PrintT("REPLAY " \o ToJson(script))
=============================================================================
