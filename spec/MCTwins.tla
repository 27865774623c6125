------------------------------ MODULE MCTwins -------------------------------
(* Two instances: one that has made runs before (they ended, were given up   *)
(* by the callback, or had no valid individual), and a fresh one. They make  *)
(* the same run; everything that shows of them must be the same (C15).       *)
EXTENDS Adaptive, Json
CONSTANTS Algs, Cfgs, MaxRuns, MaxGen, Emit,
          Forgets  \* what a run forgets to set anew; {} is the specification
VARIABLES alg, used, fresh, runs, gen, phase, cfg
vars == <<alg, used, fresh, runs, gen, phase, cfg>>
(* n, elite, cr, mr, clo, chi, mlo, mhi, interval, strategy *)
Config(k) == CASE k = 1 -> <<2, 0, 1000, 0, 300, 1000, 100, 900, 1, 1>>
          [] k = 2 -> <<5, 1, 500, 500, 200, 800, 0, 500, 2, 2>>
          [] k = 3 -> <<3, 2, 0, 1000, 1000, 0, 1000, 0, 0, 3>>
          [] k = 4 -> <<4, 0, 700, 300, 500, 600, 0, 1000, 1, 2>>
Pops == {<<0, 4>>, <<2, 2>>, <<0, 1, 2>>}
Blank == [size |-> 0, elite |-> 0, cr |-> 800, mr |-> 100, rg |-> <<0, 0, 0, 0>>, int |-> 0, ref |-> <<0, 1>>, sel |-> 0, temp |-> 0]
(* what is forgotten keeps what an earlier run left in it *)
Assign(i, f, v) == IF f \in Forgets /\ i[f] # Blank[f] THEN i ELSE [i EXCEPT ![f] = v]
Configure(i, c) ==
    LET a == Assign(Assign(Assign(Assign(i, "size", c[1]), "elite", c[2]), "sel", c[10]), "temp", 5000)
        g == Assign(Assign(a, "cr", c[3]), "mr", c[4])
        d == Assign(Assign(a, "rg", <<c[5], c[6], c[7], c[8]>>), "int", c[9])
    IN  IF alg = "ga" THEN g ELSE d
Prepare(i, fs, g) ==
    LET q == [clo |-> i.rg[1], chi |-> i.rg[2], mlo |-> i.rg[3], mhi |-> i.rg[4], int |-> i.int]
        d == Diversity(Variance(fs), i.ref)
        r == IF alg = "ga" \/ (g > 0 /\ ~Adapts(q, g)) THEN <<i.cr, i.mr>>
             ELSE IF g = 0 THEN <<q.chi, q.mlo>>
             ELSE <<Scale(q.clo, q.chi, d), Scale(q.mlo, q.mhi, 1000 - d)>>
        h == [i EXCEPT !.cr = r[1], !.mr = r[2], !.temp = @ \div 2]
    IN  IF alg = "aga" /\ g = 0 THEN Assign(h, "ref", Variance(fs)) ELSE h
Shows(i) == <<i.size, i.elite, i.cr, i.mr, i.sel, i.temp>>
Final == Len(runs) = MaxRuns
Init == /\ alg \in Algs /\ used = Blank /\ fresh = Blank /\ runs = <<>> /\ gen = 0 /\ phase = "out" /\ cfg = <<>>
Begin == /\ phase = "out" /\ Len(runs) < MaxRuns
         /\ \E k \in Cfgs :
              /\ cfg' = Config(k) /\ runs' = Append(runs, <<k, 0, 0>>)
              /\ used' = Configure(used, Config(k))
              /\ fresh' = IF Len(runs) + 1 = MaxRuns THEN Configure(fresh, Config(k)) ELSE fresh
         /\ gen' = 0 /\ phase' = "in" /\ UNCHANGED alg
Generation ==
    /\ phase = "in" /\ gen < MaxGen
    /\ \E f \in Pops : used' = Prepare(used, f, gen) /\ fresh' = IF Final THEN Prepare(fresh, f, gen) ELSE fresh
    /\ gen' = gen + 1 /\ UNCHANGED <<alg, runs, phase, cfg>>
(* how: 0 the callback refused, 1 it panicked, 2 no individual was valid *)
End == /\ phase = "in" /\ \E how \in 0..2 :
              /\ how = 2 => gen = 0
              /\ Final => how = 0
              /\ runs' = [runs EXCEPT ![Len(runs)] = <<@[1], gen, how>>]
       /\ phase' = "out" /\ UNCHANGED <<alg, used, fresh, gen, cfg>>
Next == Begin \/ Generation \/ End
Spec == Init /\ [][Next]_vars
Alike == (Final /\ phase = "in" /\ gen > 0) => Shows(used) = Shows(fresh)
AsConfigured == (Final /\ phase = "in" /\ gen = 1) =>
    /\ used.size = cfg[1] /\ used.elite = cfg[2] /\ used.sel = cfg[10] /\ used.temp = 2500
    /\ <<used.cr, used.mr>> = IF alg = "ga" THEN <<cfg[3], cfg[4]>> ELSE <<cfg[6], cfg[7]>>
(* [[alg], runs.. each [n, elite, cr, mr, clo, chi, mlo, mhi, interval, strategy, generations, how]] *)
Emitted == (Emit /\ Final /\ phase = "out" /\ gen = MaxGen) =>
    PrintT("REPLAY " \o ToJson(<<<<IF alg = "ga" THEN 0 ELSE 1>>>> \o [k \in DOMAIN runs |-> Config(runs[k][1]) \o <<runs[k][2], runs[k][3]>>]))
=============================================================================
