---------------------------- MODULE BreedMachine ----------------------------
(* The default way to breed, step by step, as a machine a worker runs: the   *)
(* selections, crossover, mutation, improvement, evaluation, and survival.   *)
(* Everything the random numbers and the model decide is a choice.           *)
EXTENDS Breed

Waiting == [pc |-> "idle", r |-> NoBreed, cur |-> -1, p |-> <<>>, tries |-> 0, res |-> <<>>]
Log(w, field, x, n) == [w EXCEPT !.r[field] = Append(@, x), !.r.o = Append(@, n)]
Drawn(w, mem, sel, j) == Log(w, "s", <<sel, j - 1, G(mem[j])>>, 1)
MaxTries == 3

(* Every worker that can follow w. Genes: what crossover and mutation may yield; *)
(* Imp[g]: what improving genome g may yield.                                    *)
Fitter(env, p) == IF Len(p) = 2 /\ Fit(env, p[2]) > Fit(env, p[1]) THEN p[2] ELSE p[1]
Decide(env, w, keep) ==
    [w EXCEPT !.pc = "done", !.res = IF keep THEN Ind(env, w.cur) ELSE Ind(env, Fitter(env, w.p))]
AfterFirst(w, mem, cr) ==
    (IF Len(mem) > 1 /\ cr > 0 THEN {[w EXCEPT !.pc = "distinct"]} ELSE {})
    \cup (IF Len(mem) = 1 \/ cr < 1000 THEN {[w EXCEPT !.pc = "mutate"]} ELSE {})
Steps(env, mem, sel, cr, mr, Genes, Imp, w) ==
    CASE w.pc = "idle" ->
           UNION {LET g == G(mem[j]) IN
                  AfterFirst([Drawn(w, mem, sel, j) EXCEPT !.cur = g, !.p = <<g>>], mem, cr) : j \in DOMAIN mem}
      [] w.pc = "distinct" ->
           {LET g == G(mem[j])
                d == Drawn(w, mem, sel, j)
            IN  IF g # w.p[1] THEN [d EXCEPT !.pc = "cross", !.p = Append(@, g)]
                ELSE IF w.tries + 1 = MaxTries THEN [d EXCEPT !.pc = "mutate"]
                ELSE [d EXCEPT !.tries = @ + 1] : j \in DOMAIN mem}
      [] w.pc = "cross" ->
           {[Log(w, "x", <<w.p[1], w.p[2], c>>, 2) EXCEPT !.pc = "mutate", !.cur = c] : c \in Genes}
      [] w.pc = "mutate" ->
           (IF mr > 0 THEN {[Log(w, "m", <<w.cur, c>>, 3) EXCEPT !.pc = "improve", !.cur = c] : c \in Genes} ELSE {})
           \cup (IF mr < 1000 THEN {[w EXCEPT !.pc = "improve"]} ELSE {})
      [] w.pc = "improve" ->
           {[Log(w, "i", <<w.cur, c>>, 4) EXCEPT !.pc = "evaluate", !.cur = c] : c \in Imp[w.cur + 1]}
      [] w.pc = "evaluate" ->
           LET e == Log(w, "v", Ind(env, w.cur), 5) IN
           IF ~Valid(env, w.cur) THEN {Decide(env, e, FALSE)}
           ELSE IF env.ovr = 1 THEN {[e EXCEPT !.pc = "survive"]}
           ELSE {Decide(env, e, Fit(env, w.cur) >= Fit(env, Fitter(env, w.p)))}
      [] w.pc = "survive" ->
           LET f == Fitter(env, w.p) IN
           {Decide(env, Log(w, "k", <<w.cur, Fit(env, w.cur), f, Fit(env, f), a>>, 6), a = 1) : a \in {0, 1}}
      [] OTHER -> {}
(* the choices of a finished breeding, for the replay: <<selections, x, m, i, k>> *)
Script(r) ==
    <<[j \in DOMAIN r.s |-> r.s[j][2]],
      IF r.x = <<>> THEN 0 ELSE r.x[1][3],
      IF r.m = <<>> THEN 0 ELSE r.m[1][2],
      IF r.i = <<>> THEN 0 ELSE r.i[1][2],
      IF r.k = <<>> THEN 0 ELSE r.k[1][5]>>
=============================================================================
