------------------------------ MODULE Defaults ------------------------------
(* Parameters made by default, and evolutions made in any way (C33). Rates   *)
(* are in thousandths. The plain algorithm has one rate of each kind: both   *)
(* ends of its range, which is never adjusted. Selection 0 is the roulette    *)
(* wheel.                                                                    *)
EXTENDS Base
Default(alg) ==
    IF alg = "ga"
    THEN [size |-> 100, el |-> 10, clo |-> 800, chi |-> 800, mlo |-> 100, mhi |-> 100, sel |-> 0, int |-> 0]
    ELSE [size |-> 100, el |-> 10, clo |-> 300, chi |-> 1000, mlo |-> 100, mhi |-> 1000, sel |-> 0, int |-> 1]
Fields == <<"size", "el", "clo", "chi", "mlo", "mhi", "sel", "int">>
Ways == <<"built", "from", "default", "fromdefault">>   \* how an evolution is made
Starts == <<"rand", "ind", "pop">>                      \* how a run is started

(* a user's changes of fields, one after the other *)
RECURSIVE With(_, _)
With(p, sets) ==
    IF sets = <<>> THEN p
    ELSE With([f \in DOMAIN p |-> IF f = sets[1][1] THEN sets[1][2] ELSE p[f]], Tail(sets))

Elites(p) == (p.size * p.el) \div 1000
(* the number of members in generation g: all individuals of these runs differ *)
Members(p, start, given, g) == IF g = 0 /\ start = "pop" THEN given ELSE p.size
Kept(p, n) == Min2(Elites(p), n)
Bred(p, n) == p.size - Kept(p, n)
(* The rates that generation g is bred from, if its fitness values are all   *)
(* equal (flat), or spread at least as much as in generation 0.              *)
High(p) == <<p.chi, p.mlo>>
Low(p) == <<p.clo, p.mhi>>
Rates(p, old, g, flat) ==
    IF g = 0 THEN High(p)
    ELSE IF p.int # 0 /\ g % p.int = 0 THEN IF flat THEN Low(p) ELSE High(p)
    ELSE old
(* which of two members, with fitness 1 and 3, is selected how often, in thousandths *)
RouletteShare == 750
=============================================================================
