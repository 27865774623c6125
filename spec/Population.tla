----------------------------- MODULE Population -----------------------------
(* A population as its users see it (src/population.rs).                     *)
(*                                                                           *)
(* State: the members in their order, the generation and the stagnation      *)
(* counter. The transitions are creation, replacement, and consumption.      *)
(* What the population reports about itself (statistics, fittest member)     *)
(* is a parameter of each transition and is constrained by the new state.    *)
EXTENDS Base

VARIABLE pop      \* [mem, gen, stag]; no members: there is no population
NoPop == [mem |-> <<>>, gen |-> 0, stag |-> 0]
Alive == pop.mem # <<>>

(* C01: out is the canonical form of the collection in. *)
Canonical(in, out) == Sorted(out) /\ Distinct(out) /\ Range(out) = Range(in)

(* C02: st describes the members. st = [count, min, arg_min, max, arg_max,   *)
(* known, sum, n*sum(x^2) - sum(x)^2], with zero-based positions; the last   *)
(* two only if known = 1.                                                    *)
Moments(fs) ==
    LET s1 == SumSeq(fs)
        s2 == FoldSeq(LAMBDA x, acc : acc + x * x, 0, fs)
    IN  <<s1, Len(fs) * s2 - s1 * s1>>
StatsOf(mem, st) ==
    /\ st[1] = Len(mem)
    /\ st[2] = MinF(mem)
    /\ st[3] + 1 \in DOMAIN mem /\ F(mem[st[3] + 1]) = st[2]
    /\ st[4] = MaxF(mem)
    /\ st[5] + 1 \in DOMAIN mem /\ F(mem[st[5] + 1]) = st[4]
    /\ st[6] = 1 => <<st[7], st[8]>> = Moments(Fs(mem))
FittestOf(mem, x) == x \in Range(mem) /\ F(x) = MaxF(mem)

(* C03 *)
NextStag(p, out) == IF MaxF(out) > MaxF(p.mem) THEN 0 ELSE p.stag + 1

New(in, out, gen, stag, st, fit) ==
    /\ ~Alive
    /\ Req({"C01"}, Canonical(in, out))
    /\ Req({"C02"}, StatsOf(out, st) /\ FittestOf(out, fit))
    /\ Req({"C03"}, gen = 0 /\ stag = 0)
    /\ pop' = [mem |-> out, gen |-> gen, stag |-> stag]
Replace(in, left, out, gen, stag, st, fit) ==
    /\ Alive
    /\ Req({"C01"}, Canonical(in, out) /\ left = pop.mem)
    /\ Req({"C02"}, StatsOf(out, st) /\ FittestOf(out, fit))
    /\ Req({"C03"}, gen = pop.gen + 1 /\ stag = NextStag(pop, out))
    /\ pop' = [mem |-> out, gen |-> gen, stag |-> stag]
(* Consumption: for the fittest member, or into the collection of all members. *)
TakeFittest(x) ==
    /\ Alive
    /\ Req({"C02"}, FittestOf(pop.mem, x))
    /\ pop' = NoPop
IntoMembers(out) ==
    /\ Alive
    /\ Req({"C01"}, out = pop.mem)
    /\ pop' = NoPop
(* Populations too large, and histories too long, to be recorded: counts.    *)
(* crowd: e.n individuals, e.m different ones (gene g of worth (g mod 7) - 3 *)
(* and a bit more), by op; of the members e.once are one of them that occurs *)
(* once and e.strange are none of them, e.asc adjacent ones are in order;    *)
(* hist counts their worths; avg in thousandths, var in hundredths; flags:   *)
(* minimum, maximum, their positions, the fittest and the deviation agree    *)
(* with the members.                                                         *)
Worth(h) == FoldSeq(LAMBDA k, acc : acc + (k - 4) * h[k], 0, [k \in 1..7 |-> k])
Squares(h) == FoldSeq(LAMBDA k, acc : acc + (k - 4) * (k - 4) * h[k], 0, [k \in 1..7 |-> k])
Hundredths(x, n) == 100 * (x \div n) + (100 * (x % n)) \div n
Crowd(e) ==
    /\ Req({"C01", "C02"}, e.panic = 0)
    /\ Req({"C01"}, e.len = e.m /\ e.once = e.m /\ e.strange = 0 /\ e.asc = e.len - 1 /\ e.left = e.former)
    /\ Req({"C02"},
         LET s1 == Worth(e.hist) s2 == Squares(e.hist)
             avg == (IF s1 < 0 THEN -1 ELSE 1) * 10 * Hundredths(IF s1 < 0 THEN -s1 ELSE s1, e.len)
             var == Hundredths(s2, e.len - 1) - (avg * avg) \div 10000
         IN  /\ e.count = e.len
             /\ \A k \in DOMAIN e.flags : e.flags[k] = 1
             /\ e.taken = 1
             /\ e.avg \in avg - 12..avg + 12
             /\ e.var \in var - 3..var + 3)
    /\ Req({"C03"}, e.gen = (IF e.op = "rep" THEN 1 ELSE 0) /\ e.stag = (IF e.op = "rep" /\ e.former > 3 THEN 1 ELSE 0))
    /\ UNCHANGED pop
(* ages: e.n replacements; plus: those that raised the generation by one;    *)
(* rises of the best and how many of them reset stagnation, the others and   *)
(* how many of them raised it by one, most others in a row, most stagnation. *)
Ages(e) ==
    /\ Req({"C03"}, e.panic = 0)
    /\ Req({"C03"}, /\ e.plus = e.n /\ e.gen = e.n /\ e.rises + e.others = e.n
                    /\ e.zeroed = e.rises /\ e.ups = e.others /\ e.top = e.longest)
    /\ UNCHANGED pop
=============================================================================
