------------------------------- MODULE OneMax -------------------------------
(* The bundled OneMax problem (src/lib.rs, one_max): genomes are sequences   *)
(* of bits, and the fitness is the fraction of ones, here in decimals.        *)
EXTENDS Crossover, Mutation
Ones(g) == Cardinality({k \in DOMAIN g : g[k] = 1})
(* ones / n in fifteen decimals: seven, and eight more *)
RECURSIVE Decimals(_, _, _, _)
Decimals(a, n, k, q) == IF k = 0 THEN <<q, a>> ELSE Decimals((a * 10) % n, n, k - 1, q * 10 + (a * 10) \div n)
Fraction(o, n) ==
    IF o = n THEN <<10000000, 0>>
    ELSE LET h == Decimals(o, n, 7, 0) IN <<h[1], Decimals(h[2], n, 8, 0)[1]>>
(* a fitness as it is recorded: <<millionths, is it exactly 1, is it finite, *)
(* seven decimals, eight more>>; ones of n bits are set                      *)
CountOK(o, n, f) ==
    IF n = 0 THEN f[3] = 0
    ELSE LET q == Fraction(o, n)
             h == f[4] - q[1]
             d == f[5] - q[2]
         IN  /\ f[3] = 1
             /\ h \in -1..1 /\ (h * 100000000 + d) \in -4..4
             /\ (f[2] = 1) = (o = n)
FitnessOK(g, f) == CountOK(Ones(g), Len(g), f)
Children(a, b) == {SPXResult(a, b, p) : p \in 0..Len(a)}
Mutants(g) == Results("duplicate", g)
ChildOK(a, b, o) == Len(o) = Len(a) /\ o \in Children(a, b)
MutantOK(g, o) == MutationOK("duplicate", g, o)
=============================================================================
