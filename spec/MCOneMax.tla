------------------------------ MODULE MCOneMax ------------------------------
(* Families of bit strings under the operators of OneMax.                    *)
EXTENDS OneMax, Json
CONSTANTS MaxL, MaxSteps, Emit
VARIABLES start, fam, n, pair
vars == <<start, fam, n, pair>>
Bits(k) == IF k = 0 THEN {<<>>} ELSE [1..k -> {0, 1}]
Init == /\ \E k \in 0..MaxL : \E a, b \in Bits(k) : start = {a, b} /\ pair = <<a, b>>
        /\ fam = start /\ n = 0
Step == /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED <<start, pair>>
        /\ \/ \E a, b \in fam : \E c \in Children(a, b) : fam' = fam \cup {c}
           \/ \E a \in fam : \E c \in Mutants(a) : fam' = fam \cup {c}
Spec == Init /\ [][Step]_vars
Seven(g) == Fraction(Ones(g), Len(g))[1]
F5(g) == IF g = <<>> THEN <<0, 0, 0, 0, 0>>
         ELSE <<Seven(g) \div 10, IF Ones(g) = Len(g) THEN 1 ELSE 0, 1>> \o Fraction(Ones(g), Len(g))
(* the length never changes, no bit is invented, and the fitness says what the genome is *)
SameLength == \A g \in fam : Len(g) = Len(pair[1])
NothingFromNothing == \A x \in {0, 1} : (\A g \in start : \A k \in DOMAIN g : g[k] = x) => \A g \in fam : \A k \in DOMAIN g : g[k] = x
Measured == \A g \in fam :
    /\ FitnessOK(g, F5(g)) /\ (g = <<>> <=> F5(g)[3] = 0)
    /\ g # <<>> => (F5(g)[1] = 1000000 <=> \A k \in DOMAIN g : g[k] = 1)
    /\ \A h \in fam : (g # <<>> /\ h # <<>>) => (Seven(g) < Seven(h) <=> Ones(g) < Ones(h))
(* crossover takes each place from one of the parents; mutation moves the number of ones by one at most *)
Inherited == \A a, b \in start : \A c \in Children(a, b) : \A k \in DOMAIN a : c[k] \in {a[k], b[k]}
SmallStep == \A a \in start : \A c \in Mutants(a) : Ones(c) - Ones(a) \in {-1, 0, 1}
Emitted == (Emit /\ n = 0) => PrintT("REPLAY " \o ToJson(pair))
=============================================================================
