----------------------------- MODULE MCAdaptive -----------------------------
(* The adaptive rates over every short history of populations.               *)
EXTENDS Adaptive, Json
CONSTANTS MaxGen, Ints, Emit
VARIABLES p, gen, fs, ref, rates, hist
Pops == {<<3>>, <<0, 4>>, <<1, 2, 3>>, <<2, 2>>, <<0, 16>>, <<0, 0, 1, 9, 9>>}
Ranges == {<<300, 1000, 100, 1000>>, <<0, 1000, 0, 1000>>, <<900, 200, 800, 100>>, <<500, 500, 0, 1000>>}
Ps == {[clo |-> r[1], chi |-> r[2], mlo |-> r[3], mhi |-> r[4], int |-> n] : r \in Ranges, n \in Ints}

Rates(q, g, f, rf, before) ==
    IF g = 0 THEN <<q.chi, q.mlo>>
    ELSE IF ~Adapts(q, g) THEN before
    ELSE LET d == Diversity(Variance(f), rf) IN <<Scale(q.clo, q.chi, d), Scale(q.mlo, q.mhi, 1000 - d)>>
Init == p \in Ps /\ gen = -1 /\ fs = <<>> /\ ref = <<0, 1>> /\ rates = <<0, 0>> /\ hist = <<>>
Next ==
    /\ gen < MaxGen
    /\ gen' = gen + 1
    /\ \E f \in Pops : fs' = f /\ hist' = Append(hist, f)
    /\ ref' = RefNext(p, gen', fs', ref)
    /\ rates' = Rates(p, gen', fs', ref, rates)
    /\ p' = p
Spec == Init /\ [][Next]_<<p, gen, fs, ref, rates, hist>>

Inside == gen >= 0 => InRanges(p, rates)
Accepted == gen >= 0 => RatesOK(p, gen, fs, ref, IF gen > 0 THEN rates ELSE <<0, 0>>, rates) \/ ~Adapts(p, gen)
(* the corners of the definition *)
AtStart == gen = 0 => rates = <<p.chi, p.mlo>> /\ ref[1] * Variance(fs)[2] = Variance(fs)[1] * ref[2]
Even == (gen > 0 /\ Adapts(p, gen) /\ Variance(fs)[1] = 0) => rates = <<p.clo, p.mhi>>
Full == (gen > 0 /\ Adapts(p, gen) /\ Variance(fs)[1] # 0 /\ ref[1] = 0) => rates = <<p.chi, p.mlo>>
Same == (gen > 0 /\ Adapts(p, gen) /\ fs = hist[1] /\ Variance(fs)[1] # 0) => rates = <<p.chi, p.mlo>>
(* the definition by squares agrees with the square of d, and d grows with the deviation *)
Exact(a, b) == LET d == Diversity(a, b) IN
    (a[1] # 0 /\ b[1] # 0 /\ a[1] * b[2] < b[1] * a[2]) =>
        /\ d * d <= ((a[1] * b[2] * 1000) \div (b[1] * a[2])) * 1000 + 1000
        /\ (d + 1) * (d + 1) >= ((a[1] * b[2] * 1000) \div (b[1] * a[2])) * 1000
ASSUME \A x, y \in Pops : Exact(Variance(x), Variance(y))
ASSUME \A x, y, z \in Pops :
    LET a == Variance(x) b == Variance(y) IN
    a[1] * b[2] <= b[1] * a[2] => Diversity(a, Variance(z)) <= Diversity(b, Variance(z))
Stays == [][(gen' > 0 /\ ~Adapts(p, gen')) => rates' = rates]_<<p, gen, fs, ref, rates, hist>>
Emitted == (Emit /\ gen = MaxGen) =>
    PrintT("REPLAY " \o ToJson(<<<<p.clo, p.chi, p.mlo, p.mhi, p.int>>, hist>>))
=============================================================================
