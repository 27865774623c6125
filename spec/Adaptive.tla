------------------------------ MODULE Adaptive ------------------------------
(* The rates of the adaptive algorithm (src/algorithms/aga.rs), in           *)
(* thousandths. Deviations are compared through their squares, as fractions. *)
EXTENDS Base

(* the variance of a sequence of integers as a fraction <<V, D>> *)
Variance(fs) ==
    LET n == Len(fs)
        s1 == SumSeq(fs)
        s2 == FoldSeq(LAMBDA x, acc : acc + x * x, 0, fs)
    IN  IF n < 2 THEN <<0, 1>> ELSE <<n * s2 - s1 * s1, n * (n - 1)>>
(* 1000 * sqrt(a / b), for a < b < 2^31 / 10: the square root of six more digits of a / b *)
RECURSIVE Digits(_, _, _, _)
Digits(a, b, n, q) == IF n = 0 THEN q ELSE Digits((a * 10) % b, b, n - 1, q * 10 + (a * 10) \div b)
Root1000(a, b) == ISqrt(Digits(a, b, 6, 0))
(* d in thousandths: the current deviation relative to the reference, limited to [0, 1] *)
Diversity(cur, ref) ==
    LET a == cur[1] * ref[2]
        b == ref[1] * cur[2]
    IN  IF cur[1] = 0 THEN 0
        ELSE IF a >= b THEN 1000
        ELSE Root1000(a, b)
Scale(lo, hi, d) == lo + ((hi - lo) * d) \div 1000
(* fitness values small enough for exact 32 bit arithmetic *)
Tame(fs) == Len(fs) <= 30 /\ \A k \in DOMAIN fs : fs[k] \in 0..17
(* the deviation is certainly 0 *)
Flat(fs) == Len(fs) = 1 \/ \A k \in DOMAIN fs : fs[k] = fs[1] /\ fs[k] \in -8000..8000
(* p = [clo, chi, mlo, mhi, int]; what the rates must be when generation gen is prepared, *)
(* given the rates before, the reference variance, and the fitness of the members         *)
Adapts(p, gen) == gen = 0 \/ (p.int # 0 /\ gen % p.int = 0)
Wild == <<-1, 1>>   \* a variance that is not known exactly
RefNext(p, gen, fs, ref) == IF gen # 0 THEN ref ELSE IF Flat(fs) THEN <<0, 1>> ELSE IF Tame(fs) THEN Variance(fs) ELSE Wild
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
RatesOK(p, gen, fs, ref, before, after) ==
    IF gen = 0 THEN after = <<p.chi, p.mlo>>
    ELSE IF ~Adapts(p, gen) THEN after = before
    ELSE IF Flat(fs) THEN Near(after[1], p.clo, 3) /\ Near(after[2], p.mhi, 3)
    ELSE IF ~Tame(fs) \/ ref = Wild THEN TRUE
    ELSE LET d == Diversity(Variance(fs), ref) IN
         /\ Near(after[1], Scale(p.clo, p.chi, d), 3)
         /\ Near(after[2], Scale(p.mlo, p.mhi, 1000 - d), 3)
(* Larger populations: x = [n, q, v]: n members, q hundredths of them one     *)
(* fitness and the others one that is v higher. The deviation, times 10^4.    *)
CrowdStd(x) == LET u == x.q * (100 - x.q) * 10000 IN x.v * ISqrt(u + u \div (x.n - 1))
CrowdOK(p, gen, x, refstd, before, after) ==
    IF gen = 0 THEN after = <<p.chi, p.mlo>>
    ELSE IF ~Adapts(p, gen) THEN after = before
    ELSE LET s == CrowdStd(x)
             d == IF s = 0 THEN 0 ELSE IF s >= refstd THEN 1000 ELSE (1000 * s) \div refstd
         IN  /\ Near(after[1], Scale(p.clo, p.chi, d), 3)
             /\ Near(after[2], Scale(p.mlo, p.mhi, 1000 - d), 3)
Within(x, a, b) == x >= Min2(a, b) /\ x <= Max2(a, b)
InRanges(p, rates) == Within(rates[1], p.clo, p.chi) /\ Within(rates[2], p.mlo, p.mhi)
=============================================================================
