------------------------------ MODULE Selection ------------------------------
(* The selection strategies (src/operators/selection.rs).                    *)
(* A strategy gives every rank 1..n (ascending fitness) a weight; the        *)
(* probability of a rank is its weight divided by the sum of all weights.    *)
EXTENDS Base

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
SumW(w) == FoldSeq(LAMBDA x, acc : acc + x, 0, w)

(* C17: rank-based strategies *)
TournamentW(n, k) == [i \in 1..n |-> Pow(i, k) - Pow(i - 1, k)]
(* of many contestants on up to 20 equal bins, in hundred millionths *)
RECURSIVE Shrink(_, _, _, _)
Shrink(i, n, k, p) == IF k = 0 THEN p ELSE Shrink(i, n, k - 1, (p * i) \div n)
BigTournamentW(n, k) == [i \in 1..n |-> Shrink(i, n, k, 100000000) - Shrink(i - 1, n, k, 100000000)]
RankW(n) == [i \in 1..n |-> i]
EliteBound(n, hundredths) == (n * hundredths) \div 100          \* floor(n * ratio)
ElitistW(n, hundredths) == [i \in 1..n |-> IF i > EliteBound(n, hundredths) THEN 1 ELSE 0]
(* 100 n^2 (F((n-i+1)/n) - F((n-i)/n)) for F(x) = b x - (b-1) x^2 and b = bias/100 *)
LinearW(n, bias) == [i \in 1..n |-> bias * n - (bias - 100) * (2 * (n - i) + 1)]
(* C18: fitness-based strategies. Roulette: the fitness is the weight.        *)
(* Boltzmann with a temperature of unit / ln 2: the fitness, in units,        *)
(* is the exponent of a power of two; weights are relative to the largest.    *)
RouletteW(fit) == fit
BoltzmannW(e) ==
    LET mx == FoldSeq(LAMBDA x, acc : Max2(x, acc), e[1], e)
        mn == FoldSeq(LAMBDA x, acc : Min2(x, acc), e[1], e)
    IN  [i \in DOMAIN e |-> Pow(2, e[i] - mn)]
(* at temperatures far below, and far above, all differences *)
ColdW(e) == [i \in DOMAIN e |-> IF \A j \in DOMAIN e : e[j] <= e[i] THEN 1 ELSE 0]
HotW(e) == [i \in DOMAIN e |-> 1]
(* large populations, in k bins of m ranks: twice the sum of the ranks of a bin, over m *)
RankBinsW(k, m) == [b \in 1..k |-> (2 * b - 1) * m + 1]
Weights(s, n, par, fit) ==
    CASE s = "tournament" -> TournamentW(n, par)
      [] s = "rank" -> RankW(n)
      [] s = "tourbins" -> BigTournamentW(n, par)
      [] s = "rankbins" -> RankBinsW(n, par)
      [] s = "elitist" -> ElitistW(n, par)
      [] s = "linear" -> LinearW(n, par)
      [] s = "roulette" -> RouletteW(fit)
      [] s = "boltzmann" -> BoltzmannW(fit)
      [] s = "cold" -> ColdW(fit)
      [] s = "hot" -> HotW(fit)

(* c of N trials (N <= 200000) for the probability w / W: six standard deviations *)
RECURSIVE Digits(_, _, _, _)
Digits(a, b, n, q) == IF n = 0 THEN q ELSE Digits((a * 10) % b, b, n - 1, q * 10 + (a * 10) \div b)
P4(w, W) == IF w = W THEN 10000 ELSE Digits(w, W, 4, 0)
Freq(c, N, p4) ==
    LET d == c * 10000 - N * p4
        tol == 6 * (ISqrt(N) + 1) * ISqrt(p4 * (10000 - p4)) + N + 150000
    IN  d <= tol /\ -d <= tol
Follows(cnt, N, w) ==
    LET W == SumW(w) IN
    /\ Len(cnt) = Len(w)
    /\ SumW(cnt) = N
    /\ \A i \in DOMAIN w : IF w[i] = 0 THEN cnt[i] = 0 ELSE Freq(cnt[i], N, P4(w[i], W))
    (* of many ranks, the lowest tenths together *)
    /\ Len(w) >= 20 => \A t \in 1..9 :
         LET m == (Len(w) * t) \div 10 IN Freq(SumW(SubSeq(cnt, 1, m)), N, P4(SumW(SubSeq(w, 1, m)), W))
(* a fitter rank is not selected less often (up to six standard deviations of the difference) *)
Monotone(cnt, fit) ==
    \A i, j \in DOMAIN cnt : fit[i] < fit[j] => cnt[i] - cnt[j] <= 6 * (ISqrt(cnt[i] + cnt[j]) + 1)

(* C19: selecting an individual that differs from ex, in at most max attempts.  *)
(* script is what the attempts yield, as zero-based positions in mem.           *)
RECURSIVE FirstDistinct(_, _, _, _, _)
FirstDistinct(mem, script, ex, max, k) ==     \* the number of the successful attempt, or 0
    IF k > max THEN 0
    ELSE IF mem[script[k] + 1] # ex THEN k ELSE FirstDistinct(mem, script, ex, max, k + 1)
DistinctOK(mem, script, ex, max, used, res) ==
    LET k == FirstDistinct(mem, script, ex, max, 1) IN
    IF k = 0 THEN res = <<>> /\ used <= max
    ELSE res = <<script[k], mem[script[k] + 1]>> /\ used <= max
(* what can be told when the attempts are not seen *)
DistinctWeak(mem, ex, max, res) ==
    IF res = <<>> THEN max = 0 \/ ex \in Range(mem)
    ELSE max > 0 /\ res[1] + 1 \in DOMAIN mem /\ mem[res[1] + 1] = res[2] /\ res[2] # ex
(* uniform attempts on n members: nothing at all with probability n^-max, *)
(* the others equally often. cnt[1]: nothing; cnt[2..n]: the others.      *)
DistinctFreq(n, max, N, cnt) ==
    LET p == 10000 \div Pow(n, max) IN
    /\ Freq(cnt[1], N, p)
    /\ \A k \in 2..n : Freq(cnt[k], N, (10000 - p) \div (n - 1))
=============================================================================
