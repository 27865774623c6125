------------------------------ MODULE Mutation ------------------------------
(* What a mutation may make of a genome (src/operators/mutation.rs) and how  *)
(* random places and ranges are distributed (src/operators.rs).              *)
EXTENDS Base

(* --- the changes, by their choices (1-based places) --- *)
SwapOf(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
ReverseOf(a, s, e) == [k \in DOMAIN a |-> IF k >= s /\ k <= e THEN a[s + e - k] ELSE a[k]]
MoveOf(a, i, j) == InsertAt(RemoveAt(a, i), j, a[i])
CopyOf(a, i, j) == [a EXCEPT ![j] = a[i]]

(* --- the same, decided on the result --- *)
Diff(a, o) == {k \in DOMAIN a : a[k] # o[k]}
Lo(S) == FoldSet(Min2, CHOOSE k \in S : TRUE, S)
Hi(S) == FoldSet(Max2, CHOOSE k \in S : TRUE, S)
SwapOK(a, o) ==
    LET D == Diff(a, o) IN
    IF D = {} THEN ~Distinct(a)
    ELSE Cardinality(D) = 2 /\ o = SwapOf(a, Lo(D), Hi(D))
InversionOK(a, o) ==
    LET D == Diff(a, o) IN
    IF D = {} THEN \E k \in 1..(Len(a) - 1) : a[k] = a[k + 1] \/ (k + 2 <= Len(a) /\ a[k] = a[k + 2])
    ELSE \E i \in {Lo(D)}, j \in {Hi(D)} : o = ReverseOf(a, i, j)   \* (evaluated once)
InsertionOK(a, o) ==
    LET D == Diff(a, o) IN
    IF D = {} THEN \E k \in 1..(Len(a) - 1) : a[k] = a[k + 1]
    ELSE \E i \in {Lo(D)}, j \in {Hi(D)} : o = MoveOf(a, i, j) \/ o = MoveOf(a, j, i)
ScrambleOK(a, o) == SameBag(a, o)
DuplicateOK(a, o) ==
    LET D == Diff(a, o) IN
    IF D = {} THEN ~Distinct(a)
    ELSE Cardinality(D) = 1 /\ o[Lo(D)] \in {a[k] : k \in DOMAIN a \ D}
MutationOK(op, a, o) ==
    /\ Len(o) = Len(a)
    /\ IF Len(a) < 2 THEN o = a
       ELSE CASE op = "swap" -> SwapOK(a, o)
              [] op = "inversion" -> InversionOK(a, o)
              [] op = "insertion" -> InsertionOK(a, o)
              [] op = "scramble" -> ScrambleOK(a, o)
              [] op = "duplicate" -> DuplicateOK(a, o)
(* all results, by the choices *)
Results(op, a) ==
    LET n == Len(a)
        P == {p \in (1..n) \X (1..n) : p[1] # p[2]}
    IN  IF n < 2 THEN {a}
        ELSE CASE op = "swap" -> {SwapOf(a, p[1], p[2]) : p \in P}
               [] op = "inversion" -> {ReverseOf(a, p[1], p[2]) : p \in {q \in P : q[1] < q[2]}}
               [] op = "insertion" -> {MoveOf(a, p[1], p[2]) : p \in P}
               [] op = "duplicate" -> {CopyOf(a, p[1], p[2]) : p \in P}
               [] op = "scramble" -> {o \in [1..n -> Range(a)] : SameBag(a, o)}

(* --- frequencies: c of N trials, for an event of probability p4 / 10000 --- *)
(* Six standard deviations, and the rounding of p4. N is 200000.             *)
Freq(c, N, p4) ==
    LET d == c * 10000 - N * p4
        tol == 6 * 447 * ISqrt(p4 * (10000 - p4)) + N + 150000
    IN  d <= tol /\ -d <= tol
PairsOK(n, N, cnt) ==   \* cnt: <<i, j, count>>
    /\ \A k \in DOMAIN cnt : cnt[k][1] \in 0..(n - 1) /\ cnt[k][2] \in 0..(n - 1) /\ cnt[k][1] # cnt[k][2]
    /\ Len(cnt) = n * (n - 1)
    /\ Cardinality({<<cnt[k][1], cnt[k][2]>> : k \in DOMAIN cnt}) = n * (n - 1)
    /\ \A k \in DOMAIN cnt : Freq(cnt[k][3], N, 10000 \div (n * (n - 1)))
RangesOK(n, lo, hi, N, cnt) ==   \* cnt: <<start, end, count>>
    LET AllR == UNION {{<<s, s + len>> : s \in 0..(n - len)} : len \in lo..hi} IN
    /\ {<<cnt[k][1], cnt[k][2]>> : k \in DOMAIN cnt} = AllR
    /\ Len(cnt) = Cardinality(AllR)
    /\ \A k \in DOMAIN cnt :
         LET len == cnt[k][2] - cnt[k][1] IN
         Freq(cnt[k][3], N, 10000 \div ((hi - lo + 1) * (n - len + 1)))
    (* each length as often as any other *)
    /\ \A len \in lo..hi :
         Freq(FoldSeq(LAMBDA x, acc : acc + (IF x[2] - x[1] = len THEN x[3] ELSE 0), 0, cnt), N,
              10000 \div (hi - lo + 1))
(* Pairs of many places, for n that is a multiple of 20: tens: how often the *)
(* first and the second was in each tenth of the places; both: both of them; *)
(* half: how often the first was even, the second was even, and the first    *)
(* was smaller; ends: how often they were the first and last place; each:    *)
(* how often they were each place, if there are not too many.                *)
ManyPairsOK(n, N, tens, both, half, ends, each) ==
    LET d == n \div 10 IN
    /\ \A k \in 1..2 : SumSeq(tens[k]) = N /\ \A j \in 1..10 : Freq(tens[k][j], N, 1000)
    /\ \A a \in 1..10, b \in 1..10 :
         Freq(both[10 * (a - 1) + b], N,
              IF n > 1000 THEN 100 ELSE IF a = b THEN (10000 * d * (d - 1)) \div (n * (n - 1)) ELSE (10000 * d * d) \div (n * (n - 1)))
    /\ \A k \in 1..3 : Freq(half[k], N, 5000)
    /\ \A k \in 1..4 : Freq(ends[k], N, 10000 \div n) /\ (n <= 4000 => ends[k] > 0)
    /\ \A k \in DOMAIN each : Freq(each[k], N, 10000 \div n) /\ each[k] > 0
(* Ranges of many places: len: how often the length was in each tenth of the *)
(* lens admitted lengths; start: of the ranges for which the number of       *)
(* places to start at is a multiple of ten, how often the start was in each  *)
(* tenth of these, for the shorter and the longer half of the lengths; half: *)
(* how often the length, and such a start, was even; ends: how often the     *)
(* length was the smallest and the largest. one: there is only one length.   *)
WideRangesOK(lens, one, room, N, len, start, half, ends) ==
    /\ IF one = 1 THEN len[1] = N /\ ends = <<N, N>>
       ELSE /\ \A j \in 1..10 : Freq(len[j], N, 1000)
            /\ Freq(half[1], N, 5000)
            /\ \A k \in 1..2 : Freq(ends[k], N, 10000 \div lens) /\ (lens <= 4000 => ends[k] > 0)
    /\ (one = 0 \/ room >= 10) =>
         /\ \A j \in 1..20 : IF one = 1 THEN (j <= 10 => Freq(start[j], N, 1000)) ELSE Freq(start[j], N, 500)
         /\ Freq(half[2], N, 5000)
(* Scramble picks a length from 2..n, a start, and one of the orders of the   *)
(* range. The weight of a result: of all ranges outside of which it changes   *)
(* nothing; the weights of all results add up to (n - 1) (n!)^2.              *)
RECURSIVE Fac(_), Ratio(_, _, _, _)
Fac(n) == IF n <= 1 THEN 1 ELSE n * Fac(n - 1)
ScrambleWeight(n, o) ==
    LET R == {p \in (1..n) \X (1..n) : p[1] < p[2] /\ \A k \in 1..n : (k < p[1] \/ k > p[2]) => o[k] = k}
    IN  FoldSet(LAMBDA p, acc : acc + (Fac(n) * Fac(n)) \div ((n - (p[2] - p[1])) * Fac(p[2] - p[1] + 1)), 0, R)
Ratio(a, b, n, q) == IF n = 0 THEN q ELSE Ratio((a * 10) % b, b, n - 1, q * 10 + (a * 10) \div b)
OrdersOK(n, N, cnt) ==   \* cnt: <<result, count>>
    LET W == (n - 1) * Fac(n) * Fac(n) IN
    /\ {cnt[k][1] : k \in DOMAIN cnt} = {o \in [1..n -> 1..n] : Distinct(o)}
    /\ Len(cnt) = Fac(n)
    /\ \A k \in DOMAIN cnt : LET w == ScrambleWeight(n, cnt[k][1]) IN
         Freq(cnt[k][2], N, IF w = W THEN 10000 ELSE Ratio(w, W, 4, 0))
(* Of the genes of a scrambled range all but one change their place on average, *)
(* and a range is n/2 + 1 long on average, so half of all genes move, one half  *)
(* of them in each half of the places, and to greater genes in half of them (in *)
(* thousandths; six standard deviations of 20000 trials are less than 15).      *)
Near(x, y) == x - y <= 15 /\ y - x <= 15
MovedOK(e) == Near(e.moved, 500) /\ Near(e.up, 250) /\ Near(e.lower, e.upper)
(* Requests that can be met; the others are refused.                           *)
Admits(op, n, lo, hi) == CASE op = "pair" -> n >= 2
                           [] op = "range" -> n >= 1
                           [] OTHER -> lo <= hi /\ hi <= n
=============================================================================
