----------------------------- MODULE MCSampling -----------------------------
(* How positions and ranges are drawn: every outcome of the two draws of     *)
(* random_pair (and of bounded_random_range) is enumerated with its weight.  *)
EXTENDS Mutation
CONSTANTS MaxN
VARIABLES n, lo, hi, d1, d2, ph
Init == /\ n \in 1..MaxN /\ lo \in 0..n /\ hi \in lo..n /\ ph = "pair" /\ d1 = 0 /\ d2 = 0
Next == ph = "pair" /\ n >= 2 /\ ph' = "drawn" /\ d1' \in 0..(n - 1) /\ d2' \in 0..(n - 2) /\ UNCHANGED <<n, lo, hi>>
Spec == Init /\ [][Next]_<<n, lo, hi, d1, d2, ph>>
Second(x, y) == IF y >= x THEN y + 1 ELSE y
PairLegal == ph = "drawn" => Second(d1, d2) \in 0..(n - 1) /\ Second(d1, d2) # d1
(* the map from draws to ordered pairs is a bijection, so every pair is equally likely *)
PairBijection == (ph = "pair" /\ n >= 2) =>
    {<<x, Second(x, y)>> : x \in 0..(n - 1), y \in 0..(n - 2)} = {p \in (0..(n - 1)) \X (0..(n - 1)) : p[1] # p[2]}
(* a range is drawn as length and start: all admitted ones, each exactly once *)
RangeComplete == ph = "pair" =>
    LET draws == UNION {{<<len, s>> : s \in 0..(n - len)} : len \in lo..hi} IN
    /\ \A d \in draws : d[2] + d[1] <= n
    /\ Cardinality({<<d[2], d[2] + d[1]>> : d \in {x \in draws : x[1] > 0}}) = Cardinality({x \in draws : x[1] > 0})
(* with ranges of at least two places every place is covered by some range *)
PlaceCovered == (ph = "pair" /\ n >= 2) =>
    \A k \in 0..(n - 1) : \E len \in 2..n, s \in 0..(n - 2) : s + len <= n /\ s <= k /\ k < s + len
(* a request is admitted exactly if there is an answer to it *)
AnswersExist == ph = "pair" =>
    /\ Admits("pair", n, 0, 0) <=> \E x, y \in 0..(n - 1) : x # y
    /\ Admits("range", n, 0, 0) <=> \E s, e \in 0..n : s < e
    /\ \A a, b \in 0..n : Admits("bounded", n, a, b) <=> \E s, e \in 0..n : s <= e /\ e - s >= a /\ e - s <= b
=============================================================================
