-------------------------------- MODULE Base --------------------------------
(* Definitions that every module shares.                                     *)
(*                                                                           *)
(* Individuals are pairs <<g, f>>: a genome g (here a number that names it)  *)
(* and a fitness f. Fitness values are indices into an increasing table of   *)
(* numbers, so their order is the order of the fitness values.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

CONSTANT Prop  \* the property that is being decided, or "ALL"

(* A requirement of one property: it only restricts when that property is decided. *)
Req(ids, cond) == TRUE = (IF Prop = "ALL" \/ Prop \in ids THEN cond ELSE TRUE)

G(i) == i[1]
F(i) == i[2]

Sorted(s) == \A k \in 1..(Len(s) - 1) : F(s[k]) <= F(s[k + 1])
Distinct(s) == Cardinality(Range(s)) = Len(s)
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) ==
    /\ Len(s) = Len(t)
    /\ Range(s) = Range(t)
    /\ Distinct(s) \/ \A x \in Range(s) : Count(s, x) = Count(t, x)
MaxF(s) == IF s = <<>> THEN -1 ELSE FoldSeq(LAMBDA x, acc : IF F(x) > acc THEN F(x) ELSE acc, F(s[1]), s)
MinF(s) == IF s = <<>> THEN -1 ELSE FoldSeq(LAMBDA x, acc : IF F(x) < acc THEN F(x) ELSE acc, F(s[1]), s)
SumSeq(s) == FoldSeq(LAMBDA x, acc : acc + x, 0, s)
Fs(s) == [k \in DOMAIN s |-> F(s[k])]
Tail0(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))   \* the last n elements
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
(* floor of the square root *)
RECURSIVE ISqrtR(_, _, _)
ISqrtR(n, lo, hi) ==
    IF lo + 1 >= hi THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF m <= 46340 /\ m * m <= n THEN ISqrtR(n, m, hi) ELSE ISqrtR(n, lo, m)
ISqrt(n) == ISqrtR(n, 0, 46341)
=============================================================================
