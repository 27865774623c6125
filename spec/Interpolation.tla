---------------------------- MODULE Interpolation ----------------------------
(* Linear interpolation (src/lib.rs) between lo <= hi at the ratio num/den,  *)
(* in exact fractions. Numbers are counted from lo, so a call is             *)
(* [d |-> hi - lo, num, den]; its value is d*num/den above lo.               *)
EXTENDS Base

Whole(d, num, den) == (d \div den) * num + ((d % den) * num) \div den
Rest(d, num, den) == ((d % den) * num) % den      \* in den-ths
Dyadic(den) == \E k \in 0..30 : den = 2 ^ k

(* the whole number below; if num/den is of the kind that was rounded (not    *)
(* dyadic) and its share is whole, side tells where the share of the rounded  *)
(* ratio lies: -1 below that number by more than the rounding of the result,  *)
(* 1 not below it, 0 too near to tell                                         *)
Usize(d, num, den, side, r) ==
    IF Rest(d, num, den) # 0 \/ Dyadic(den) \/ num \in {0, den} THEN r = Whole(d, num, den)
    ELSE \/ side >= 0 /\ r = Whole(d, num, den)
         \/ side <= 0 /\ r = Whole(d, num, den) - 1
(* r: in den-ths; off: how far the result is from that, in millionths,   *)
(* for rounding                                                              *)
Float(d, num, den, r, off) == r = d * num /\ off \in -20..20
(* a decreasing range (only for floating point numbers) has d < 0 *)

CallUsize(e) == Req({"C32"}, e.panic = 0 /\ Usize(e.d, e.num, e.den, e.side, e.r))
CallFloat(e) == Req({"C32"}, e.panic = 0 /\ Float(e.d, e.num, e.den, e.r, e.off))
(* results of one range at rising ratios, the last ones the largest number    *)
(* below 1, and 1: from zero (a share of something) only 1 is all of it      *)
Rising(rs) == \A k \in 1..(Len(rs) - 1) : rs[k] <= rs[k + 1]
Sweep(e) == Req({"C32"}, e.panic = 0 /\ Len(e.rs) >= 2 /\ e.rs[1] = 0 /\ e.rs[Len(e.rs)] = e.d /\ Rising(e.rs)
                            /\ (e.zero = 1 /\ e.d > 0 => e.rs[Len(e.rs) - 1] < e.d))
=============================================================================
