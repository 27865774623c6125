--------------------------- MODULE MCInterpolation ---------------------------
(* Every range and ratio within the bounds, walked from ratio 0 to 1: the    *)
(* interpolated number stays in the range, rises with the ratio, begins and  *)
(* ends at its ends, and takes every whole number once the steps are fine.   *)
EXTENDS Interpolation, Json
CONSTANTS MaxD, Dens, Los, Emit
VARIABLES lo, d, num, den, at, met
vars == <<lo, d, num, den, at, met>>
Init == lo \in Los /\ d \in 0..MaxD /\ den \in Dens /\ num = 0 /\ at = 0 /\ met = {0}
Next == /\ num < den
        /\ num' = num + 1
        /\ \E r \in 0..d, side \in -1..1 : Usize(d, num', den, side, r) /\ at' = r
        /\ met' = met \cup {at'}
        /\ UNCHANGED <<lo, d, den>>
Spec == Init /\ [][Next]_vars
Within == at \in 0..d
AtTheEnds == (num = 0 => at = 0) /\ (num = den => at = d)
NeverFalls == [][at' >= at - (IF Dyadic(den) THEN 0 ELSE 1)]_vars
Complete == (num = den /\ Dyadic(den) /\ den >= d) => met = 0..d
Emitted == Emit => PrintT("REPLAY " \o ToJson(<<lo, d, num, den>>))
=============================================================================
