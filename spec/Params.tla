------------------------------- MODULE Params -------------------------------
(* What parameters are accepted (C14). Numbers are in thousandths; 1 and 999 *)
(* and 1001 also stand for the nearest neighbors of 0 and 1. NaN is no       *)
(* number; Inf and -Inf are the infinities.                                  *)
EXTENDS Base
NaN == 77777
Inf == 99999
InUnit(x) == x # NaN /\ x >= 0 /\ x <= 1000           \* [0, 1]
BelowOne(x) == x # NaN /\ x >= 0 /\ x < 1000          \* [0, 1)

(* a selection strategy: its kind and its arguments *)
StrategyOK(t, a) ==
    CASE t = "tour" -> a[1] # 0
      [] t = "elit" -> BelowOne(a[1])
      [] t = "bolt" -> a[2] # 0
      [] OTHER -> TRUE                                  \* linear, rank, roulette wheel
(* the parameters of an algorithm: size, elitism rate, all rates (or bounds of their ranges), strategy *)
Accepted(size, el, rates, t, a) ==
    /\ size # 0 /\ BelowOne(el) /\ \A k \in DOMAIN rates : InUnit(rates[k])
    /\ StrategyOK(t, a)

(* A selector that was created keeps its arguments until one is set; what is *)
(* refused changes nothing. obj = <<kind, arguments>>, or <<>>.              *)
NoObj == <<>>
Create(obj, t, a, ok, obj2) == ok = StrategyOK(t, a) /\ obj2 = IF ok THEN <<t, a>> ELSE NoObj
Set(obj, i, v, ok, obj2) ==
    LET a2 == [obj[2] EXCEPT ![i] = v] IN
    ok = StrategyOK(obj[1], a2) /\ obj2 = IF ok THEN <<obj[1], a2>> ELSE obj
=============================================================================
