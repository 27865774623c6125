----------------------------- MODULE ParamTrace -----------------------------
(* Accepts exactly the uses of parameters and selectors that Params allows.  *)
(* Each number is a pair <<thousandths, number in the table>>, so that what  *)
(* is read back must be exactly what was given.                              *)
EXTENDS Params, Json, IOUtils
VARIABLES c, l, obj
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
N(p) == p[1]
Ns(s) == [k \in DOMAIN s |-> s[k][1]]
Init == c \in 1..Len(Cases) /\ l = 0 /\ obj = NoObj
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, obj>>
Valid(e) == Accepted(e.size, e.el, e.rates, e.t, e.a)
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ CASE E.k = "validate" ->   \* without the strategy, which is checked when the selector is created
              Req({"C14"}, (E.ok = 1) = Accepted(E.size, E.el, E.rates, "rank", <<>>)) /\ UNCHANGED obj
         [] E.k = "configure" -> Req({"C14"}, (E.ok = 1) = Valid(E)) /\ UNCHANGED obj
         [] E.k = "run" ->
              Req({"C14"}, (E.ok = 1) = Valid(E) /\ E.asked = IF Valid(E) THEN 1 ELSE 0) /\ UNCHANGED obj
         [] E.k = "make" -> Req({"C14"}, (E.ok = 1) = StrategyOK(E.t, E.a)) /\ UNCHANGED obj
         [] E.k = "new" ->
              LET ok == StrategyOK(E.t, Ns(E.a)) IN
              /\ Req({"C14"}, (E.ok = 1) = ok /\ (ok => E.back = E.a))
              /\ obj' = IF ok THEN <<E.t, E.a>> ELSE NoObj
         [] E.k = "set" ->
              LET a2 == [obj[2] EXCEPT ![E.i] = E.v]
                  ok == StrategyOK(obj[1], Ns(a2))
              IN  /\ Req({"C14"}, (E.ok = 1) = ok /\ E.back = IF ok THEN a2 ELSE obj[2])
                  /\ obj' = IF ok THEN <<obj[1], a2>> ELSE obj
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l, obj>>
=============================================================================
