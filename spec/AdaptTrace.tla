----------------------------- MODULE AdaptTrace -----------------------------
(* Accepts exactly the histories of rates of an adaptive algorithm that      *)
(* Adaptive defines.                                                         *)
EXTENDS Adaptive, Json, IOUtils
VARIABLES c, l, p, ref, rates
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ p = <<>> /\ ref = <<0, 1>> /\ rates = <<0, 0>>
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, p, ref, rates>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ CASE E.k = "conf" -> p' = E.p /\ UNCHANGED <<ref, rates>>
         [] E.k = "gen" ->
              /\ Req({"C13"}, InRanges(p, E.rates) /\ RatesOK(p, E.g, E.fs, ref, rates, E.rates))
              /\ rates' = E.rates /\ ref' = RefNext(p, E.g, E.fs, ref) /\ p' = p
         [] E.k = "crowd" ->   \* the reference is a deviation here
              /\ Req({"C13"}, InRanges(p, E.rates) /\ CrowdOK(p, E.g, E.x, ref[1], rates, E.rates))
              /\ rates' = E.rates /\ ref' = (IF E.g = 0 THEN <<CrowdStd(E.x), 0>> ELSE ref) /\ p' = p
         [] E.k = "pan" -> Req({"C13"}, FALSE) /\ UNCHANGED <<p, ref, rates>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l, p, ref, rates>>
=============================================================================
