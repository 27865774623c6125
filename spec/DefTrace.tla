------------------------------ MODULE DefTrace ------------------------------
(* Accepts exactly the default parameters and the runs with them that        *)
(* Defaults allows.                                                          *)
EXTENDS Defaults, Json, IOUtils
VARIABLES c, l, par, start, given, gen, members, rates
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ par = <<>> /\ start = "" /\ given = 0 /\ gen = -1 /\ members = 0 /\ rates = <<>>
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, par, start, given, gen, members, rates>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ \/ /\ E.k = "par"       \* default parameters, with some fields changed
          /\ par' = With(Default(E.alg), E.sets)
          /\ Req({"C33"}, /\ \A f \in DOMAIN par' : E.p[f] = par'[f]
                          /\ E.ok = 1 /\ E.first = par'.size /\ E.max = par'.size)
          /\ UNCHANGED <<start, given, gen, members, rates>>
       \/ /\ E.k = "size"      \* the sizes reported, as digits to base 10^9
          /\ Req({"C33"}, E.first = E.size /\ E.max = E.size)
          /\ UNCHANGED <<par, start, given, gen, members, rates>>
       \/ /\ E.k = "rp"        \* default parameters of reproduction
          /\ Req({"C33"}, /\ E.cr = Default("ga").chi /\ E.mr = Default("ga").mhi
                          /\ E.share \in (RouletteShare - E.tol)..(RouletteShare + E.tol))
          /\ UNCHANGED <<par, start, given, gen, members, rates>>
       \/ /\ E.k = "start"
          /\ start' = E.start /\ given' = E.given /\ gen' = 0
          /\ members' = Members(par, E.start, E.given, 0)
          /\ rates' = Rates(par, <<>>, 0, FALSE)
          /\ Req({"C33"}, /\ E.panic = 0 /\ E.tag = E.want
                          /\ E.n = members' /\ E.asked = IF E.start = "rand" THEN par.size ELSE 0)
          /\ par' = par
       \/ /\ E.k = "turn"      \* a generation was bred from the one before
          /\ gen' = gen + 1 /\ members' = par.size
          /\ rates' = Rates(par, rates, gen + 1, E.flat = 1)
          /\ Req({"C33"}, /\ E.g = gen + 1 /\ E.tag = E.want
                          /\ E.n = par.size /\ E.kept = Kept(par, members) /\ E.bred = Bred(par, members)
                          /\ E.rates = IF E.bred = 0 THEN <<>> ELSE <<rates>>)
          /\ UNCHANGED <<par, start, given>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l, par, start, given, gen, members, rates>>
=============================================================================
