------------------------------ MODULE SelTrace ------------------------------
EXTENDS Selection, Json, IOUtils
VARIABLES c, l, mem
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ mem = Cases[c].mem
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, mem>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ mem' = mem
    /\ \/ E.k = "sel" /\ Req({"C16"}, \A k \in DOMAIN E.res :
             /\ E.res[k][1] + 1 \in DOMAIN mem
             /\ mem[E.res[k][1] + 1] = E.res[k][2])
       (* a population of thousands, extreme random numbers *)
       \/ E.k = "edge" /\ Req({"C16"}, E.bad = 0)
       (* the population, read again at the end *)
       \/ E.k = "mem" /\ Req({"C16"}, E.mem = mem)
       \/ E.k = "pan" /\ Req({"C16"}, FALSE)
       \/ E.k = "cnt" /\ Req({E.prop}, Follows(E.cnt, E.N, Weights(E.s, Len(E.cnt), E.par, E.fit)))
       (* a population of thousands in bins of equally many; the others of the bins have *)
       (* the laws of single ranks. bad: a position that is not the one of the member    *)
       \/ E.k = "bulk" /\ Req({"C16", E.prop}, E.bad = 0)
                       /\ Req({E.prop}, Follows(E.cnt, E.N, Weights(E.s, Len(E.cnt), E.par, E.fit)))
       \/ E.k = "mono" /\ Req({"C18"}, Monotone(E.cnt, E.fit))
       (* the temperature after E.n preparations, in thousandths *)
       \/ E.k = "temp" /\ Req({"C18"}, E.t = (E.t0 * Pow(E.num, E.n)) \div Pow(E.den, E.n))
       \/ E.k = "dis" /\ Req({"C19"}, DistinctOK(mem, E.script, E.ex, E.max, E.used, E.res))
       \/ E.k = "weak" /\ Req({"C19"}, DistinctWeak(mem, E.ex, E.max, E.res))
       \/ E.k = "dfreq" /\ Req({"C19"}, DistinctFreq(E.n, E.max, E.N, E.cnt))
       \/ E.k = "dpan" /\ Req({"C19"}, FALSE)
       \/ E.k = "cpan" /\ Req({E.prop}, FALSE)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l, mem>>
=============================================================================
