---------------------------- MODULE OneMaxTrace -----------------------------
(* Accepts exactly the recorded uses and runs of OneMax that OneMax allows.  *)
EXTENDS OneMax, Json, IOUtils
VARIABLES c, l, run, best, gens
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
Init == c \in 1..Len(Cases) /\ l = 0 /\ run = <<0, 0>> /\ best = -1 /\ gens = 0
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l, run, best, gens>>
BitsOK(g) == \A k \in DOMAIN g : g[k] \in {0, 1}
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ CASE E.k = "rand" -> Req({"C30"}, Len(E.g) = E.len) /\ UNCHANGED <<run, best, gens>>
         [] E.k = "both" ->   \* over many random genomes both bits stand in every place
              Req({"C30"}, Len(E.ones) = E.len /\ \A k \in DOMAIN E.ones : Freq(E.ones[k], 200000, 5000))
              /\ UNCHANGED <<run, best, gens>>
         [] E.k = "apart" ->   \* bits are independent: of E.n genomes, those with two given bits equal
              Req({"C30"}, 2 * E.least >= E.n - 600 /\ 2 * E.most <= E.n + 600) /\ UNCHANGED <<run, best, gens>>
         [] E.k = "eval" ->
              Req({"C30"}, E.g2 = E.g /\ FitnessOK(E.g, E.f) /\ (E.valid = 1) = (E.g # <<>>))
              /\ UNCHANGED <<run, best, gens>>
         [] E.k = "big" ->   \* of a long genome only the counts are known; rand: the length of a random one
              Req({"C30"}, E.same = 1 /\ CountOK(E.ones, E.len, E.f) /\ E.rand = E.len)
              /\ UNCHANGED <<run, best, gens>>
         [] E.k = "cross" -> Req({"C30"}, ChildOK(E.a, E.b, E.o)) /\ UNCHANGED <<run, best, gens>>
         [] E.k = "reach" ->   \* all that was seen over many calls
              Req({"C30"}, Range(E.kids) \subseteq Children(E.a, E.b)
                           /\ Range(E.muts) = Mutants(E.a)
                           /\ E.a # E.b => Cardinality(Range(E.kids)) >= Cardinality(Children(E.a, E.b) \ {E.a, E.b}))
              /\ UNCHANGED <<run, best, gens>>
         (* E.n crossovers of long parents that differ in every place, and mutations: the tenths in which the *)
         (* point lies, and the changed place (same: none; a genome of equal genes cannot change); odd: others *)
         [] E.k = "far" ->
              /\ Req({"C30"}, E.odd = 0 /\ SumSeq(E.points) = E.n /\ SumSeq(E.muts) + E.same = E.n
                              /\ \A t \in 1..10 : E.points[t] > 0 /\ (E.muts[t] > 0) = (E.even = 0))
              /\ UNCHANGED <<run, best, gens>>
         [] E.k = "mut" -> Req({"C30"}, MutantOK(E.g, E.o)) /\ UNCHANGED <<run, best, gens>>
         [] E.k = "begin" -> run' = <<E.len, E.n>> /\ best' = -1 /\ gens' = 0
         [] E.k = "gen" ->   \* mem: <<genome, fitness>>
              /\ Req({"C30"}, /\ \A k \in DOMAIN E.mem : Len(E.mem[k][1]) = run[1] /\ FitnessOK(E.mem[k][1], E.mem[k][2])
                              /\ Len(E.mem) >= 1 /\ Len(E.mem) <= run[2]
                              /\ E.gen = gens)
              /\ best' = FoldSeq(LAMBDA x, acc : Max2(acc, x[2][1]), best, E.mem) /\ gens' = gens + 1 /\ run' = run
         [] E.k = "end" -> Req({"C30"}, Len(E.g) = run[1] /\ FitnessOK(E.g, E.f) /\ E.f[1] = best) /\ UNCHANGED <<run, best, gens>>
         [] E.k = "refused" -> Req({"C30"}, run[1] = 0 /\ gens = 0) /\ UNCHANGED <<run, best, gens>>
         [] E.k = "pan" -> Req({"C30"}, FALSE) /\ UNCHANGED <<run, best, gens>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l, run, best, gens>>
=============================================================================
