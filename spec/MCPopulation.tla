---------------------------- MODULE MCPopulation ----------------------------
(* All histories of populations over a few genomes, with a replacement       *)
(* algorithm (sort, then remove duplicates within runs of equal fitness)     *)
(* that must refine the declarative Canonical.                               *)
EXTENDS Population, Json
CONSTANTS Genes,      \* genomes
          FitOf,      \* their fitness
          MaxLen,     \* of a collection
          MaxGen,
          Emit        \* print the histories, for the replay into the code
VARIABLES hist

Ind == {<<g, FitOf[g]>> : g \in Genes}
FitTable == <<0, 1, 1, 2>>
Bags == UNION {[1..n -> Ind] : n \in 1..MaxLen}

(* the canonical members, as some sorted sequence of the distinct ones *)
Arrangements(S) == {s \in [1..Cardinality(S) -> S] : Distinct(s) /\ Sorted(s)}

(* --- the algorithm: an unstable sort gives any sorted arrangement of the bag --- *)
SortedArr(b) == {t \in [DOMAIN b -> Range(b)] : SameBag(t, b) /\ Sorted(t)}
RECURSIVE Dedup(_, _, _, _)
Dedup(s, i, runStart, kept) ==
    IF i > Len(s) THEN kept
    ELSE LET rs == IF i > 1 /\ F(kept[runStart]) # F(s[i]) THEN Len(kept) + 1 ELSE runStart
             run == SubSeq(kept, rs, Len(kept))
         IN  IF s[i] \in Range(run) THEN Dedup(s, i + 1, rs, kept)
             ELSE Dedup(s, i + 1, rs, Append(kept, s[i]))
(* the algorithm before the repair 9c5175b: only adjacent duplicates are removed *)
RECURSIVE Adjacent(_, _, _)
Adjacent(s, i, kept) ==
    IF i > Len(s) THEN kept
    ELSE IF kept # <<>> /\ kept[Len(kept)] = s[i] THEN Adjacent(s, i + 1, kept)
    ELSE Adjacent(s, i + 1, Append(kept, s[i]))

FirstMin(m) == CHOOSE k \in 0..(Len(m) - 1) : F(m[k + 1]) = MinF(m)
FirstMax(m) == CHOOSE k \in 0..(Len(m) - 1) : F(m[k + 1]) = MaxF(m)
StatOf(m) == LET mo == Moments(Fs(m)) IN
    <<Len(m), MinF(m), FirstMin(m), MaxF(m), FirstMax(m), 1, mo[1], mo[2]>>

Init == pop = NoPop /\ hist = <<>>
Next ==
    \E b \in Bags :
        /\ hist' = Append(hist, b)
        /\ Len(hist) <= MaxGen
        /\ \E s \in SortedArr(b) :
             LET out == Dedup(s, 1, 1, <<>>) IN
             IF Alive THEN
                 Replace(b, pop.mem, out, pop.gen + 1, NextStag(pop, out), StatOf(out), out[FirstMax(out) + 1])
             ELSE New(b, out, 0, 0, StatOf(out), out[FirstMax(out) + 1])
Spec == Init /\ [][Next]_<<pop, hist>>

(* C01: the members are the distinct individuals of the last collection, in order. *)
MembersCanonical == Alive => Canonical(hist[Len(hist)], pop.mem)
(* C01: the replacement algorithm yields a canonical form for every bag and sorting *)
ASSUME \A b \in Bags : \A s \in SortedArr(b) : Canonical(b, Dedup(s, 1, 1, <<>>))
(* sanity: the defective algorithm does not *)
ASSUME \E b \in Bags : \E s \in SortedArr(b) : ~Canonical(b, Adjacent(s, 1, <<>>))
(* C02 *)
Described == Alive => /\ StatsOf(pop.mem, StatOf(pop.mem))
                      /\ FittestOf(pop.mem, pop.mem[Len(pop.mem)])
(* C03: the counters are functions of the history of best values *)
Best(k) == MaxF(hist[k])
CountersFollow == Alive =>
    /\ pop.gen = Len(hist) - 1
    /\ pop.stag = CHOOSE n \in 0..pop.gen :
          /\ \A k \in (Len(hist) - n + 1)..Len(hist) : Best(k) <= Best(k - 1)
          /\ n < pop.gen => Best(Len(hist) - n) > Best(Len(hist) - n - 1)
Emitted == (Emit /\ Len(hist) = MaxGen + 1) => PrintT("REPLAY " \o ToJson(hist))
View == <<pop, hist>>
=============================================================================
