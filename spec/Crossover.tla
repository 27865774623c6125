------------------------------ MODULE Crossover ------------------------------
(* What every crossover operator yields (src/operators/crossover.rs and the  *)
(* helpers in src/operators.rs), stated on the parents and the offspring.    *)
(* Genes are numbers; a and b are the parents, o is the offspring. Ranges    *)
(* s..e and points are zero-based and half open, as in the code.             *)
EXTENDS Base

IsPerm(a) == Distinct(a)
Orderings(a, b) == Distinct(a) /\ Distinct(b) /\ Range(a) = Range(b)
Pos(x, s) == CHOOSE k \in DOMAIN s : s[k] = x
Cyc(k, n) == ((k - 1) % n) + 1              \* 1-based cyclic index
ElemsFrom(s, k) == [j \in 1..Len(s) |-> s[Cyc(k + j - 1, Len(s))]]  \* s, starting at k, wrapped

(* C20 *)
PermutationOf(a, o) == Len(o) = Len(a) /\ Range(o) = Range(a)  \* with a distinct: each gene once

(* C21 *)
OXResult(a, b, s, e) ==
    LET n == Len(a)
        seg == {a[k] : k \in (s + 1)..e}
        src == SelectSeq(ElemsFrom(b, e + 1), LAMBDA x : x \notin seg)
        (* the places after the range, in cyclic order: e+1, ..., n, 1, ..., s *)
        Rank(k) == IF k > e THEN k - e ELSE (n - e) + k
    IN  [k \in 1..n |-> IF k > s /\ k <= e THEN a[k] ELSE src[Rank(k)]]
RECURSIVE Chase(_, _, _, _, _)
Chase(a, b, s, e, x) ==
    IF \E k \in (s + 1)..e : a[k] = x
    THEN Chase(a, b, s, e, b[CHOOSE k \in (s + 1)..e : a[k] = x])
    ELSE x
PMXResult(a, b, s, e) ==
    [k \in DOMAIN a |-> IF k > s /\ k <= e THEN a[k] ELSE Chase(a, b, s, e, b[k])]
SPXResult(a, b, p) == [k \in DOMAIN a |-> IF k <= p THEN a[k] ELSE b[k]]

(* C22: the cycle of place k: where a[k] stands in b, and so on *)
RECURSIVE CycleOf(_, _, _, _)
CycleOf(a, b, k, acc) ==
    IF k \in acc THEN acc ELSE CycleOf(a, b, Pos(a[k], b), acc \cup {k})
RECURSIVE CXFrom(_, _, _, _, _)
CXFrom(a, b, done, first, o) ==
    IF done = DOMAIN a THEN o
    ELSE LET start == CHOOSE k \in DOMAIN a \ done : \A j \in DOMAIN a \ done : k <= j
             cyc == CycleOf(a, b, start, {})
         IN  CXFrom(a, b, done \cup cyc, ~first,
                    [k \in DOMAIN a |-> IF k \in cyc THEN (IF first THEN a[k] ELSE b[k]) ELSE o[k]])
CXResult(a, b) == CXFrom(a, b, {}, TRUE, a)
(* The same of long parents over the genes 1..n, in linear time: inv says where a *)
(* gene stands in b, cyc to which cycle a place belongs, and rank how many steps  *)
(* lead to it from the first place of the cycle; whether they do is checked.      *)
CXLongOK(a, b, inv, cyc, rank, o) ==
    /\ Len(inv) = Len(a) /\ Len(o) = Len(a)
    /\ \A k \in DOMAIN a :
         /\ inv[b[k]] = k
         /\ LET m == inv[a[k]] IN cyc[m] = cyc[k] /\ rank[m] \in {0, rank[k] + 1}
         /\ o[k] = IF cyc[k] % 2 = 1 THEN a[k] ELSE b[k]
    /\ FoldLeft(LAMBDA acc, k : IF acc < 0 \/ cyc[k] > acc + 1 \/ (cyc[k] = acc + 1) # (rank[k] = 0) THEN -1
                                ELSE IF rank[k] = 0 THEN acc + 1 ELSE acc,
                0, [k \in DOMAIN a |-> k]) > 0

(* C23 *)
Next1(s, x) == s[Cyc(Pos(x, s) + 1, Len(s))]
Prev1(s, x) == s[Cyc(Pos(x, s) + Len(s) - 1, Len(s))]
Neighbors(a, b, x) == {Next1(a, x), Prev1(a, x), Next1(b, x), Prev1(b, x)} \ {x}
(* the genes that may follow the last one, given the unused genes *)
ERXChoices(nb, last, unused) ==
    LET cand == nb[last] \cap unused
        deg(g) == Cardinality(nb[g] \cap unused)
    IN  IF cand = {} THEN unused
        ELSE {g \in cand : \A h \in cand : deg(g) <= deg(h)}
SCXChoices(a, b, last, unused) ==
    LET n1 == Next1(a, last)
        n2 == Next1(b, last)
        p1 == Pos(n1, b)
        p2 == Pos(n2, a)
    IN  IF n1 \in unused /\ n2 \in unused
        THEN IF p1 < p2 THEN {n1} ELSE IF p2 < p1 THEN {n2} ELSE {n1, n2}
        ELSE IF n1 \in unused THEN {n1}
        ELSE IF n2 \in unused THEN {n2}
        ELSE {a[CHOOSE k \in DOMAIN a : a[k] \in unused /\ \A j \in 1..(k - 1) : a[j] \notin unused]}
UsedUpTo(o, k) == {o[j] : j \in 1..k}
ERXOK(a, b, pivot, o) ==
    LET nb == [x \in Range(a) |-> Neighbors(a, b, x)] IN
    /\ Len(o) = Len(a)
    /\ a # <<>> => o[1] = pivot
    /\ Range(o) \subseteq Range(a)
    /\ \A k \in 1..(Len(o) - 1) : o[k + 1] \in ERXChoices(nb, o[k], Range(a) \ UsedUpTo(o, k))
SCXOK(a, b, pivot, o) ==
    /\ Len(o) = Len(a)
    /\ a # <<>> => o[1] = pivot
    /\ Range(o) \subseteq Range(a)
    /\ \A k \in 1..(Len(o) - 1) : o[k + 1] \in SCXChoices(a, b, o[k], Range(a) \ UsedUpTo(o, k))

(* C24: pairs are sets of two genes *)
Adjacent(s) == IF Len(s) < 2 THEN {} ELSE {{s[k], s[Cyc(k + 1, Len(s))]} : k \in DOMAIN s}
Common(a, b) == Adjacent(a) \cap Adjacent(b)
PairSet(ps) == {{ps[k][1], ps[k][2]} : k \in DOMAIN ps}
CommonNeighborsOK(a, b, ps) == PairSet(ps) = Common(a, b) /\ Len(ps) = Cardinality(Common(a, b))
Chain(p, cm) == p # <<>> /\ \A k \in 1..(Len(p) - 1) : {p[k], p[k + 1]} \in cm
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
Continues(p, q, cm) == \E k \in DOMAIN q : {p[Len(p)], q[k]} \in cm
Splits(a, ps) == LET f == Flat(ps) IN Len(f) = Len(a) /\ Range(f) = Range(a)
CommonPartitionsOK(a, b, ps) ==
    LET cm == Common(a, b) IN
    /\ Splits(a, ps)
    /\ \A i \in DOMAIN ps : Chain(ps[i], cm)
    /\ \A i \in DOMAIN ps : \A j \in (i + 1)..Len(ps) : ~Continues(ps[i], ps[j], cm)
(* The same, for partitions whose order is not known: no two can continue each other. *)
PartitionsOK(a, b, ps) ==
    LET cm == Common(a, b) IN
    /\ Splits(a, ps)
    /\ \A i \in DOMAIN ps : Chain(ps[i], cm)
    /\ \A i, j \in DOMAIN ps : i # j => ~(Continues(ps[i], ps[j], cm) /\ Continues(ps[j], ps[i], cm))
(* The calls of the selection function: <<last gene or 0, partitions offered, index chosen>> *)
GPXCallsOK(a, b, calls, o) ==
    IF a = <<>> THEN calls = <<>> /\ o = <<>>
    ELSE LET parts == calls[1][2]
             Chosen(k) == calls[k][2][calls[k][3] + 1]
         IN  /\ calls # <<>>
             /\ PartitionsOK(a, b, parts)
             /\ Len(calls) = Len(parts)
             /\ \A k \in DOMAIN calls :
                  /\ calls[k][1] = IF k = 1 THEN 0 ELSE Chosen(k - 1)[Len(Chosen(k - 1))]
                  /\ Len(calls[k][2]) = Len(parts) - (k - 1)
                  /\ Range(calls[k][2]) = Range(parts) \ {Chosen(j) : j \in 1..(k - 1)}
             /\ o = Flat([k \in DOMAIN calls |-> Chosen(k)])
(* The same for parents that have no neighbors in common, with as many       *)
(* partitions as genes. calls: <<last gene or 0, number of partitions, 1 if  *)
(* each is one gene, their sum, the gene chosen>>                            *)
Apart(a, b) == LET p == [k \in DOMAIN b |-> b[k]] IN \A k \in DOMAIN a :
    LET i == Pos(a[k], p) IN a[Cyc(k + 1, Len(a))] \notin {p[Cyc(i + 1, Len(a))], p[Cyc(i + Len(a) - 1, Len(a))]}
RECURSIVE ApartFrom(_, _, _, _, _)
ApartFrom(calls, n, k, last, left) ==
    IF k > n THEN left = 0
    ELSE LET c == calls[k] IN c[1] = last /\ c[2] = n - k + 1 /\ c[3] = 1 /\ c[4] = left /\ ApartFrom(calls, n, k + 1, c[5], left - c[5])
ApartOK(a, b, calls, o) ==
    /\ Apart(a, b)
    /\ Len(calls) = Len(a) /\ ApartFrom(calls, Len(a), 1, 0, SumSeq(a))
    /\ o = [k \in DOMAIN a |-> calls[k][5]]
(* Could o be a GPX2 offspring for some choice? It can be cut into such partitions. *)
RECURSIVE CutAt(_, _, _)
CutAt(o, cuts, from) ==
    IF from > Len(o) THEN <<>>
    ELSE LET ends == {k \in from..Len(o) : k \in cuts \/ k = Len(o)}
             e == CHOOSE k \in ends : \A j \in ends : k <= j
         IN  <<SubSeq(o, from, e)>> \o CutAt(o, cuts, e + 1)
GPXPossible(a, b, o) ==
    /\ Len(o) = Len(a) /\ Range(o) = Range(a)
    /\ LET cm == Common(a, b)
           forced == {k \in 1..(Len(o) - 1) : {o[k], o[k + 1]} \notin cm}
           free == (1..(Len(o) - 1)) \ forced
       IN  \E x \in SUBSET free : PartitionsOK(a, b, CutAt(o, forced \cup x, 1))
=============================================================================
