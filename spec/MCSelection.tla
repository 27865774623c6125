----------------------------- MODULE MCSelection -----------------------------
(* The mechanisms as machines that turn draws into positions. The draws of   *)
(* every mechanism are enumerated, equally likely; the number of the draws   *)
(* that end at a rank must be the weight of that rank (or a fixed multiple). *)
(* And the machine that selects a distinct individual, for every script of   *)
(* attempts; the scripts are emitted for the replay into the code.           *)
EXTENDS Selection, Json
CONSTANTS MaxN, MaxK, MaxTries, Emit

(* cumulative selection: the first position whose cumulated weight reaches the target *)
RECURSIVE Cumulate(_, _, _, _)
Cumulate(w, t, i, acc) ==
    IF i > Len(w) THEN Len(w)
    ELSE IF acc + w[i] >= t THEN i ELSE Cumulate(w, t, i + 1, acc + w[i])
ByTarget(w) == [i \in DOMAIN w |-> Cardinality({t \in 1..SumW(w) : Cumulate(w, t, 1, 0) = i})]
Vectors == UNION {[1..n -> 0..3] : n \in 1..4}
ASSUME \A w \in Vectors : SumW(w) > 0 => ByTarget(w) = w
ASSUME \A n \in 1..MaxN : ByTarget(RankW(n)) = RankW(n)
(* a target of exactly zero (a random number of zero) selects the first rank, whatever its weight *)
(* tournaments: the best of k draws *)
Best(s) == FoldSeq(LAMBDA x, acc : Max2(x, acc), 0, s)
ASSUME \A n \in 1..MaxN, k \in 1..MaxK :
    [i \in 1..n |-> Cardinality({s \in [1..k -> 1..n] : Best(s) = i})] = TournamentW(n, k)
(* the weights add up, and never favor a lower rank *)
Biases == {100, 101, 120, 125, 150, 175, 199, 200}
ASSUME \A n \in 1..MaxN : /\ \A b \in Biases : SumW(LinearW(n, b)) = 100 * n * n
                          /\ \A k \in 1..MaxK : SumW(TournamentW(n, k)) = Pow(n, k)
Ascending(w) == \A i \in 1..(Len(w) - 1) : w[i] <= w[i + 1]
ASSUME \A n \in 1..MaxN :
    /\ Ascending(RankW(n))
    /\ \A b \in Biases : Ascending(LinearW(n, b)) /\ \A i \in 1..n : LinearW(n, b)[i] >= 0
    /\ \A k \in 1..MaxK : Ascending(TournamentW(n, k))
    /\ \A h \in 0..99 : Ascending(ElitistW(n, h)) /\ SumW(ElitistW(n, h)) >= 1
    /\ LinearW(n, 100) = [i \in 1..n |-> 100 * n]
(* the inverse of F: with u uniform in (0,1), x = F^-1(u), the rank is n - floor(n x);    *)
(* floor(n x) = k exactly for u in [F(k/n), F((k+1)/n)); in units of 1 / (100 n^2)         *)
F100(n, b, k) == b * k * n - (b - 100) * k * k
ASSUME \A n \in 1..MaxN, b \in Biases :
    /\ F100(n, b, 0) = 0 /\ F100(n, b, n) = 100 * n * n
    /\ \A k \in 0..(n - 1) : LinearW(n, b)[n - k] = F100(n, b, k + 1) - F100(n, b, k)
(* only differences matter for Boltzmann selection *)
ASSUME \A e \in UNION {[1..n -> 0..3] : n \in 1..3} :
    BoltzmannW(e) = BoltzmannW([i \in DOMAIN e |-> e[i] + 7])

(* ---- distinct selection, attempt by attempt ---- *)
VARIABLES mem, ex, max, script, tries, res
vars == <<mem, ex, max, script, tries, res>>
Mems == {<<1>>, <<1, 2>>, <<1, 2, 3>>}
Init == /\ mem \in Mems /\ ex \in 0..3 /\ max \in 0..MaxTries
        /\ script \in [1..max -> 0..(Len(mem) - 1)]
        /\ tries = 0 /\ res = <<"running">>
Attempt ==
    /\ res = <<"running">>
    /\ IF tries = max THEN res' = <<>> /\ tries' = tries
       ELSE /\ tries' = tries + 1
            /\ LET x == mem[script[tries'] + 1] IN
               res' = IF x # ex THEN <<script[tries'], x>> ELSE res
    /\ UNCHANGED <<mem, ex, max, script>>
Spec == Init /\ [][Attempt]_vars
Finished == res # <<"running">>
DistinctRight == Finished => DistinctOK(mem, script, ex, max, tries, res) /\ DistinctWeak(mem, ex, max, res)
AtMost == tries <= max
NothingIff == (Finished /\ res = <<>>) <=> (Finished /\ \A k \in 1..max : mem[script[k] + 1] = ex)
Emitted == (Emit /\ tries = 0 /\ ~Finished) => PrintT("REPLAY " \o ToJson(<<mem, <<ex, max>>, script>>))
=============================================================================
