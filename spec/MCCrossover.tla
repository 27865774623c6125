----------------------------- MODULE MCCrossover -----------------------------
(* The operators as machines that build the offspring step by step, for all  *)
(* pairs of orderings of up to MaxN genes (the first parent is the identity: *)
(* the operators depend on equality of genes only) and all their choices.    *)
(* Every machine must end within a bound, with a permutation that satisfies  *)
(* the declarative description of its operator. The inputs are emitted for   *)
(* the replay into the code.                                                 *)
EXTENDS Crossover, Json
CONSTANTS MaxN, Emit, Ops
VARIABLES m   \* the machine: [op, a, b, par, o, ph, ...]

Perms(n) == {s \in [1..n -> 1..n] : Distinct(s)}
Id(n) == [k \in 1..n |-> k]
Blank(n) == [k \in 1..n |-> 0]
Base0(op, n, b, par) ==
    [op |-> op, a |-> Id(n), b |-> b, par |-> par, o |-> Blank(n), ph |-> "run", i |-> 1, j |-> 1,
     used |-> {}, flag |-> TRUE, cur |-> 0, parts |-> <<>>, calls |-> <<>>, steps |-> 0]
Ranges(n) == {<<s, e>> \in (0..n) \X (0..n) : s <= e}
Starts(op, n) ==
    IF op \in {"ox", "pmx"} THEN {Base0(op, n, b, p) : b \in Perms(n), p \in Ranges(n)}
    ELSE IF op = "spx" THEN {Base0(op, n, b, <<p>>) : b \in Perms(n), p \in 0..(n + 1)}
    ELSE IF op \in {"erx", "scx"} THEN {Base0(op, n, b, <<p>>) : b \in Perms(n), p \in 1..n}
    ELSE {Base0(op, n, b, <<>>) : b \in Perms(n)}
Init == \E op \in Ops, n \in 0..MaxN : m \in Starts(op, n)

N == Len(m.a)
Seg == {m.a[k] : k \in (m.par[1] + 1)..m.par[2]}
Inc(x) == [x EXCEPT !.steps = @ + 1]

(* order crossover: i is the place to fill, j the place to read, as in the code *)
OXStep ==
    LET s == m.par[1]
        e == m.par[2]
        nx(k) == IF k = N THEN 1 ELSE k + 1
    IN  IF m.ph = "run" THEN
            m' = IF N < 2 THEN Inc([m EXCEPT !.o = m.a, !.ph = "done"])
                 ELSE IF s = e THEN Inc([m EXCEPT !.o = m.b, !.ph = "done"])
                 ELSE Inc([m EXCEPT !.o = [k \in 1..N |-> IF k > s /\ k <= e THEN m.a[k] ELSE 0],
                                    !.i = IF e = N THEN 1 ELSE e + 1,
                                    !.j = IF e = N THEN 1 ELSE e + 1,
                                    !.ph = IF (IF e = N THEN 1 ELSE e + 1) = s + 1 THEN "done" ELSE "fill"])
        ELSE LET take == m.b[m.j] \notin Seg
                 i2 == IF take THEN nx(m.i) ELSE m.i
             IN  m' = Inc([m EXCEPT !.o = IF take THEN [m.o EXCEPT ![m.i] = m.b[m.j]] ELSE m.o,
                                    !.i = i2, !.j = nx(m.j), !.ph = IF i2 = s + 1 THEN "done" ELSE "fill"])
(* partially mapped crossover: i is the place, cur the gene being mapped (0: none) *)
PMXStep ==
    LET s == m.par[1]
        e == m.par[2]
    IN  IF N < 2 THEN m' = Inc([m EXCEPT !.o = m.a, !.ph = "done"])
        ELSE IF m.i > N THEN m' = Inc([m EXCEPT !.ph = "done"])
        ELSE IF m.i > s /\ m.i <= e THEN m' = Inc([m EXCEPT !.o = [m.o EXCEPT ![m.i] = m.a[m.i]], !.i = @ + 1])
        ELSE LET x == IF m.cur = 0 THEN m.b[m.i] ELSE m.cur IN
             IF x \in Seg
             THEN m' = Inc([m EXCEPT !.cur = m.b[CHOOSE k \in (s + 1)..e : m.a[k] = x]])
             ELSE m' = Inc([m EXCEPT !.o = [m.o EXCEPT ![m.i] = x], !.i = @ + 1, !.cur = 0])
SPXStep ==
    IF m.i > N THEN m' = Inc([m EXCEPT !.ph = "done"])
    ELSE m' = Inc([m EXCEPT !.o = [m.o EXCEPT ![m.i] = IF m.i <= m.par[1] THEN m.a[m.i] ELSE m.b[m.i]], !.i = @ + 1])
(* cycle crossover: follows the cycle forward through the parent it copies from *)
CXStep ==
    IF N < 2 THEN m' = Inc([m EXCEPT !.o = m.a, !.ph = "done"])
    ELSE IF m.i \notin m.used
    THEN m' = Inc([m EXCEPT !.used = @ \cup {m.i},
                            !.o = [m.o EXCEPT ![m.i] = IF m.flag THEN m.a[m.i] ELSE m.b[m.i]],
                            !.i = IF m.flag THEN Pos(m.a[m.i], m.b) ELSE Pos(m.b[m.i], m.a)])
    ELSE IF m.used = 1..N THEN m' = Inc([m EXCEPT !.ph = "done"])
    ELSE m' = Inc([m EXCEPT !.flag = ~@,
                            !.i = CHOOSE k \in (1..N) \ m.used : \A j \in (1..N) \ m.used : k <= j])
(* edge recombination and sequential constructive crossover append gene by gene *)
AppendStep ==
    IF N < 2 THEN m' = Inc([m EXCEPT !.o = m.a, !.ph = "done"])
    ELSE IF m.i = 1 THEN m' = Inc([m EXCEPT !.o = [m.o EXCEPT ![1] = m.par[1]], !.i = 2, !.used = {m.par[1]}])
    ELSE IF m.i > N THEN m' = Inc([m EXCEPT !.ph = "done"])
    ELSE \E g \in IF m.op = "erx"
                  THEN ERXChoices([x \in 1..N |-> Neighbors(m.a, m.b, x)], m.o[m.i - 1], (1..N) \ m.used)
                  ELSE SCXChoices(m.a, m.b, m.o[m.i - 1], (1..N) \ m.used) :
            m' = Inc([m EXCEPT !.o = [m.o EXCEPT ![m.i] = g], !.i = @ + 1, !.used = @ \cup {g}])
(* GPX2: first the partitions, each extended at its end while possible; then the choices *)
GPXStep ==
    LET cm == Common(m.a, m.b) IN
    IF m.ph = "run" THEN
        IF m.used = 1..N THEN m' = Inc([m EXCEPT !.ph = "choose", !.o = <<>>])
        ELSE LET last == IF m.cur = 0 THEN 0 ELSE m.parts[m.cur][Len(m.parts[m.cur])]
                 ext == IF last = 0 THEN {} ELSE {g \in (1..N) \ m.used : {last, g} \in cm}
             IN  IF ext = {}
                 THEN LET g == m.a[CHOOSE k \in 1..N : m.a[k] \notin m.used /\ \A j \in 1..(k - 1) : m.a[j] \in m.used]
                      IN  m' = Inc([m EXCEPT !.parts = Append(@, <<g>>), !.used = @ \cup {g}, !.cur = Len(m.parts) + 1])
                 ELSE \E g \in ext : m' = Inc([m EXCEPT !.parts = [@ EXCEPT ![m.cur] = Append(@, g)], !.used = @ \cup {g}])
    ELSE IF m.parts = <<>> THEN m' = Inc([m EXCEPT !.ph = "done"])
    ELSE \E k \in DOMAIN m.parts :
            m' = Inc([m EXCEPT !.calls = Append(@, <<IF m.o = <<>> THEN 0 ELSE m.o[Len(m.o)], m.parts, k - 1>>),
                               !.o = @ \o m.parts[k],
                               !.parts = RemoveAt(@, k)])
Next ==
    \/ /\ m.ph # "done"
       /\ \/ m.op = "ox" /\ OXStep
          \/ m.op = "pmx" /\ PMXStep
          \/ m.op = "spx" /\ SPXStep
          \/ m.op = "cx" /\ CXStep
          \/ m.op \in {"erx", "scx"} /\ AppendStep
          \/ m.op = "gpx" /\ GPXStep
    \/ m.ph = "done" /\ UNCHANGED m
Spec == Init /\ [][Next]_m

Ends == m.steps <= N * N + 2 * N + 4
Done == m.ph = "done"
Permutation == (Done /\ m.op # "spx") => PermutationOf(m.a, m.o)
Described == Done =>
    CASE m.op = "ox" -> m.o = OXResult(m.a, m.b, m.par[1], m.par[2])
      [] m.op = "pmx" -> m.o = PMXResult(m.a, m.b, m.par[1], m.par[2])
      [] m.op = "spx" -> m.o = SPXResult(m.a, m.b, m.par[1])
      [] m.op = "cx" -> m.o = CXResult(m.a, m.b)
      [] m.op = "erx" -> ERXOK(m.a, m.b, m.par[1], m.o)
      [] m.op = "scx" -> SCXOK(m.a, m.b, m.par[1], m.o)
      [] m.op = "gpx" -> GPXCallsOK(m.a, m.b, m.calls, m.o) /\ GPXPossible(m.a, m.b, m.o)
(* the partitions are complete when the choices begin *)
Partitioned == (m.op = "gpx" /\ m.ph = "choose" /\ m.calls = <<>>) =>
    CommonPartitionsOK(m.a, m.b, m.parts) /\ PartitionsOK(m.a, m.b, m.parts)
(* every gene of a CX offspring stands where one of the parents has it *)
CXPlaces == (Done /\ m.op = "cx") => \A k \in DOMAIN m.o : m.o[k] \in {m.a[k], m.b[k]}
(* adjacent genes of a GPX2 offspring inside a partition are adjacent in both parents, *)
(* and equal parents that are a single partition give a rotation or reflection         *)
Emitted == (Emit /\ m.steps = 0) => PrintT("REPLAY " \o ToJson(<<m.op, m.b, m.par>>))
=============================================================================
