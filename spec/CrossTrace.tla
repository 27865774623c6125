----------------------------- MODULE CrossTrace -----------------------------
(* Accepts the recorded results of crossovers that the specification allows. *)
EXTENDS Crossover, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
E == Cases[c].ev[l + 1]
A == Cases[c].a
B == Cases[c].b
Perm == Distinct(A) => Req({"C20"}, PermutationOf(A, E.o))

(* C25: what a strategy may yield, and over many calls must have yielded *)
Permutations0(ps) == {q \in [DOMAIN ps -> DOMAIN ps] : \A i, j \in DOMAIN ps : i # j => q[i] # q[j]}
StrategyOK(op, seen, parts, full) ==
    LET n == Len(A)
        S == Range(seen)
        Exactly(T) == IF full = 1 THEN S = T ELSE S \subseteq T
        Rng == {<<s, e>> \in (0..n) \X (0..n) : s < e}
    IN  CASE op = "ox" -> Exactly({OXResult(A, B, q[1], q[2]) : q \in Rng})
          [] op = "pmx" -> Exactly({PMXResult(A, B, q[1], q[2]) : q \in Rng})
          [] op = "spx" -> Exactly({SPXResult(A, B, p) : p \in 0..(n - 1)})
          [] op = "cx" -> Exactly({CXResult(A, B)})
          [] op = "erx" -> /\ \A o \in S : Len(o) = n /\ ERXOK(A, B, o[1], o)
                           /\ full = 1 => {o[1] : o \in S} = Range(A)
          [] op = "scx" -> /\ \A o \in S : Len(o) = n /\ SCXOK(A, B, o[1], o)
                           /\ full = 1 => {o[1] : o \in S} = Range(A)
          [] op = "gpx" -> /\ \A o \in S : GPXPossible(A, B, o)
                           /\ full = 1 => \A q \in Permutations0(parts) :
                                             Flat([k \in DOMAIN parts |-> parts[q[k]]]) \in S

Init == c \in 1..Len(Cases) /\ l = 0
Done == l = Len(Cases[c].ev) /\ UNCHANGED <<c, l>>
Step ==
    /\ l < Len(Cases[c].ev)
    /\ l' = l + 1 /\ c' = c
    /\ \/ E.k = "ox" /\ Perm /\ Req({"C21"}, E.o = OXResult(A, B, E.s, E.e))
       \/ E.k = "pmx" /\ Perm /\ Req({"C21"}, E.o = PMXResult(A, B, E.s, E.e))
       \/ E.k = "spx" /\ Req({"C21"}, E.o = SPXResult(A, B, E.s))
       \/ E.k = "bits" /\ Req({"C21"}, E.o = SPXResult(E.a, E.b, E.s))
       \/ E.k = "cx" /\ Perm /\ Req({"C22"}, E.o = CXResult(A, B))
       \/ E.k = "erx" /\ Perm /\ Req({"C23"}, ERXOK(A, B, E.s, E.o))
       \/ E.k = "scx" /\ Perm /\ Req({"C23"}, SCXOK(A, B, E.s, E.o))
       \/ E.k = "gpx" /\ Perm /\ Req({"C24"}, GPXCallsOK(A, B, E.calls, E.o))
       \/ E.k = "cxl" /\ Req({"C20", "C22"}, CXLongOK(A, B, E.inv, E.cyc, E.rank, E.o))
       \/ E.k = "apart" /\ Perm /\ Req({"C24"}, ApartOK(A, B, E.calls, E.o))
       \/ E.k = "cn" /\ Req({"C24"}, CommonNeighborsOK(A, B, E.o))
       \/ E.k = "cp" /\ Req({"C24"}, CommonPartitionsOK(A, B, E.o))
       \/ /\ E.k = "pan"
          /\ Req({IF E.op = "spx" THEN "C21" ELSE IF E.op \in {"cn", "cp"} THEN "C24" ELSE "C20"}, FALSE)
          /\ Req(CASE E.op \in {"ox", "pmx"} -> {"C21"} [] E.op = "cx" -> {"C22"}
                   [] E.op \in {"erx", "scx"} -> {"C23"} [] OTHER -> {"C24"}, FALSE)
       \/ E.k = "st" /\ Req({"C25"}, StrategyOK(E.op, E.seen, E.parts, E.full))
       (* of hundreds of calls: how many ranges (points, first and last genes) begin and *)
       (* end in each tenth of long parents                                             *)
       \/ E.k = "reach" /\ Req({"C25"}, \A t \in 1..10 : E.start[t] > 0 /\ E.end[t] > 0)
       \/ E.k = "stpan" /\ Req({"C25"}, FALSE)
       (* the length of the result, or -1 for a panic *)
       \/ E.k = "len" /\ Req({"C25"}, IF E.la # E.lb THEN E.o = -1 ELSE E.la = 0 => E.o = 0)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
