----------------------------- MODULE MCMutation -----------------------------
(* Chains of mutations on all small genomes (repeated genes included): the   *)
(* relation that is used to judge results must be exactly the set of the     *)
(* results of all choices, and no mutation but duplication changes the bag   *)
(* of genes. All genomes are emitted for the replay into the code.           *)
EXTENDS Mutation, Json
CONSTANTS MaxN, NGenes, MaxSteps, Emit
VARIABLES a, prev, op, steps, orig
Opers == {"swap", "inversion", "insertion", "scramble", "duplicate"}
Genomes == UNION {[1..n -> 1..NGenes] : n \in 0..MaxN}
Init == a \in Genomes /\ prev = a /\ op = "none" /\ steps = 0 /\ orig = a
Next ==
    /\ steps < MaxSteps
    /\ op' \in Opers
    /\ a' \in Results(op', a)
    /\ prev' = a /\ steps' = steps + 1 /\ orig' = orig
Spec == Init /\ [][Next]_<<a, prev, op, steps, orig>>
Sound == op # "none" => MutationOK(op, prev, a)
(* the relation accepts nothing else *)
Complete == steps = 0 => \A o \in [DOMAIN a -> 1..NGenes] : \A x \in Opers : MutationOK(x, a, o) => o \in Results(x, a)
KeepsGenes == (op # "none" /\ op # "duplicate") => SameBag(prev, a)
DuplicateLoses == op = "duplicate" => /\ Range(a) \subseteq Range(prev)
                                      /\ Cardinality(Diff(prev, a)) <= 1
Reversible == op \in {"swap", "inversion"} => prev \in Results(op, a)
Emitted == (Emit /\ steps = 0) => PrintT("REPLAY " \o ToJson(a))
=============================================================================
