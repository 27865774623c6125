------------------------------- MODULE Extend -------------------------------
(* Generating initial individuals (extend_population and                     *)
(* extend_population_with in src/model.rs).                                  *)
EXTENDS Base

Bred(made) == [k \in DOMAIN made |-> made[k][2]]
Genomes(s) == [k \in DOMAIN s |-> G(s[k])]
(* n individuals that were generated (made: <<-1, genome>>) for the given argument *)
ExtendedRandomly(before, after, n, made, args, arg) ==
    /\ Len(after) = Len(before) + n
    /\ SubSeq(after, 1, Len(before)) = before
    /\ Len(made) = n /\ \A k \in DOMAIN made : made[k][1] = -1
    /\ Len(args) = n /\ \A k \in DOMAIN args : args[k] = arg
    /\ SameBag(Genomes(SubSeq(after, Len(before) + 1, Len(after))), Bred(made))
(* the model individual, and n - 1 mutations of it (made: <<its genome, the new one>>) *)
ExtendedWith(before, after, n, made, model) ==
    /\ Len(after) = Len(before) + n
    /\ SubSeq(after, 1, Len(before)) = before
    /\ Len(made) = Max2(n - 1, 0) /\ \A k \in DOMAIN made : made[k][1] = G(model)
    /\ n > 0 => /\ after[Len(before) + 1] = model
                /\ SameBag(Genomes(SubSeq(after, Len(before) + 2, Len(after))), Bred(made))
(* The same with counts: e.right of the new ones are what they should be     *)
(* (mutated once; or generated for the argument and nothing else), e.lead:   *)
(* the first new one is the model individual, unchanged.                     *)
ExtendedMany(e) ==
    LET model == IF e.with = 1 /\ e.n > 0 THEN 1 ELSE 0 IN
    /\ e.ok = 1 /\ e.len = e.had + e.n /\ e.kept = e.had
    /\ e.lead = model /\ e.right = e.n - model
    /\ e.born = (IF e.with = 1 THEN 0 ELSE e.n)
    /\ e.mutated = (IF e.with = 1 THEN e.n - model ELSE 0)
=============================================================================
