------------------------------ MODULE Repeats ------------------------------
(* Operators that are given a generator: a call is a step from one state of  *)
(* the generator to another, with a result. Both are functions of what the   *)
(* operator was given and of the state it found; nothing else counts, such   *)
(* as other calls before or at the same time, other threads, or the clock.   *)
EXTENDS Base
(* s.at: the state in which each client's generator was left                 *)
(* s.seen: the calls so far, <<call, state>> -> <<result, next state>>       *)
Idle == [at |-> <<>>, seen |-> <<>>]
Seed(s, who, g) == [s EXCEPT !.at = (who :> g) @@ @]
(* nobody but its owner moves a generator; the same call again has the same end *)
MayCall(s, who, call, g, r, to) ==
    /\ who \in DOMAIN s.at /\ s.at[who] = g
    /\ <<call, g>> \in DOMAIN s.seen => s.seen[<<call, g>>] = <<r, to>>
Call(s, who, call, g, r, to) ==
    [at |-> (who :> to) @@ s.at,
     seen |-> IF <<call, g>> \in DOMAIN s.seen THEN s.seen ELSE (<<call, g>> :> <<r, to>>) @@ s.seen]
=============================================================================
