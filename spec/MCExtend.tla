------------------------------ MODULE MCExtend ------------------------------
(* Workers that generate individuals in parallel, in any order; the pieces   *)
(* are put together in the order of their places.                            *)
EXTENDS Extend, Json
CONSTANTS NGenes, MaxBefore, MaxNew, Emit
VARIABLES before, n, model, slots, made
Genes == 0..(NGenes - 1)
Empty == -5
Init ==
    /\ before \in UNION {[1..k -> Genes] : k \in 0..MaxBefore}
    /\ n \in 0..MaxNew /\ model \in Genes \cup {-1}
    /\ slots = [k \in 1..n |-> IF k = 1 /\ model >= 0 THEN model ELSE Empty]
    /\ made = <<>>
Next ==
    \E k \in 1..n : \E g \in Genes :
        /\ slots[k] = Empty
        /\ slots' = [slots EXCEPT ![k] = g]
        /\ made' = Append(made, <<model, g>>)
        /\ UNCHANGED <<before, n, model>>
Spec == Init /\ [][Next]_<<before, n, model, slots, made>>
Finished == \A k \in 1..n : slots[k] # Empty
I(s) == [k \in DOMAIN s |-> <<s[k], 0>>]
After == before \o slots
Right == Finished =>
    IF model = -1 THEN ExtendedRandomly(I(before), I(After), n, made, [k \in 1..n |-> 1], 1)
    ELSE ExtendedWith(I(before), I(After), n, made, <<model, 0>>)
(* and nothing else: one too many, one too few, or an altered model individual *)
Refuses == (Finished /\ model # -1 /\ n > 0) =>
    /\ ~ExtendedWith(I(before), I(Append(After, 0)), n, made, <<model, 0>>)
    /\ ~ExtendedWith(I(before), I(SubSeq(After, 1, Len(After) - 1)), n, made, <<model, 0>>)
    /\ ~ExtendedWith(I(before), I([After EXCEPT ![Len(before) + 1] = (model + 1) % NGenes]), n, made, <<model, 0>>)
Emitted == (Emit /\ made = <<>>) => PrintT("REPLAY " \o ToJson(<<before, n, model>>))
=============================================================================
