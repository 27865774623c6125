------------------------------- MODULE MCOrder -------------------------------
(* Every history of a heap of wrapped individuals with few fitness values.   *)
EXTENDS Order, Json
CONSTANTS Fits, MaxOps, Emit
VARIABLES hist, in, out
Init == heap = {} /\ hist = <<>> /\ in = {} /\ out = <<>>
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E f \in Fits : LET x == <<Cardinality(in), f>> IN
            /\ Push(x) /\ in' = in \cup {x} /\ out' = out /\ hist' = Append(hist, <<0, f>>)
       \/ \E x \in heap : /\ Fittest(x) /\ Pop(x) /\ in' = in /\ out' = Append(out, x)
                          /\ hist' = Append(hist, <<1, 0>>)
       \/ \E x \in heap, f \in Fits :
            /\ Fittest(x) /\ Change(G(x), f)
            /\ in' = (in \ {x}) \cup {<<G(x), f>>} /\ out' = out
            /\ hist' = Append(hist, <<2, f>>)
Spec == Init /\ [][Next]_<<heap, hist, in, out>>
(* each individual is on the heap or came out, and exactly once *)
Conserved == /\ heap \cup Range(out) = in
             /\ heap \cap Range(out) = {}
             /\ Distinct(out)
TotalPreorder == \A x, y, z \in in :
    /\ Cmp(x, y) = -Cmp(y, x)
    /\ Cmp(x, y) <= 0 /\ Cmp(y, z) <= 0 => Cmp(x, z) <= 0
(* popping everything, without pushes in between, gives descending fitness *)
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("REPLAY " \o ToJson(hist))
=============================================================================
