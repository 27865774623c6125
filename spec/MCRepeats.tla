----------------------------- MODULE MCRepeats -----------------------------
(* Clients that make calls in any order, each with its own generator, all    *)
(* seeded alike, for every function the calls may be. With Hidden, the calls *)
(* also depend on how many calls were made before by anyone.                 *)
EXTENDS Repeats, Json
CONSTANTS Clients, Calls, MaxLen, MaxG, Hidden, Emit
VARIABLES f, s, log, script
vars == <<f, s, log, script>>
Sts == 0..MaxG
Init ==
    /\ f \in [Calls -> [Sts -> (0..1) \X Sts]]
    /\ s = FoldSet(LAMBDA w, t : Seed(t, w, 0), Idle, Clients)
    /\ log = [w \in Clients |-> <<>>] /\ script = <<>>
End(call, g) ==
    LET e == f[call][g] IN
    IF Hidden THEN <<(e[1] + Len(script)) % 2, e[2]>> ELSE e
Next ==
    /\ Len(script) < MaxLen
    /\ \E w \in Clients, call \in Calls :
         LET e == End(call, s.at[w]) IN
         /\ s' = Call(s, w, call, s.at[w], e[1], e[2])
         /\ log' = [log EXCEPT ![w] = Append(@, <<call, e[1]>>)]
         /\ script' = Append(script, <<w, call>>)
    /\ UNCHANGED f
Spec == Init /\ [][Next]_vars

Cut(q, n) == SubSeq(q, 1, n)
Asked(w, n) == [k \in 1..n |-> log[w][k][1]]
(* who asks the same gets the same, whatever the others do in between *)
Alike == \A v, w \in Clients :
    LET n == Min2(Len(log[v]), Len(log[w])) IN
    \A k \in 0..n : Asked(v, k) = Asked(w, k) => Cut(log[v], k) = Cut(log[w], k)
(* and that is what the traces are checked for *)
Legal == \A w \in Clients, call \in Calls :
    LET e == End(call, s.at[w]) IN MayCall(s, w, call, s.at[w], e[1], e[2])
Untouched == [][\A w \in Clients : log'[w] = log[w] => s'.at[w] = s.at[w]]_vars
Still == f = [call \in Calls |-> [g \in Sts |-> <<0, 0>>]]
Emitted == Emit => (Still /\ Len(script) = MaxLen => PrintT("REPLAY " \o ToJson(script)))
=============================================================================
