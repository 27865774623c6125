----------------------------- MODULE MCStreams -----------------------------
(* Workers breed generation after generation with generators from a pool,    *)
(* which is filled once for each run (or, wrongly, for each generation).     *)
EXTENDS Streams, Json
CONSTANTS MaxW, MaxNeed, MaxGens, PerGeneration, Emit
VARIABLES w, needs, pool, s, left, drawn, again
vars == <<w, needs, pool, s, left, drawn, again>>
RECURSIVE MakeAll(_, _)
MakeAll(t, n) == IF n = 0 THEN t ELSE MakeAll(Made(t, Cardinality(t.made) + 1), n - 1)
Filled(t) == MakeAll(t, w)
Init ==
    /\ w \in 1..MaxW /\ needs = <<>> /\ left = 0 /\ drawn = {} /\ again = FALSE
    /\ s = Filled(Fresh) /\ pool = s.made
NextGen ==
    /\ left = 0 /\ s.held = {} /\ Len(needs) < MaxGens
    /\ \E n \in 0..MaxNeed : needs' = Append(needs, n) /\ left' = n
    /\ IF PerGeneration /\ needs # <<>> THEN s' = Filled(s) /\ pool' = s'.made \ s.made ELSE UNCHANGED <<s, pool>>
    /\ UNCHANGED <<w, drawn, again>>
Free(k) == ~\E h \in s.held : h[1] = k
Begin(k) ==
    /\ left > 0 /\ Free(k) /\ left' = left - 1
    /\ \E g \in pool : s' = Take(s, k, g, s.pos[g], TRUE) /\ pool' = pool \ {g}
    /\ UNCHANGED <<w, needs, drawn, again>>
(* a number is drawn; with generators that are all alike, it is known by its place *)
Drawing(k) ==
    \E h \in s.held : h[1] = k /\ s.pos[h[2]] < MaxNeed * MaxGens /\ \* (finite)
      /\ s' = Draw(s, k, h[2], s.pos[h[2]] + 1)
      /\ drawn' = drawn \cup {<<h[2], s.pos[h[2]]>>}
      /\ again' = (again \/ \E d \in drawn : d[2] = s.pos[h[2]])
      /\ UNCHANGED <<w, needs, pool, left>>
End(k) ==
    \E h \in s.held : h[1] = k /\ s' = Give(s, k, h[2], s.pos[h[2]]) /\ pool' = pool \cup {h[2]}
      /\ UNCHANGED <<w, needs, left, drawn, again>>
Next == NextGen \/ \E k \in 1..w : Begin(k) \/ Drawing(k) \/ End(k)
Spec == Init /\ [][Next]_vars

Exclusive == \A h, i \in s.held : h[2] = i[2] => h = i
NotInPool == \A h \in s.held : h[2] \notin pool
Bounded == Cardinality(s.bred) <= w
Legal == \A k \in 1..w, g \in pool : left > 0 /\ Free(k) => MayTake(s, k, g, s.pos[g], TRUE, w)
(* nothing is drawn twice: one worker never breeds twice with the same numbers *)
NeverAgain == w = 1 => ~again
GoesOn == [][\A g \in s.made : s'.pos[g] >= s.pos[g]]_vars
NeverRewound == [][\A d \in drawn' \ drawn : d \notin drawn]_vars
Emitted == Emit => (Len(needs) = MaxGens /\ left = 0 /\ s.held = {} /\ drawn = {} => PrintT("REPLAY " \o ToJson(<<w, needs>>)))
=============================================================================
