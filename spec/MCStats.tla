------------------------------- MODULE MCStats -------------------------------
(* All short histories of samples and snapshots. The incremental algorithm   *)
(* (running extremes and Welford's mean and squared differences, in exact    *)
(* fractions) must agree with the direct definition at every step.           *)
EXTENDS Stats, Json
CONSTANTS Values, MaxOps, Emit
VARIABLES inc,   \* incremental: [n, mn, am, mx, ax, sum, q] where q = n * M2 (integer)
          hist
Zero == [n |-> 0, mn |-> 0, am |-> 0, mx |-> 0, ax |-> 0, sum |-> 0, q |-> 0]
(* M2' = M2 + (x - avg)(x - avg') = M2 + (n x - sum)^2 / (n (n+1)); with q = n M2: *)
(* q' = (n+1) M2' = ((n+1) q + (n x - sum)^2) / n                                  *)
Upd(i, x) ==
    IF i.n = 0 THEN [n |-> 1, mn |-> x, am |-> 0, mx |-> x, ax |-> 0, sum |-> x, q |-> 0]
    ELSE [n |-> i.n + 1,
          mn |-> Min2(x, i.mn), am |-> IF x < i.mn THEN i.n ELSE i.am,
          mx |-> Max2(x, i.mx), ax |-> IF x > i.mx THEN i.n ELSE i.ax,
          sum |-> i.sum + x,
          q |-> ((i.n + 1) * i.q + (i.n * x - i.sum) * (i.n * x - i.sum)) \div i.n]
IncReport(i) == IF i.n = 0 THEN <<>> ELSE <<i.n, i.mn, i.am, i.mx, i.ax, 1, i.sum, i.q>>

Init == samples = <<>> /\ snaps = <<>> /\ inc = Zero /\ hist = <<>>
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E x \in Values : /\ inc' = Upd(inc, x)
                            /\ Record(x, IncReport(inc'))
                            /\ hist' = Append(hist, <<0, x>>)
       \/ Snapshot(IncReport(inc)) /\ inc' = inc /\ hist' = Append(hist, <<1, 0>>)
       \/ Collect(IncReport(inc)) /\ inc' = inc /\ hist' = Append(hist, <<2, 0>>)
       \/ \E i \in DOMAIN snaps : /\ Look(i, SubSeq(snaps[i], 1, 5) \o <<1>> \o SubSeq(snaps[i], 6, 7))
                                  /\ inc' = inc /\ hist' = Append(hist, <<3, i>>)
Spec == Init /\ [][Next]_<<samples, snaps, inc, hist>>

IncrementalAgrees == Agrees(IncReport(inc), Report(samples))
EmptyIffNoSamples == (Report(samples) = <<>>) <=> (samples = <<>>)
Bounds == samples # <<>> =>
    LET r == Report(samples) IN
    /\ r[2] <= r[4] /\ r[3] < r[1] /\ r[5] < r[1]
    /\ r[7] >= 0 /\ (r[7] = 0 <=> r[2] = r[4])
    /\ r[1] * r[2] <= r[6] /\ r[6] <= r[1] * r[4]
(* a snapshot describes some prefix of the samples, and later ones longer prefixes *)
SnapshotsFrozen == \A i \in DOMAIN snaps :
    /\ \E n \in 1..Len(samples) : snaps[i] = Report(SubSeq(samples, 1, n))
    /\ \A j \in DOMAIN snaps : i < j => snaps[i][1] <= snaps[j][1]
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("REPLAY " \o ToJson(hist))
=============================================================================
