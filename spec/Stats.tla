-------------------------------- MODULE Stats --------------------------------
(* Incremental statistics (src/stats.rs). The state is what the statistics   *)
(* have to describe: the sequence of samples, and the snapshots taken.       *)
(* A report is <<count, min, arg_min, max, arg_max, known, sum,              *)
(* n*sum(x^2)-sum(x)^2>> (sum and spread only if known = 1), or <<>>.        *)
EXTENDS Base

VARIABLES samples, snaps

Moms(s) ==
    LET s1 == SumSeq(s)
        s2 == FoldSeq(LAMBDA x, acc : acc + x * x, 0, s)
    IN  <<s1, Len(s) * s2 - s1 * s1>>
First(s, x) == CHOOSE k \in DOMAIN s : s[k] = x /\ \A j \in 1..(k - 1) : s[j] # x
MinS(s) == FoldSeq(LAMBDA x, acc : Min2(x, acc), s[1], s)
MaxS(s) == FoldSeq(LAMBDA x, acc : Max2(x, acc), s[1], s)
Report(s) ==
    IF s = <<>> THEN <<>>
    ELSE <<Len(s), MinS(s), First(s, MinS(s)) - 1, MaxS(s), First(s, MaxS(s)) - 1>> \o Moms(s)
(* does the report r describe what the report d = Report(s) says? *)
Agrees(r, d) ==
    IF d = <<>> THEN r = <<>>
    ELSE /\ Len(r) = 8
         /\ SubSeq(r, 1, 5) = SubSeq(d, 1, 5)
         /\ r[6] = 1 => SubSeq(r, 7, 8) = SubSeq(d, 6, 7)

Record(x, r) ==
    /\ samples' = Append(samples, x)
    /\ Req({"C28"}, Agrees(r, Report(samples')))
    /\ UNCHANGED snaps
(* the same samples, supplied all at once *)
Collect(r) ==
    /\ Req({"C28"}, Agrees(r, Report(samples)))
    /\ UNCHANGED <<samples, snaps>>
Snapshot(r) ==
    /\ Req({"C28"}, Agrees(r, Report(samples)))
    /\ snaps' = IF samples = <<>> THEN snaps ELSE Append(snaps, Report(samples))
    /\ UNCHANGED samples
(* as text: the numbers read from it, and from it with some decimals: dec = 1 *)
Text(r, dec) ==
    /\ Req({"C28"}, Agrees(r, Report(samples)) /\ dec = 1)
    /\ UNCHANGED <<samples, snaps>>
Look(i, r) ==
    /\ Req({"C28"}, i \in DOMAIN snaps /\ Agrees(r, snaps[i]))
    /\ UNCHANGED <<samples, snaps>>
(* override the position of the minimum (w = 1) or the maximum *)
Override(i, w, x, ok, r) ==
    LET d == snaps[i]
        e == IF w = 1 THEN [d EXCEPT ![3] = x] ELSE [d EXCEPT ![5] = x]
    IN  /\ Req({"C28"}, (ok = 1) <=> (x < d[1]))
        /\ snaps' = IF ok = 1 THEN [snaps EXCEPT ![i] = e] ELSE snaps
        /\ Req({"C28"}, Agrees(r, snaps'[i]))
        /\ UNCHANGED samples
Bulk(xs, r1, r2) ==
    /\ Req({"C28"}, Agrees(r1, Report(xs)) /\ Agrees(r2, Report(xs)))
    /\ UNCHANGED <<samples, snaps>>
(* Very many samples, as runs <<sample, how many>> of samples 0 and 1. *)
Before(rs, k) == SumSeq([j \in 1..(k - 1) |-> rs[j][2]])
RunsReport(rs) ==
    LET n == Before(rs, Len(rs) + 1)
        vs == [j \in DOMAIN rs |-> rs[j][1]]
        ones == SumSeq([j \in DOMAIN rs |-> rs[j][1] * rs[j][2]])
        at(v) == Before(rs, First(vs, v))
    IN  <<n, MinS(vs), at(MinS(vs)), MaxS(vs), at(MaxS(vs)), ones, ones * (n - ones)>>
Many(rs, r1, r2) ==
    /\ Req({"C28"}, Agrees(r1, RunsReport(rs)) /\ Agrees(r2, RunsReport(rs)))
    /\ UNCHANGED <<samples, snaps>>
=============================================================================
