----------------------------- MODULE MCDefaults -----------------------------
(* A user makes default parameters of either algorithm, changes a few of     *)
(* their fields, makes an evolution in one of the ways there are, and runs   *)
(* it from one of the starts there are.                                      *)
EXTENDS Defaults, Json
CONSTANTS MaxSets, MaxGens, Emit
VARIABLES alg, par, sets, way, start, given, gen, members, kept, rates
vars == <<alg, par, sets, way, start, given, gen, members, kept, rates>>
FieldsOf(a) == IF a = "ga" THEN {"size", "el", "clo", "mlo", "sel"} ELSE Range(Fields)
ValuesOf(f) ==
    CASE f = "size" -> {4, 150} [] f = "el" -> {0, 500} [] f = "int" -> {0, 2}
      [] f = "sel" -> {1, 2} [] f \in {"chi", "mhi"} -> {700} [] OTHER -> {0, 200}
(* the one rate of the plain algorithm is both ends *)
Sets1(f, v) ==
    IF alg = "ga" /\ f = "clo" THEN <<<<"clo", v>>, <<"chi", v>>>>
    ELSE IF alg = "ga" /\ f = "mlo" THEN <<<<"mlo", v>>, <<"mhi", v>>>> ELSE <<<<f, v>>>>
Init ==
    /\ alg \in {"ga", "aga"} /\ par = Default(alg) /\ sets = <<>>
    /\ way = "" /\ start = "" /\ given = 0 /\ gen = -1 /\ members = 0 /\ kept = 0 /\ rates = <<>>
Set ==
    /\ way = "" /\ Len(sets) < MaxSets
    /\ \E f \in FieldsOf(alg) \ {s[1] : s \in Range(sets)} : \E v \in ValuesOf(f) :
         par' = With(par, Sets1(f, v)) /\ sets' = Append(sets, <<f, v>>)
    /\ UNCHANGED <<alg, way, start, given, gen, members, kept, rates>>
Make == way = "" /\ way' \in Range(Ways) /\ UNCHANGED <<alg, par, sets, start, given, gen, members, kept, rates>>
Start ==
    /\ way # "" /\ start = ""
    /\ start' \in Range(Starts) /\ given' \in IF start' = "pop" THEN {90, 120} ELSE {0}
    /\ gen' = 0 /\ members' = Members(par, start', given', 0)
    /\ rates' = Rates(par, <<>>, 0, FALSE)
    /\ UNCHANGED <<alg, par, sets, way, kept>>
Turn ==
    /\ gen \in 0..(MaxGens - 1)
    /\ kept' = Kept(par, members) /\ members' = kept' + Bred(par, members)
    /\ gen' = gen + 1
    /\ rates' = Rates(par, rates, gen', gen' % 2 = 1)
    /\ UNCHANGED <<alg, par, sets, way, start, given>>
Next == Set \/ Make \/ Start \/ Turn
Spec == Init /\ [][Next]_vars

D == Default(alg)
ChangedIn(f) == \E s \in Range(sets) : f \in {x[1] : x \in Range(Sets1(s[1], 0))}
OthersKeep == \A f \in DOMAIN par : ChangedIn(f) \/ par[f] = D[f]
Valid == par.size > 0 /\ par.el \in 0..999 /\ {par.clo, par.chi, par.mlo, par.mhi} \subseteq 0..1000
SizeRule == gen > 0 => members = par.size /\ kept <= members
WithinRange == rates # <<>> => /\ rates[1] \in {par.clo, par.chi} /\ rates[2] \in {par.mlo, par.mhi}
PlainIsConstant == (alg = "ga" /\ rates # <<>>) => rates = <<par.clo, par.mlo>>
OneOfAHundred == (gen > 0 /\ sets = <<>> /\ start # "pop") => members = 100 /\ kept = 1
At(s, x) == CHOOSE k \in DOMAIN s : s[k] = x
Emitted == Emit => (gen = MaxGens => PrintT("REPLAY " \o ToJson(<<IF alg = "ga" THEN 1 ELSE 2, At(Ways, way), At(Starts, start), given,
                                               [k \in DOMAIN sets |-> <<At(Fields, sets[k][1]), sets[k][2]>>]>>)))
=============================================================================
