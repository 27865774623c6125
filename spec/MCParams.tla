------------------------------ MODULE MCParams ------------------------------
(* Every parameter set of both algorithms over the boundary values (at most  *)
(* Odd of them away from the ordinary), and every short life of a selector.  *)
EXTENDS Params, Json
CONSTANTS Odd, MaxSets, Emit
VARIABLES what, obj, hist
Nums == {NaN, -Inf, -1000, -1, 0, 1, 500, 999, 1000, 1001, 2000, Inf}
SizesOf == {0, 1, 2, 1000}
Kinds == {"tour", "roul", "rank", "line", "elit", "bolt"}
Codes == [tour |-> 1, roul |-> 2, rank |-> 3, line |-> 4, elit |-> 5, bolt |-> 6]
Args(t) == CASE t = "tour" -> {<<n>> : n \in SizesOf} [] t \in {"line", "elit"} -> {<<x>> : x \in Nums}
             [] t = "bolt" -> Nums \X Nums [] OTHER -> {<<>>}
Strategies == UNION {{<<t, a>> : a \in Args(t)} : t \in Kinds}
(* a parameter set is a sequence of numbers: size, elitism, rates.. *)
Fields(m) == [1..m -> Nums \cup {3}]   \* 3: an ordinary value
Few(m) == {f \in [1..m -> {0, 1}] : Cardinality({k \in 1..m : f[k] = 1}) <= Odd}
Values(f) == {g \in [{k \in DOMAIN f : f[k] = 1} -> Nums] : TRUE}
Full(f, g) == [k \in DOMAIN f |-> IF f[k] = 1 THEN g[k] ELSE 300]
Sets(m) == UNION {{Full(f, g) : g \in Values(f)} : f \in Few(m)}
Plain == <<"rank", <<>>>>

Init == /\ obj = NoObj /\ hist = <<>>
        /\ what \in {<<s, p, Plain>> : s \in SizesOf, p \in Sets(3) \cup Sets(5)}
             \cup {<<s, <<300, 300, 300>>, t>> : s \in {0, 3}, t \in Strategies}
             \cup {<<>>}
New == /\ what = <<>> /\ hist = <<>>
       /\ \E t \in Kinds : \E a \in Args(t) : \E ok \in BOOLEAN :
            /\ Create(obj, t, a, ok, obj') /\ hist' = <<<<Codes[t]>> \o a, IF ok THEN <<1>> ELSE <<0>>>>
       /\ what' = what
Change == /\ what = <<>> /\ obj # NoObj /\ Len(hist) < 2 + MaxSets
          /\ \E i \in DOMAIN obj[2] : \E v \in IF obj[1] = "tour" THEN SizesOf ELSE Nums : \E ok \in BOOLEAN :
               Set(obj, i, v, ok, obj') /\ hist' = Append(hist, <<i, v>>)
          /\ what' = what
Next == New \/ Change
Spec == Init /\ [][Next]_<<what, obj, hist>>

IsParams == what # <<>>
OK == IsParams => (Accepted(what[1], what[2][1], Tail(what[2]), what[3][1], what[3][2]) <=>
    ~ \/ what[1] = 0
      \/ \E k \in DOMAIN what[2] : what[2][k] \in {NaN, Inf, 1001, 2000} \/ what[2][k] < 0
      \/ what[2][1] = 1000
      \/ what[3] = <<"tour", <<0>>>>
      \/ (what[3][1] = "elit" /\ (what[3][2][1] \notin {0, 1, 500, 999}))
      \/ (what[3][1] = "bolt" /\ what[3][2][2] = 0))
AlwaysFine == obj # NoObj => StrategyOK(obj[1], obj[2])
RefusedKeeps == [][obj # NoObj => /\ obj'[1] = obj[1] /\ Len(obj'[2]) = Len(obj[2])
                                  /\ \A k \in DOMAIN obj[2] : obj'[2][k] = obj[2][k] \/ (k = Last(hist')[1] /\ obj'[2][k] = Last(hist')[2])]_<<what, obj, hist>>
(* <<size, numbers, strategy>> or the life of a selector *)
Emitted == Emit =>
    IF IsParams THEN PrintT("REPLAY " \o ToJson(<<<<what[1]>>, what[2], <<Codes[what[3][1]]>> \o what[3][2]>>))
    ELSE (Len(hist) = 2 + MaxSets \/ (hist # <<>> /\ (obj = NoObj \/ obj[2] = <<>>))) => PrintT("REPLAY " \o ToJson(<<<<-1>>>> \o hist))
=============================================================================
