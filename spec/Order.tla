-------------------------------- MODULE Order --------------------------------
(* Individuals on a heap (src/individual.rs, compare_fitness in              *)
(* src/operators.rs): the state is the set of the individuals on the heap.   *)
(* The order is the order of the fitness values and of nothing else.         *)
EXTENDS Base
VARIABLE heap    \* set of <<name, fitness>>; names are unique

Cmp(x, y) == IF F(x) < F(y) THEN -1 ELSE IF F(x) > F(y) THEN 1 ELSE 0
B(b) == IF b THEN 1 ELSE 0
(* cf, oc, pc: the three comparison functions; ops: < <= > >= = # *)
Compare(x, y, cf, oc, pc, ops) ==
    /\ Req({"C29"}, /\ cf = Cmp(x, y) /\ oc = Cmp(x, y) /\ pc = Cmp(x, y)
                    /\ ops = <<B(F(x) < F(y)), B(F(x) <= F(y)), B(F(x) > F(y)),
                               B(F(x) >= F(y)), B(F(x) = F(y)), B(F(x) # F(y))>>)
    /\ UNCHANGED heap
MinMax(a, b, mx, mn) == Req({"C29"}, mx = Max2(a, b) /\ mn = Min2(a, b)) /\ UNCHANGED heap
Fittest(x) == x \in heap /\ \A y \in heap : F(y) <= F(x)
Push(x) == heap' = heap \cup {x}
Pop(x) == Req({"C29"}, Fittest(x)) /\ heap' = heap \ {x}
(* the fitness of the individual at the top is changed through the wrapper *)
Change(g, f) ==
    \E x \in heap : /\ G(x) = g /\ Req({"C29"}, Fittest(x))
                    /\ heap' = (heap \ {x}) \cup {<<g, f>>}
Empty == Req({"C29"}, heap = {}) /\ UNCHANGED heap
=============================================================================
