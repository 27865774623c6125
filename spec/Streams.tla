------------------------------ MODULE Streams ------------------------------
(* The random numbers of a run. A generator yields its numbers one by one;   *)
(* what is known of it is how many it has yielded. Breedings take a          *)
(* generator, draw from it, and give it back.                                *)
EXTENDS Base
(* s: the state of the generators                                            *)
(*   made: those that the model made, pos: how many numbers each has yielded *)
(*   held: <<holder, generator>> while a breeding (or the making of an       *)
(*   initial individual) draws from it; bred: those used for breeding so far *)
Fresh == [made |-> {}, pos |-> <<>>, held |-> {}, bred |-> {}]
Made(s, g) == [s EXCEPT !.made = @ \cup {g}, !.pos = (g :> 0) @@ @]
Holders(s, g) == {h \in s.held : h[2] = g}
(* a holder may take a generator: one of the model's, which nobody else uses, *)
(* where it was left; and no more than `limit` of them are used for breeding  *)
MayTake(s, w, g, p, breed, limit) ==
    /\ g \in s.made /\ Holders(s, g) = {} /\ ~\E h \in s.held : h[1] = w
    /\ p >= s.pos[g]
    /\ breed => Cardinality(s.bred \cup {g}) <= limit
Take(s, w, g, p, breed) ==
    [s EXCEPT !.held = @ \cup {<<w, g>>}, !.pos = (g :> p) @@ @, !.bred = IF breed THEN @ \cup {g} ELSE @]
(* all that a breeding draws comes from the generator it took *)
MayDraw(s, w, g, p) == <<w, g>> \in s.held /\ p >= s.pos[g]
Draw(s, w, g, p) == [s EXCEPT !.pos = (g :> p) @@ @]
Give(s, w, g, p) == [s EXCEPT !.pos = (g :> p) @@ @, !.held = @ \ {<<w, g>>}]
=============================================================================
