----------------------------- MODULE Chemical -----------------------------
(* Chemical diffusion: the implicit balance of Thermal with unit capacity (C = 1/dt) for the composition of the rock,   *)
(* and the hand-over of its change to the markers.  Compositions are integers, ONE being a composition of one.           *)
EXTENDS Thermal
Amount(r, X) == Heat(r, X)
Clip(x, one) == IF x < 0 THEN 0 ELSE IF x > one THEN one ELSE x
(* composition of the air: none *)
AirX == 0
(* markers: m[q] = [c |-> cell, x |-> composition]; the change of a cell reaches its markers, within zero and one *)
Handed(m, X0, X1, rock, one) == [q \in DOMAIN m |-> [m[q] EXCEPT !.x = IF m[q].c \in rock THEN Clip(m[q].x + X1[m[q].c] - X0[m[q].c], one) ELSE m[q].x]]
===========================================================================
