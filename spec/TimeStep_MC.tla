---------------------------- MODULE TimeStep_MC ----------------------------
(* Every combination of small settings; the state is one case, plus the same case with a faster field. *)
EXTENDS TimeStep
Vs == {0, 2, -5}
Dts == {40, 400}
VARIABLES r, w
Cases == [vx : {<<a, b>> : a \in Vs, b \in Vs}, vz : {<<0>>, <<3>>}, C : {2, 8}, dx : {4, 8}, dz : {4, 6}, dt0 : Dts, elastic : {0, 1}, surf : {0, 1},
          vinc : {2, -5}, chem : {0, 1}, tau : {400}, red : {1, 4}, start : {100}, max : {120, 4000}, min : {1, 60}, const : {0, 1}]
Init == r \in Cases /\ w = Dt(r)
Next == \E k \in {2, 3} : r' = [r EXCEPT !.vx = [n \in DOMAIN r.vx |-> k * r.vx[n]], !.vz = [n \in DOMAIN r.vz |-> k * r.vz[n]]]
                       /\ Vmax(r) <= 10 /\ w' = Dt(r')
Spec == Init /\ [][Next]_<<r, w>>
Inv == Positive(r) /\ BelowMax(r) /\ AboveMin(r) /\ BelowCourant(r) /\ BelowSurface(r) /\ GrowthOK(r) /\ ConstantKept(r)
SubInv == \A d \in {1, 7, 19, 20, 60, 61, 100} : \A l \in {1, 3, 19, 20, 58, 57, 200} : SubStepsFit(d, l)
Shrinks == [][(r.const = 0 /\ Vmax(r) > 0) => w' <= w]_<<r, w>>   \* faster field, never a longer step
=============================================================================
