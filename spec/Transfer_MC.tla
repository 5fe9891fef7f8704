---------------------------- MODULE Transfer_MC ----------------------------
(* Every cloud of two markers on a small grid (2 x 2 cells, U = 4), on cells, vertices and velocity nodes. *)
EXTENDS Transfer
CONSTANTS Vals, Second, Phases
VARIABLES s, done
vars == <<s, done>>
U0 == 4
Kinds == {<<2, 2, 2, 2, 1>>, <<3, 3, 0, 0, 0>>, <<3, 4, 0, -2, 0>>, <<4, 3, -2, 0, 0>>}
Mk == {<<x, z, p, v>> : x \in 0..8, z \in 0..8, p \in Phases, v \in Vals}
Mk2 == {<<q[1], q[2], p, v>> : q \in Second, p \in {-1, 0, 1}, v \in Vals}
Second0 == {<<0, 0>>, <<3, 5>>, <<8, 1>>}
Second1 == {<<0, 0>>, <<3, 5>>, <<4, 4>>, <<8, 1>>, <<7, 8>>}
Base == [U |-> U0, nx |-> 2, nz |-> 2, ox |-> 0, oz |-> 0, st |-> 1, per |-> 0, cyc |-> 0, m |-> <<>>]
Init == s = Base /\ done = 0
Place == /\ done = 0 /\ done' = 1
         /\ \E k \in Kinds, st \in {1, 9}, per \in {0, 1}, a \in Mk : s' = [U |-> U0, nx |-> k[1], nz |-> k[2], ox |-> k[3], oz |-> k[4], st |-> st, per |-> per, cyc |-> k[5], m |-> <<a>>]
Add == done = 1 /\ done' = 2 /\ \E b \in Mk2 : s' = [s EXCEPT !.m = Append(s.m, b)]
Next == Place \/ Add
Spec == Init /\ [][Next]_vars
Nodes == {<<i, j>> : i \in 0..s.nx - 1, j \in 0..s.nz - 1}
Bounded == done = 2 => \A n \in Nodes : \A q \in {Contrib(s, n[1], n[2])} : LET a == Average(q, 60) IN a = <<>> \/ (a[1] >= 60 * Lowest(q) /\ a[1] <= 60 * Highest(q))
Inactive == done = 2 => \A n \in Nodes : \A q \in {Contrib(s, n[1], n[2])} : s.m[2][3] # -1 \/ q[2][1] = 0
Constant == done = 2 => (s.m[1][4] = s.m[2][4] => \A n \in Nodes : LET a == Average(Contrib(s, n[1], n[2]), 60) IN a = <<>> \/ a[1] = 60 * s.m[1][4])
Fractions == done = 2 => \A n \in Nodes : \A q \in {Contrib(s, n[1], n[2])} : SumP(q, 0, 2) >= 0 /\ SumP(q, 1, 2) >= 0 /\ SumP(q, 0, 2) + SumP(q, 1, 2) = SumW(q, 2)
(* with the wide stencil an active marker inside the domain spreads its whole weight when it is not next to a wall *)
Spread == done = 2 => (s.st = 9 => \A k \in Active(s) : \E n \in Nodes : Contrib(s, n[1], n[2])[k][1] > 0)
=============================================================================
