---------------------------- MODULE Chemical_MC ----------------------------
(* Every composition field, topography, side condition and diffusivity pattern of a tiny body, and two markers in every  *)
(* cell: amounts are kept when closed, nothing leaves the old range, nothing bleeds into the air, markers stay in [0,1]  *)
(* and follow the change of their cell.                                                                                  *)
EXTENDS Chemical
CONSTANTS NCX, NCZ, Xs, Ks4, Spreads, One, Broken
ASSUME Broken \in {"no", "leak", "noclip"}
VARIABLES st, r, X1, X0, m0, m1
vars == <<st, r, X1, X0, m0, m1>>
n == NCX * NCZ
Pos(c) == <<(c-1) % NCX, (c-1) \div NCX>>
Faces == NCX + 1
R(side, h, kp) ==
  [ncx |-> NCX, ncz |-> NCZ, ax |-> 1, az |-> 2, iz |-> 1, mink |-> 0, C |-> [c \in 1..n |-> 1],
   ty |-> [c \in 1..((NCX+2)*(NCZ+2)) |-> LET k == ((c-1) % (NCX+2)) - 1 l == ((c-1) \div (NCX+2)) - 1 IN
             IF k >= 0 /\ k < NCX /\ l >= 0 /\ l < NCZ THEN (IF l >= h[k+1] THEN Air ELSE -1)
             ELSE IF l = -1 \/ l = NCZ THEN (IF side = "held" THEN 1 ELSE 0) ELSE IF side = "periodic" THEN -2 ELSE 0],
   va |-> [c \in 1..((NCX+2)*(NCZ+2)) |-> IF side = "held" THEN (IF (c-1) \div (NCX+2) = 0 THEN One ELSE 1) ELSE 0],
   kx |-> [c \in 1..(Faces*(NCZ+2)) |-> IF (c-1) % Faces \in {0, NCX} THEN 1 ELSE (c * kp) % 3],
   kz |-> [c \in 1..((NCX+2)*(NCZ+1)) |-> (c * kp + 1) % 3]]
Leak(t, d) == SumTo([j \in 1..4 |-> LET dr == <<<<-1, 0>>, <<1, 0>>, <<0, -1>>, <<0, 1>>>>[j] IN
               IF Inside(r, d[1] + dr[1], d[2] + dr[2]) /\ Ty(r, d[1] + dr[1], d[2] + dr[2]) = Air THEN K(r, d[1], d[2], dr) * A(r, dr) * t[Cell(r, d[1], d[2])] ELSE 0], 4)
Old(t) == [c \in 1..n |-> LET d == Pos(c) IN IF Ty(r, d[1], d[2]) # Air THEN t[c] - Gains(r, t, d[1], d[2]) + (IF Broken = "leak" THEN Leak(t, d) ELSE 0) ELSE AirX]
Rock == {Cell(r, d[1], d[2]) : d \in Cells(r)}
Give(m, rock) == IF Broken = "noclip" THEN [q \in DOMAIN m |-> [m[q] EXCEPT !.x = IF m[q].c \in rock THEN m[q].x + X1[m[q].c] - X0[m[q].c] ELSE m[q].x]]
                 ELSE Handed(m, X0, X1, rock, One)
Init == st = 0 /\ r = <<>> /\ X1 = <<>> /\ X0 = <<>> /\ m0 = <<>> /\ m1 = <<>>
Pick == st = 0 /\ st' = 1 /\ \E s \in {"closed", "held", "periodic"} : \E h \in [1..NCX -> 1..NCZ] : \E k \in Ks4 : r' = R(s, h, k) /\ UNCHANGED <<X1, X0, m0, m1>>
Fill == st = 1 /\ st' = 2 /\ \E t \in [1..n -> Xs] : \E o \in {Old([c \in 1..n |-> IF c \in Rock THEN t[c] ELSE AirX])} :
          /\ \A c \in Rock : o[c] >= 0 /\ o[c] <= One
          /\ X1' = [c \in 1..n |-> IF c \in Rock THEN t[c] ELSE AirX] /\ X0' = o /\ UNCHANGED <<r, m0, m1>>
(* markers: two per cell, the mean of which is the composition of the cell; some float in the air *)
Mark == st = 2 /\ st' = 3 /\ \E w \in Spreads : m0' = [q \in 1..(2*n) |-> LET c == (q + 1) \div 2 b == IF c \in Rock THEN X0[c] ELSE 1 s == IF b - w < 0 \/ b + w > One THEN 0 ELSE w IN
           [c |-> c, x |-> IF q % 2 = 0 THEN b + s ELSE b - s]] /\ UNCHANGED <<r, X1, X0, m1>>
Hand == st = 3 /\ st' = 4 /\ m1' = Give(m0, Rock) /\ UNCHANGED <<r, X1, X0, m0>>
Spec == Init /\ [][Pick \/ Fill \/ Mark \/ Hand]_vars
Conserved == st = 2 /\ Closed(r) => Amount(r, X0) = Amount(r, X1)
Bounded == st = 2 => \A p \in {Pool(r, X0)} : \A c \in Rock : (\E x \in p : X1[c] <= x) /\ (\E x \in p : X1[c] >= x)
Uniform == st = 2 /\ Closed(r) /\ (\A b, c \in Rock : X0[b] = X0[c]) => X1 = X0
MarkersInside == st = 4 => \A q \in DOMAIN m1 : m1[q].x >= 0 /\ m1[q].x <= One
AirMarkersStay == st = 4 => \A q \in DOMAIN m1 : m1[q].c \notin Rock => m1[q].x = m0[q].x
Follow == st = 4 => \A q \in DOMAIN m1 : q % 2 = 0 /\ m1[q].c \in Rock /\ (\A j \in {q, q-1} : m1[j].x \notin {0, One}) => (m1[q].x + m1[q-1].x) = 2 * X1[m1[q].c]
============================================================================
