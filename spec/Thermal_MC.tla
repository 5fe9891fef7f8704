----------------------------- MODULE Thermal_MC -----------------------------
(* Every field, conductivity pattern, side condition and topography of a tiny body: the balance conserves heat when     *)
(* closed, never leaves the range of the old field and the held values, and every exchange is mutual.                    *)
EXTENDS Thermal
CONSTANTS NCX, NCZ, Temps, Ks4, Broken
ASSUME Broken \in {"no", "west", "air"}
VARIABLES st, r, T1, T0
vars == <<st, r, T1, T0>>
n == NCX * NCZ
Sides == {"closed", "held", "periodic"}
Faces == NCX + 1
R(side, bot, h, kp) ==
  [ncx |-> NCX, ncz |-> NCZ, ax |-> 1, az |-> 2, iz |-> 1, mink |-> 1, C |-> [c \in 1..n |-> 1],
   ty |-> [c \in 1..((NCX+2)*(NCZ+2)) |-> LET k == ((c-1) % (NCX+2)) - 1 l == ((c-1) \div (NCX+2)) - 1 IN
             IF k >= 0 /\ k < NCX /\ l >= 0 /\ l < NCZ THEN (IF l >= h[k+1] THEN Air ELSE IF side = "held" /\ l = h[k+1] - 1 /\ l < NCZ - 1 THEN 1 ELSE -1)
             ELSE IF l = -1 THEN bot ELSE IF l = NCZ THEN 0 ELSE IF side = "periodic" THEN -2 ELSE IF side = "held" THEN 1 ELSE 0],
   va |-> [c \in 1..((NCX+2)*(NCZ+2)) |-> IF (c-1) \div (NCX+2) = 0 THEN (IF bot = 0 THEN 0 ELSE 4) ELSE 2],
   kx |-> [c \in 1..(Faces*(NCZ+2)) |-> IF (c-1) % Faces \in {0, NCX} THEN 1 ELSE 1 + ((c * kp) % 3)],
   kz |-> [c \in 1..((NCX+2)*(NCZ+1)) |-> 1 + ((c * kp + 1) % 3)]]
(* what cell d gains when the new field is t *)
G(t, d) == Gain(r, t, d[1], d[2], <<1, 0>>) + Gain(r, t, d[1], d[2], <<0, -1>>) + Gain(r, t, d[1], d[2], <<0, 1>>) + (IF Broken = "west" THEN 0 ELSE Gain(r, t, d[1], d[2], <<-1, 0>>))
        - (IF Broken = "air" /\ d[2] < NCZ - 1 /\ Ty(r, d[1], d[2] + 1) = Air THEN t[Cell(r, d[1], d[2])] ELSE 0)
(* the old field this new field came from *)
Old(t) == [c \in 1..n |-> LET d == <<(c-1) % NCX, (c-1) \div NCX>> IN IF Ty(r, d[1], d[2]) # Air THEN t[c] - G(t, d) ELSE 0]
Init == st = 0 /\ r = <<>> /\ T1 = <<>> /\ T0 = <<>>
Pick == st = 0 /\ st' = 1 /\ \E s \in Sides : \E b \in {0, 1} : \E h \in [1..NCX -> 1..NCZ] : \E k \in Ks4 : r' = R(s, b, h, k) /\ UNCHANGED <<T1, T0>>
Fill == st = 1 /\ st' = 2 /\ \E t \in [1..n -> Temps] : T1' = t /\ T0' = Old(t) /\ UNCHANGED r
Spec == Init /\ [][Pick \/ Fill]_vars
Conserved == st = 2 /\ Closed(r) => Heat(r, T0) = Heat(r, T1)
Bounded == st = 2 /\ ~Flowing(r) => \A p \in {Pool(r, T0)} : \A d \in Cells(r) : (\E x \in p : T1[Cell(r, d[1], d[2])] <= x) /\ (\E x \in p : T1[Cell(r, d[1], d[2])] >= x)
Mutual == st = 1 => Symmetric(r)
=============================================================================
