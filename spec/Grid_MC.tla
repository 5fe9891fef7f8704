------------------------------- MODULE Grid_MC -------------------------------
(* All small grids, boxes, wall motions, fields and topographies: cells tile the box, transfers reproduce what they should, *)
(* the pressure is the weight above.                                                                                        *)
EXTENDS Grid
CONSTANTS NXS, NZS, Lows, Sizes, Vels, Vals
LL == -3..2
VV == -2..2
VARIABLES st, s, box, f
vars == <<st, s, box, f>>
nc(q) == (q.nx - 1) * (q.nz - 1)
Init == st = "start" /\ s = <<>> /\ box = <<>> /\ f = <<>>
Box == st = "start" /\ st' = "box" /\ \E n \in NXS : \E lo \in Lows : \E d \in Sizes : s' = [n |-> n] /\ box' = <<lo, lo + d>> /\ UNCHANGED f
Move == st = "box" /\ st' = "moved" /\ \E vw \in Vels : \E ve \in Vels : \E dt \in 1..2 :
        /\ box' = <<box[1] + dt * vw, box[2] + dt * ve>> /\ f' = <<box[1], box[2], vw, ve, dt>> /\ UNCHANGED s
Tiles == st \in {"box", "moved"} => LET n == s.n lo == box[1] hi == box[2] IN
         /\ Vertex(n, lo, hi, 0) = F(n) * lo /\ Vertex(n, lo, hi, n - 1) = F(n) * hi
         /\ \A k \in 0..n-2 : 2 * Centre(n, lo, hi, k) = Vertex(n, lo, hi, k) + Vertex(n, lo, hi, k + 1)
         /\ \A k \in 0..n-2 : Ghosted(n, lo, hi, k + 1) = Centre(n, lo, hi, k)
         /\ \A k \in 0..n-1 : Extended(n, lo, hi, k + 1) = Vertex(n, lo, hi, k)
         /\ \A k \in 0..n-1 : Ghosted(n, lo, hi, k + 1) - Ghosted(n, lo, hi, k) = 2 * (hi - lo)
Follows == st = "moved" => /\ Moved(f[1], box[1], <<<<0, f[3]>>, <<-1, 7>>, <<0, f[3]>>>>, f[5]) /\ Moved(f[2], box[2], <<<<0, f[4] + 1>>, <<0, f[4] - 1>>>>, f[5])
                           /\ (f[3] = f[4] => box[2] - box[1] = f[2] - f[1]) /\ Moved(5, 5, <<<<13, 4>>>>, 3)
Shape == st = "start" /\ st' = "shape" /\ \E nx \in NXS : \E nz \in NZS : \E per \in {0, 1} : \E h \in [1..nx-1 -> 1..nz-1] :
         s' = [nx |-> nx, nz |-> nz, per |-> per, t |-> [c \in 1..(nx-1)*(nz-1) |-> LET k == (c-1) % (nx-1) l == (c-1) \div (nx-1) IN IF l < h[k+1] THEN -1 ELSE IF l = h[k+1] THEN 31 ELSE 30]]
         /\ UNCHANGED <<box, f>>
Fill == st = "shape" /\ st' = "filled" /\ \E v \in [1..nc(s) -> Vals] : f' = v /\ UNCHANGED <<s, box>>
Spec == Init /\ [][Box \/ Move \/ Shape \/ Fill]_vars
Rock(k, l) == ~Air(s.t[At(s, k, l)])
TG == [c \in 1..s.nx * s.nz |-> LET k == (c-1) % s.nx l == (c-1) \div s.nx IN IF \E a \in {k-1, k} : \E b \in {l-1, l} : Rock(a, b) THEN -1 ELSE 30]
Hi == Max2(0, CHOOSE x \in Vals : \A y \in Vals : x >= y)
(* never beyond the values around (zero for air); reproduces constants inside rock; linear fields at inner vertices *)
Average == st = "filled" => \A tg \in {TG} : \A k \in 0..s.nx-1 : \A l \in 0..s.nz-1 :
   \A q \in {ToVertex(s, f, s.t, tg, k, l)} :
   /\ q >= 0 /\ q <= 4 * Hi
   /\ ((\A a \in {k-1, k} : \A b \in {l-1, l} : Rock(a, b)) => \E a \in {k-1, k} : \E b \in {l-1, l} : q <= 4 * f[At(s, a, b)])
   /\ (s.per = 1 => ToVertex(s, f, s.t, tg, 0, l) = ToVertex(s, f, s.t, tg, s.nx - 1, l))
Linear == st = "shape" => \A k \in 1..s.nx-2 : \A l \in 1..s.nz-2 : (\A a \in {k-1, k} : \A b \in {l-1, l} : Rock(a, b)) =>
   ToVertex(s, [c \in 1..nc(s) |-> 3 * (2 * ((c-1) % (s.nx-1)) + 1) + 5 * (2 * ((c-1) \div (s.nx-1)) + 1)], s.t, TG, k, l) = 4 * (3 * 2 * k + 5 * 2 * l)
Frame == st = "filled" => \A k \in -1..s.nx-1 : \A l \in -1..s.nz-1 : LET q == Framed(s, f, s.t, k, l) IN q = 0 \/ \E c \in 1..nc(s) : q = f[c]
(* pressures grow downwards by the mean weight of the two cells; the topmost rock carries half its own *)
Columns == st = "filled" => \A k \in 0..s.nx-2 : \A l \in 0..s.nz-2 : LET c == k + l * (s.nx-1) + 1 p == Weight(s, s.t, f, k, l) IN
   /\ (Air(s.t[c]) => p = 0)
   /\ (~Air(s.t[c]) /\ (l = s.nz - 2 \/ Air(s.t[Min2(c + s.nx - 1, nc(s))])) => p = f[c])
   /\ (l < s.nz - 2 /\ ~Air(s.t[c]) /\ ~Air(s.t[Min2(c + s.nx - 1, nc(s))]) => p - Weight(s, s.t, f, k, l + 1) = f[c] + f[c + s.nx - 1])
=============================================================================
