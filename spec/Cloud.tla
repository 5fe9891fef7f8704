------------------------------- MODULE Cloud -------------------------------
(* The initial marker cloud: one marker in the middle of each of npx x npz equal parts of every cell (below the surface), *)
(* carrying the set-up's answers or the defaults.  Positions in 1/1000 of the marker spacing.                            *)
(* s: nx, nz (sites per axis), px (sites per cell in x), fs, top (surface height at each vertex), nph, def (defined      *)
(* callbacks), fin (deformation gradient kept), x0, z0 (origin), noise                                                   *)
EXTENDS Util
Sites(s) == (0..s.nx - 1) \X (0..s.nz - 1)
Middle(k) == 1000 * k + 500
SiteOf(X) == X \div 1000
(* twice npx times (height - z) at a site: linear between the vertices of its cell *)
Clear(s, q) == LET c == q[1] \div s.px  r == 2 * (q[1] % s.px) + 1 IN (2 * s.px - r) * s.top[c + 1] + r * s.top[c + 2] - 2 * s.px * Middle(q[2])
Below(s, q) == s.fs = 0 \/ Clear(s, q) > 0
Undecided(s, q) == s.fs = 1 /\ Clear(s, q) = 0
(* what the (test) set-up answers *)
Answer(q, X, Z, p) == (q * 13 + 3 * X + 5 * Z + 29 * (p + 1)) % 97
Given(s, k) == k \in s.def
Temp(s, X, Z) == IF Given(s, 1) THEN Answer(1, X, Z, 0) ELSE 64
Phase0(s, X, Z) == IF Given(s, 0) THEN ((X + 2 * Z) \div 7) % s.nph ELSE 0
Phase(s, X, Z) == IF Given(s, 2) THEN (Temp(s, X, Z) + Phase0(s, X, Z)) % s.nph ELSE Phase0(s, X, Z)
Dual(s, X, Z) == IF Given(s, 3) THEN (Phase(s, X, Z) + 3 * X) % s.nph ELSE Phase(s, X, Z)
Val(s, k, X, Z, d) == IF Given(s, k) THEN Answer(k, X, Z, Phase(s, X, Z)) ELSE d
(* the values a marker at <<X, Z>> carries, in the order recorded; the last ones only with finite strain *)
Values(s, X, Z) ==
   LET p == Phase(s, X, Z) IN
   [phase |-> p, dual |-> Dual(s, X, Z), T |-> Temp(s, X, Z), d |-> Val(s, 6, X, Z, 0), phi |-> Val(s, 7, X, Z, 0), rho |-> Val(s, 8, X, Z, 50 + p), X |-> Val(s, 9, X, Z, 0), P |-> Val(s, 10, X, Z, 0),
    sxxd |-> Val(s, 11, X, Z, 0), szzd |-> Val(s, 12, X, Z, 0), sxz |-> Val(s, 13, X, Z, 0), noise |-> Val(s, 14, X, Z, 0),
    ani |-> IF Given(s, 16) THEN Answer(19, X, Z, p) ELSE 0,
    F |-> IF Given(s, 15) THEN <<Answer(15, X, Z, p), Answer(16, X, Z, p), Answer(17, X, Z, p), Answer(18, X, Z, p)>> ELSE <<1, 0, 0, 1>>]
VelX(s, X, Z) == IF Given(s, 4) THEN Answer(4, X, Z, 0) ELSE -(s.x0 + X)
VelZ(s, X, Z) == IF Given(s, 5) THEN Answer(5, X, Z, 0) ELSE s.z0 + Z
=============================================================================
