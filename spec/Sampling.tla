------------------------------ MODULE Sampling ------------------------------
(* Grid values seen by a marker, in integers: U units per cell, positions from the south-west corner of the domain.   *)
(* s: Nx, Nz (vertices), U, per.  Corners: west and east column, south and north row (from 0) and the weights in U.    *)
EXTENDS Util
RDiv(a, b) == (2 * a + b) \div (2 * b)
Clamp(x, a, b) == Max2(a, Min2(b, x))
Air(t) == t \in {30, 31}
(* cell centres: beyond the outermost centres the outermost value continues, or the other side's when periodic *)
Cells(s, x, z) ==
   LET U == s.U  ncx == s.Nx - 1  ncz == s.Nz - 1  xx == x + U \div 2  zz == z + U \div 2
       j == Clamp(CeilDiv(xx, U) - 1, 0, ncx)  i == Clamp(CeilDiv(zz, U) - 1, 0, ncz)
   IN [w |-> IF j > 0 THEN j - 1 ELSE IF s.per = 1 THEN ncx - 1 ELSE 0, e |-> IF j < ncx THEN j ELSE IF s.per = 1 THEN 0 ELSE ncx - 1,
       s |-> Max2(i - 1, 0), n |-> Min2(i, ncz - 1), wx |-> xx - j * U, wz |-> zz - i * U, nx |-> ncx]
(* cell centres, never extrapolating and never wrapping: the strain increments *)
Inner(s, x, z) ==
   LET U == s.U  ncx == s.Nx - 1  ncz == s.Nz - 1  xx == x - U \div 2  zz == z - U \div 2
       j == Clamp(CeilDiv(xx, U) - 1, 0, ncx - 2)  i == Clamp(CeilDiv(zz, U) - 1, 0, ncz - 2)
   IN [w |-> j, e |-> j + 1, s |-> i, n |-> i + 1, wx |-> Clamp(xx - j * U, 0, U), wz |-> Clamp(zz - i * U, 0, U), nx |-> ncx]
Vertices(s, x, z) ==
   LET U == s.U  j == Clamp(CeilDiv(x, U) - 1, 0, s.Nx - 2)  i == Clamp(CeilDiv(z, U) - 1, 0, s.Nz - 2)
   IN [w |-> j, e |-> j + 1, s |-> i, n |-> i + 1, wx |-> Clamp(x - j * U, 0, U), wz |-> Clamp(z - i * U, 0, U), nx |-> s.Nx]
SW(k) == k.w + k.s * k.nx + 1
SE(k) == k.e + k.s * k.nx + 1
NW(k) == k.w + k.n * k.nx + 1
NE(k) == k.e + k.n * k.nx + 1
Weights(s, k) == <<(s.U - k.wx) * (s.U - k.wz), k.wx * (s.U - k.wz), (s.U - k.wx) * k.wz, k.wx * k.wz>>
(* a corner in the air takes the value of the corner above or below it; the sum carries U * U *)
Mixed(s, k, f, t) ==
   LET a == IF Air(t[SW(k)]) THEN f[NW(k)] ELSE f[SW(k)]  b == IF Air(t[SE(k)]) THEN f[NE(k)] ELSE f[SE(k)]
       c == IF Air(t[NW(k)]) THEN f[SW(k)] ELSE f[NW(k)]  d == IF Air(t[NE(k)]) THEN f[SE(k)] ELSE f[NE(k)]
       w == Weights(s, k)
   IN w[1] * a + w[2] * b + w[3] * c + w[4] * d
(* corners in the air are left out: <<sum, weight>> *)
Kept(s, k, f, t) ==
   LET w == Weights(s, k)  q == <<SW(k), SE(k), NW(k), NE(k)>>  u == [m \in 1..4 |-> IF Air(t[q[m]]) THEN 0 ELSE w[m]]
   IN <<u[1] * f[q[1]] + u[2] * f[q[2]] + u[3] * f[q[3]] + u[4] * f[q[4]], u[1] + u[2] + u[3] + u[4]>>
Around(k, f) == {f[SW(k)], f[SE(k)], f[NW(k)], f[NE(k)]}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Spread(k, f) == Most(Around(k, f)) - Least(Around(k, f))
(* the same when the position is only known to one unit: the corners of the places next to it count as well *)
SpreadBy(C(_, _), x, z, f) == Max2(Max2(Spread(C(x - 1, z - 1), f), Spread(C(x + 1, z - 1), f)), Max2(Spread(C(x - 1, z + 1), f), Spread(C(x + 1, z + 1), f)))
=============================================================================
