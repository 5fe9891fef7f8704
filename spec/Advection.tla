----------------------------- MODULE Advection -----------------------------
(* Motion of markers through the staggered velocity grid, in fixed point: U units per cell, positions measured from the *)
(* south-west corner, velocities multiplied by the step (units per step).  s: Nx, Nz, U, per, cons, u, v, tu, tv.       *)
EXTENDS Util
RDiv(a, b) == (2 * a + b) \div (2 * b)
Clamp(x, a, b) == Max2(a, Min2(b, x))
Cell(d, U, n) == Clamp(CeilDiv(d, U) - 1, 0, n - 2)
Mix(a, b, w, U) == RDiv(a * (U - w) + b * w, U)
(* values at the corners of the surrounding grid cell; a node in the air takes the value of its neighbour *)
Corners(f, t, a, b, c, d) ==      \* a sw, b se, c nw, d ne
   LET sw == IF t[a] = 30 THEN f[c] ELSE f[a]  se == IF t[b] = 30 THEN f[d] ELSE f[b]
       nw == IF t[c] = 30 THEN f[a] ELSE f[c]  ne == IF t[d] = 30 THEN f[b] ELSE f[d]
       e == t[b] = 30 /\ t[d] = 30             w == t[a] = 30 /\ t[c] = 30
       se2 == IF e THEN sw ELSE se             ne2 == IF e THEN sw ELSE ne
   IN [sw |-> IF w THEN se2 ELSE sw, se |-> se2, nw |-> IF w THEN se2 ELSE nw, ne |-> ne2]
Bend(w, U, d2) == RDiv(RDiv((2 * w - U) * (2 * w - U), U) * d2, 8 * U)
(* horizontal velocity at x, z *)
VelX(s, x, z) ==
   LET U == s.U  n == s.Nx  zz == z + U \div 2
       j == Cell(x, U, n)  i == Cell(zz, U, s.Nz + 1)
       wx == Abs(x - j * U)  wz == Abs(zz - i * U)
       a == j + i * n + 1  c == a + n
       q == Corners(s.u, s.tu, a, a + 1, c, c + 1)
       right == 2 * wx >= U
       bent == s.cons = 1 /\ (IF right THEN j < n - 2 ELSE j > 0)
       cs == IF ~bent THEN 0 ELSE Bend(wx, U, IF right THEN q.sw - 2 * q.se + s.u[a + 2] ELSE s.u[a - 1] - 2 * q.sw + q.se)
       cn == IF ~bent THEN 0 ELSE Bend(wx, U, IF right THEN q.nw - 2 * q.ne + s.u[c + 2] ELSE s.u[c - 1] - 2 * q.nw + q.ne)
   IN Mix(Mix(q.sw, q.se, wx, U) + cs, Mix(q.nw, q.ne, wx, U) + cn, wz, U)
VelZ(s, x, z) ==
   LET U == s.U  n == s.Nx + 1  xx == x + U \div 2
       j == Cell(xx, U, n)  i == Cell(z, U, s.Nz)
       wx == Abs(xx - j * U)  wz == Abs(z - i * U)
       a == j + i * n + 1  c == a + n
       q == Corners(s.v, s.tv, a, a + 1, c, c + 1)
       up == 2 * wz >= U
       bent == s.cons = 1 /\ (IF up THEN i < s.Nz - 2 ELSE i > 0)
       cw == IF ~bent THEN 0 ELSE Bend(wz, U, IF up THEN q.sw - 2 * q.nw + s.v[c + n] ELSE s.v[a - n] - 2 * q.sw + q.nw)
       ce == IF ~bent THEN 0 ELSE Bend(wz, U, IF up THEN q.se - 2 * q.ne + s.v[c + n + 1] ELSE s.v[a - n + 1] - 2 * q.se + q.ne)
   IN Mix(Mix(q.sw, q.nw, wz, U) + cw, Mix(q.se, q.ne, wz, U) + ce, wx, U)
LX(s) == (s.Nx - 1) * s.U
LZ(s) == (s.Nz - 1) * s.U
Wrap(s, x) == IF s.per = 0 THEN x ELSE IF x < 0 THEN x + LX(s) ELSE IF x > LX(s) THEN x - LX(s) ELSE x
(* how far a point lies beyond the domain: positive outside *)
Beyond(s, x, z) == Max2(Max2(-z, z - LZ(s)), IF s.per = 1 THEN -s.U ELSE Max2(-x, x - LX(s)))
Outside(s, x, z) == Beyond(s, x, z) > 0
V(s, p) == <<VelX(s, p[1], p[2]), VelZ(s, p[1], p[2])>>
At(s, x, z, v, n, d) == <<Wrap(s, x + RDiv(n * v[1], d)), z + RDiv(n * v[2], d)>>
Still == <<0, 0>>
(* fourth-order Runge-Kutta: the points visited; velocities are only evaluated inside the domain *)
(* (TLC evaluates a LET definition again at every use in a state-dependent context; binding by a set evaluates it once) *)
Once(F(_), x) == CHOOSE y \in {F(w) : w \in {x}} : TRUE
Vin(s, p) == IF Outside(s, p[1], p[2]) THEN Still ELSE V(s, p)
Stage(s, x, z, p, n, d) == Once(LAMBDA v : <<v, At(s, x, z, v, n, d)>>, Vin(s, p))
First(s, x, z) == Once(LAMBDA v : <<v, At(s, x, z, v, 1, 2)>>, V(s, <<x, z>>))      \* a moving boundary may have passed the marker

Path4(s, x, z, A, B, C, d) ==
   Once(LAMBDA m : [st |-> <<A[2], B[2], C[2]>>, end |-> At(s, x, z, m, 1, 1), v |-> m],
        <<RDiv(A[1][1] + 2 * B[1][1] + 2 * C[1][1] + d[1], 6), RDiv(A[1][2] + 2 * B[1][2] + 2 * C[1][2] + d[2], 6)>>)
Path(s, x, z) ==
   Once(LAMBDA A :
   Once(LAMBDA B :
   Once(LAMBDA C :
   Once(LAMBDA d : Path4(s, x, z, A, B, C, d),
        Vin(s, C[2])),
        Stage(s, x, z, B[2], 1, 1)),
        Stage(s, x, z, A[2], 1, 2)),
        First(s, x, z))
(* a marker is lost as soon as one of its points leaves the domain *)
Lost(s, h) == Outside(s, h.end[1], h.end[2]) \/ \E i \in 1..3 : Outside(s, h.st[i][1], h.st[i][2])
Move(s, m) == IF m.ph = -1 THEN m
              ELSE LET h == Path(s, m.x, m.z) IN IF Lost(s, h) THEN [m EXCEPT !.ph = -1] ELSE [m EXCEPT !.x = h.end[1], !.z = h.end[2]]
=============================================================================
