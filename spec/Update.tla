------------------------------- MODULE Update -------------------------------
(* How changes computed on the grid reach the markers.  Values are integers in units of 1/K of the field's unit; s as in  *)
(* Sampling plus m: sequence of <<x, z, phase>>, tc, tg (cell and vertex types).                                          *)
EXTENDS Sampling
TT == INSTANCE Transfer
Rock(f, t) == [c \in 1..Len(f) |-> IF Air(t[c]) THEN 0 ELSE f[c]]
Minus(f, g, t) == [c \in 1..Len(f) |-> IF Air(t[c]) THEN 0 ELSE f[c] - g[c]]
Corner(s, where, x, z) == IF where = 1 THEN Cells(s, x, z) ELSE Vertices(s, x, z)
(* value of a grid field at every marker (0 for inactive ones); where = 1 cells, 0 vertices *)
Seen(s, where, f, t) == [k \in 1..Len(s.m) |-> IF s.m[k][3] = -1 THEN 0 ELSE RDiv(Mixed(s, Corner(s, where, s.m[k][1], s.m[k][2]), f, t), s.U * s.U)]
SeenKept(s, where, f, t) == [k \in 1..Len(s.m) |-> IF s.m[k][3] = -1 THEN 0 ELSE LET q == Kept(s, Corner(s, where, s.m[k][1], s.m[k][2]), f, t) IN IF q[2] = 0 THEN 0 ELSE RDiv(q[1], q[2])]
(* average of marker values back on the grid *)
Back(s, where, st, val, t) ==
   LET nx == IF where = 1 THEN s.Nx - 1 ELSE s.Nx  nz == IF where = 1 THEN s.Nz - 1 ELSE s.Nz  o == IF where = 1 THEN s.U \div 2 ELSE 0
       g == [U |-> s.U, nx |-> nx, nz |-> nz, ox |-> o, oz |-> o, st |-> st, per |-> s.per, cyc |-> where, m |-> [k \in 1..Len(s.m) |-> <<s.m[k][1], s.m[k][2], s.m[k][3], val[k]>>]]
   IN [c \in 1..nx * nz |-> IF Air(t[c]) THEN 0 ELSE LET a == TT!Average(TT!Contrib(g, (c - 1) % nx, (c - 1) \div nx), 1) IN IF a = <<>> THEN 0 ELSE a[1]]
(* plain update: every active marker receives the interpolated change *)
Plain(s, where, old, inc, t) == LET v == Seen(s, where, inc, t) IN [k \in 1..Len(old) |-> old[k] + v[k]]
(* relaxing update: the marker first moves towards the old grid value by the fraction fr[k]/Q, the grid then hands out what is left of its change *)
Towards(s, where, old, base, fr, Q, t) == LET v == Seen(s, where, base, t) IN [k \in 1..Len(old) |-> IF s.m[k][3] = -1 THEN 0 ELSE -RDiv((old[k] - v[k]) * fr[k], Q)]
Relaxed(s, where, st, old, base, inc, fr, Q, t) ==
   LET w == Towards(s, where, old, base, fr, Q, t)  b == Back(s, where, st, w, t)
       v == Seen(s, where, Minus(inc, b, t), t)
   IN [k \in 1..Len(old) |-> old[k] + w[k] + v[k]]
Limit(v, K) == [k \in 1..Len(v) |-> Clamp(v[k], 0, K)]
(* rotation of a stress <<xx, zz, xz>> with the material by the angle a (units 1/Q, counter-clockwise) *)
Spin(T, a, Q) == LET w(x) == RDiv(x * a, Q) IN <<T[1] - 2 * w(T[3]), T[2] + 2 * w(T[3]), T[3] + w(T[1] - T[2])>>
Sine(a, Q) == a - RDiv(RDiv(a * a, Q) * a, 6 * Q)
Cosine(a, Q) == Q - RDiv(a * a, 2 * Q) + RDiv(RDiv(a * a, Q) * RDiv(a * a, Q), 24 * Q)
Turn(T, a, Q) == LET c == Cosine(a, Q)  n == Sine(a, Q)  m(x, y) == RDiv(x * y, Q)
                     cc == m(c, c)  ss == m(n, n)  cs == m(c, n)
                 IN <<m(cc, T[1]) + m(ss, T[2]) - 2 * m(cs, T[3]), m(ss, T[1]) + m(cc, T[2]) + 2 * m(cs, T[3]), m(cs, T[1] - T[2]) + m(cc - ss, T[3])>>
(* director n = <<x, z>> (units 1/Q) carried by the velocity gradient L = <<xx, xz, zx, zz>> of the step, before it is made a unit vector again *)
Carried(n, L, Q) == LET m(x, y) == RDiv(x * y, Q)  h == m(L[1] - L[4], m(n[1], n[2])) + m(L[3], m(n[2], n[2])) - m(L[2], m(n[1], n[1]))
                    IN <<n[1] - m(h, n[2]), n[2] + m(h, n[1])>>
=============================================================================
