----------------------------- MODULE Anisotropy -----------------------------
(* Layered materials.  A director n (any integer vector <<x, z>>, length sqrt(N)) is normal to the layers; along the layers shear is   *)
(* easier by the factor dn/dd >= 1.  Strain rates and stresses: <<xx, zz, xz>>.                                                        *)
EXTENDS Util, Sequences
N2(v) == v[1] * v[1] + v[2] * v[2]
Layer(n) == <<n[2], -n[1]>>                                     \* direction of the layers
Turn(n, r) == <<r[1] * n[1] - r[2] * n[2], r[2] * n[1] + r[1] * n[2]>>    \* n turned by the angle of r, |r| times longer
(* components of e in the frame whose first axis is l (times |l|^2), and back *)
Into(l, e) == LET x == l[1] z == l[2] IN <<x * x * e[1] + z * z * e[2] + 2 * x * z * e[3], z * z * e[1] + x * x * e[2] - 2 * x * z * e[3], x * z * (e[2] - e[1]) + (x * x - z * z) * e[3]>>
Back(l, t) == LET x == l[1] z == l[2] IN <<x * x * t[1] + z * z * t[2] - 2 * x * z * t[3], z * z * t[1] + x * x * t[2] + 2 * x * z * t[3], x * z * (t[1] - t[2]) + (x * x - z * z) * t[3]>>
(* stress per 2 viscosity: unchanged across the layers, divided by dn/dd for shear along them;  times Den *)
Den(n, dn) == N2(n) * N2(n) * dn
Response(n, dn, dd, e) == LET r == Into(Layer(n), e) IN Back(Layer(n), <<dn * r[1], dn * r[2], dd * r[3]>>)
(* strain rate that carries the stress t in an elastic step of modulus times step 1/2: the factor the other way round; times Den(n, dd) *)
Compliance(n, dn, dd, t) == Response(n, dd, dn, t)
(* the closed form of the same law with d1 = 2 lx^2 lz^2, d2 = lx lz (lz^2 - lx^2), a = 1 - dd/dn *)
D1(n) == 2 * n[1] * n[1] * n[2] * n[2]
D2(n) == n[1] * n[2] * (n[2] * n[2] - n[1] * n[1])
ClosedForm(n, dn, dd, e, sg) == LET q == N2(n) * N2(n) a == dn - dd IN
  <<e[1] * (q * dn - a * D1(n)) + e[2] * a * D1(n) - 2 * sg * e[3] * a * D2(n), e[2] * (q * dn - a * D1(n)) + e[1] * a * D1(n) + 2 * sg * e[3] * a * D2(n), sg * a * D2(n) * (e[2] - e[1]) + 2 * e[3] * a * D1(n) + e[3] * q * dd>>
Power(t, e) == t[1] * e[1] + t[2] * e[2] + 2 * t[3] * e[3]
(* averages over the phases: weights w (eighths), values v from {1, 2, 4, 8}; <<numerator, denominator>>, or <<0, 0>> if not a number of this kind *)
Sum(n, F(_)) == SumTo([p \in 1..n |-> F(p)], n)
Lg(v) == IF v = 1 THEN 0 ELSE IF v = 2 THEN 1 ELSE IF v = 4 THEN 2 ELSE 3
Pow2(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE 8
Mean(mode, w, v) == LET n == Len(w) IN
  IF mode = 0 THEN <<Sum(n, LAMBDA p : w[p] * v[p]), 8>>
  ELSE IF mode = 1 THEN <<64, Sum(n, LAMBDA p : w[p] * (8 \div v[p]))>>
  ELSE LET s == Sum(n, LAMBDA p : w[p] * Lg(v[p])) IN IF s % 8 = 0 THEN <<Pow2(s \div 8), 1>> ELSE <<0, 0>>
(* the eighth power of a geometric mean of powers of two *)
Exponent(w, v) == Sum(Len(w), LAMBDA p : w[p] * Lg(v[p]))
(* factor of a phase: given, or the aspect ratio of the strain ellipse up to a maximum *)
FactorOf(given, grows, ar, max) == IF grows = 0 THEN given ELSE IF ar <= max THEN ar ELSE max
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
=============================================================================
