--------------------------- MODULE Constitutive ---------------------------
(* What a material does: strain softening, melting, density, viscosity and yield, and how phases mix in a cell. *)
(* Fractions of phases, reaction progress and table offsets are eighths; melt fractions are ten-thousandths.    *)
EXTENDS Util
E == 8
ONE == 10000
Mul(a, b, u) == LET q == Abs(a) \div u r == Abs(a) % u  s == q * Abs(b) + (r * Abs(b)) \div u IN IF (a < 0) # (b < 0) THEN -s ELSE s     \* a * b / u without a large product
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Shift(v, k) == IF k >= 0 THEN v * Pow2(k) ELSE v \div Pow2(-k)
Within(x, a, b, tol) == x >= Min2(a, b) - tol /\ x <= Max2(a, b) + tol

(* ---- softening: strength v0 until strain s, v1 from strain e on, linear between *)
Soften(v0, v1, s, e, x) == IF x < s THEN v0 ELSE IF x >= e THEN v1 ELSE v0 + ((v1 - v0) * (x - s)) \div (e - s)

(* ---- melting: solidus and liquidus (hundredths of a kelvin) at pressure p (MPa) *)
Recip(c, d) == (c \div d) * 100 + ((c % d) * 100) \div d
Solidus0(m, p) ==
   CASE m = 1 -> 87315
     [] m = 10 -> IF p > 1600 THEN 93500 + (35 * p) \div 100 + (((p * p) \div 1000) * 62) \div 100 ELSE 97300 - Recip(70400, p + 354) + ((77800000 \div (p + 354)) * 100) \div (p + 354)
     [] m = 11 -> IF p > 1200 THEN 83100 + 6 * p ELSE 88900 + Recip(17900, p + 54) + (20200 * 100) \div ((p + 54) * (p + 54))
     [] m \in {40, 41} -> IF p > 10000 THEN 221200 + ((p - 10000) * 30819) \div 10000 ELSE 139400 + Mul(132899, p, 10000) - (((p * p) \div 1000) * 5014) \div 10000
Liquidus(m, p) == CASE m = 1 -> 147315 [] m = 10 -> 142300 + (105 * p) \div 10 [] m = 11 -> 126200 + 9 * p [] m \in {40, 41} -> 207300 + (114 * p) \div 10
Solidus(m, p) == Min2(Solidus0(m, p), Liquidus(m, p) - 10000)
Clip(f) == Max2(0, Min2(ONE, f))
(* equilibrium fraction: linear in temperature; model 1 approaches one half-way every 10 ln 2 kelvin, k counts those above the solidus *)
Equilibrium(m, p, t, k) == IF m = 1 THEN (IF k >= 0 THEN ONE - ONE \div Pow2(Min2(k, 20)) ELSE ONE - ONE * Pow2(Min2(-k, 12)))
                           ELSE Mul(t - Solidus(m, p), ONE, Liquidus(m, p) - Solidus(m, p))
Relaxed(eq, old, tau, dt) == Clip((dt * eq + tau * old) \div (tau + dt))
Melt(m, p, t, k, old, tau, dt) == IF m = 0 THEN 0 ELSE Relaxed(Equilibrium(m, p, t, k), old, tau, dt)

(* ---- density in 1/1024.  a/16 expansion, b/8 compressibility, or powers of two for the exponential laws *)
DU == 1024
Linear(rho, drho, a, dT, b, dP, x) == (16 - a * dT) * (8 + b * dP) * (E * rho + x * drho)
Exponential(rho, k) == Shift(rho * DU, k)
(* tables: node values, position = index and eighths *)
Table2(v, nT, i, q, j, r) == LET at(a, b) == v[1 + a + b * nT] IN (E - q) * (E - r) * at(i, j) + q * (E - r) * at(i + 1, j) + (E - q) * r * at(i, j + 1) + q * r * at(i + 1, j + 1)      \* in 1/64
Table1(v, i, q) == (E - q) * v[i + 1] + q * v[i + 2]                                                                                                                                  \* in 1/8

(* ---- creep: the stress at which the mechanisms add up to the strain rate e.  Mechanisms <<b, n>>: rate (T/2b)^n; unit 1000 *)
U == 1000
RECURSIVE Power(_, _)
Power(x, n) == IF n = 1 THEN x ELSE LET y == Power(x, n - 1) IN IF y > (100000000 \div Max2(x, 1)) * 10 THEN 100000000 ELSE Mul(x, y, U)
Creep(mech, T) == IF mech.b = 0 THEN 0 ELSE IF mech.b > 0 THEN Power(T \div (2 * mech.b), mech.n) ELSE Power((T * (-mech.b)) \div 2, mech.n)       \* b < 0: viscosity 1/(-b)
RECURSIVE Rate(_, _, _)
Rate(ms, T, n) == IF n = 0 THEN 0 ELSE Creep(ms[n], T) + Rate(ms, T, n - 1)
Cut(eta, lo, hi) == Max2(lo, Min2(hi, eta))

(* ---- plasticity: yield from cohesion C, pressure P, friction <<cos, sin>> in 1/fu, and the limit *)
YieldOf(C, P, f, lim) == Min2(lim, Mul(C, f[1], f[3]) + Mul(P, f[2], f[3]))

(* ---- mixing *)
RECURSIVE Mean(_, _, _)
Mean(w, v, n) == IF n = 0 THEN 0 ELSE w[n] * v[n] + Mean(w, v, n - 1)
===========================================================================
