-------------------------- MODULE Anisotropy_Trace --------------------------
(* Recorded states of layered materials.  Viscosities and factors times 1000, stresses and operators times 100.                               *)
(* Grid: np phases with m[p] = <<viscosity, factor, grows, maximum>>; s: nodes; a node holds w (eighths), ar (aspect ratio), w2/ar2 (the other   *)
(* side of a periodic box, or empty), n (director), e (strain rate), t0 (old stress), ee (elastic viscosity, 0 none), and what was recorded.   *)
EXTENDS Anisotropy, TraceLib
VARIABLE i
e == Trace[i]
RDiv(a, b) == (2 * a + b) \div (2 * b)
Factors(ar) == [p \in 1..Len(e.m) |-> FactorOf(e.m[p][2], e.m[p][3], ar, e.m[p][4])]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lowest(f) == LET g == Gcd(f[1], f[2]) IN IF g = 0 THEN f ELSE <<f[1] \div g, f[2] \div g>>
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Sq(x) == RDiv(x * x, 1000)
(* a recorded mean r (times 1000) of the values v *)
IsMean(r, mode, w, v) == LET m == Mean(mode, w, v) IN
  IF m # <<0, 0>> THEN Near(r * m[2], 1000 * m[1], m[2])
  ELSE LET x == Exponent(w, v) k == x \div 8 f == RDiv(r, P2(k)) IN Near(Sq(Sq(Sq(f))), 1000 * P2(x % 8), 20 * P2(x % 8))
Visc(s) == IF s.ee = 0 THEN Mean(e.avg, s.w, [p \in 1..Len(e.m) |-> Clip(e.m[p][1], e.lo, e.hi)])
           ELSE LET v == e.m[1][1] a == v * s.ee b == v + s.ee IN IF a < e.lo * b THEN <<e.lo, 1>> ELSE IF a > e.hi * b THEN <<e.hi, 1>> ELSE <<a, b>>
(* stress of a node, times 100 *)
Stress(s, eta, f, j) == RDiv(200 * Response(s.n, f[1], f[2], s.e)[j] * eta[1], Den(s.n, f[1]) * eta[2]) + (IF s.ee = 0 THEN 0 ELSE RDiv(100 * eta[1] * s.t0[j], eta[2] * s.ee))
Col(s, eta, f, c, j) == LET u == IF c = 1 THEN <<1, 0, 0>> ELSE IF c = 2 THEN <<0, 1, 0>> ELSE <<0, 0, 1>> IN
  RDiv((IF c = 3 THEN 100 ELSE 200) * Response(s.n, f[1], f[2], u)[j] * eta[1], Den(s.n, f[1]) * eta[2])
Node(k) == LET s == e.s[k] IN
  IF s.air = 1 THEN /\ ChkV("no layers in air", s.fac = 0 /\ s.eta = 0 /\ s.etap = 0, <<k, s>>)
                    /\ ChkV("no stress in air", \A j \in 1..3 : s.t[j] = 0, <<k, s.t>>)
                    /\ ChkV("no operator in air", \A j \in DOMAIN s.D : s.D[j] = 0, <<k, s.D>>)
  ELSE LET fs == Factors(s.ar) f == Lowest(Mean(e.aavg, s.w, fs)) eta == Lowest(Visc(s)) IN
    /\ (Len(s.w2) = 0 => ChkV("factor of the layers", IsMean(s.fac, e.aavg, s.w, fs), <<k, s.fac, s.w, fs>>))
    /\ (Len(s.w2) > 0 /\ f # <<0, 0>> => LET g == Mean(e.aavg, s.w2, Factors(s.ar2)) IN (g # <<0, 0>> =>
          ChkV("factor at the joined sides", Near(s.fac, RDiv(500 * f[1], f[2]) + RDiv(500 * g[1], g[2]), 2), <<k, s.fac, f, g>>)))
    /\ ChkV("factor between one and the largest", s.fac >= 999, <<k, s.fac>>)
    /\ (s.ee = 0 => ChkV("viscosity of the mixture", IsMean(s.eta, e.avg, s.w, [p \in 1..Len(e.m) |-> Clip(e.m[p][1], e.lo, e.hi)]), <<k, s.eta, s.w, e.m, e.lo, e.hi>>))
    /\ (s.ee # 0 => ChkV("visco-elastic viscosity", Near(s.eta * eta[2], 1000 * eta[1], eta[2]), <<k, s.eta, eta>>))
    /\ ChkV("viscosity of creep alone", IsMean(s.etap, e.avg, s.w, [p \in 1..Len(e.m) |-> Clip(e.m[p][1], e.lo, e.hi)]), <<k, s.etap, s.w, e.m>>)
    /\ (s.law = 1 /\ f # <<0, 0>> /\ eta # <<0, 0>> =>
         /\ \A j \in 1..3 : ChkV("stress of the layered material", Near(s.t[j], Stress(s, eta, f, j), 3), <<k, j, s.n, f, eta, s.e, s.t[j], Stress(s, eta, f, j)>>)
         /\ (Len(s.D) = 8 => /\ \A j \in 1..2, c \in 1..3 : ChkV("operator of the layered material", Near(s.D[4 * (j - 1) + c], Col(s, eta, f, c, j), 2), <<k, j, c, s.n, f, eta, s.D>>)
                             /\ ChkV("no pressure in the operator", s.D[4] = 0 /\ s.D[8] = 0, s.D))
         /\ (Len(s.D) = 4 => /\ \A c \in 1..3 : ChkV("shear operator of the layered material", Near(s.D[c], Col(s, eta, f, c, 3), 2), <<k, c, s.n, f, eta, s.D>>)
                             /\ ChkV("no pressure in the shear operator", s.D[4] = 0, s.D)))
(* Same: viscosities and partial strain rates of the layered material in units of those of the plain one *)
Same == \A k \in DOMAIN e.r : ChkV("creep does not depend on the layers", Near(e.r[k], 1000000, 100), <<e.what, k, e.r[k], e.opt>>)
(* Tangent: D against differences of recorded stresses *)
Tangent == \A k \in DOMAIN e.D : ChkV("the tangent is the derivative of the stress", Near(e.D[k], e.fd[k], e.tol + Abs(e.fd[k]) \div 200), <<k, e.D[k], e.fd[k], e.opt>>)
(* Directors: material angle with cosine and sine c/q, turned clockwise by the angle of <<x, z>> from the vertical if polar *)
Dir(k) == LET a == e.a[k] v == IF e.polar = 1 THEN Turn(<<a[1], a[2]>>, <<e.x[k][2], -e.x[k][1]>>) ELSE <<a[1], a[2]>>  q == a[3] * (IF e.polar = 1 THEN e.x[k][3] ELSE 1) IN
  IF e.ph[k] = -1 THEN e.n[k] = <<70000, 70000>> ELSE Near(e.n[k][1], RDiv(10000 * v[1], q), 2) /\ Near(e.n[k][2], RDiv(10000 * v[2], q), 2)
Directors == \A k \in DOMAIN e.n : ChkV("directors start at the angle of the material", Dir(k), <<k, e.ph[k], e.a[k], e.x[k], e.n[k], e.polar>>)
(* Run: recorded bounds of fields of a run *)
Run == \A k \in DOMAIN e.b : \A j \in DOMAIN e.b[k].v : ChkV(e.b[k].what, e.b[k].v[j] >= e.b[k].lo[j] - e.b[k].tol /\ e.b[k].v[j] <= e.b[k].hi[j] + e.b[k].tol, <<j, e.b[k].v[j], e.b[k].lo[j], e.b[k].hi[j]>>)
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ (IF e.e = "Grid" THEN \A k \in DOMAIN e.s : Node(k) ELSE IF e.e = "Same" THEN Same ELSE IF e.e = "Tangent" THEN Tangent ELSE IF e.e = "Directors" THEN Directors ELSE Run) = TRUE
Spec == Init /\ [][Next]_i
=============================================================================
