------------------------------ MODULE Balance ------------------------------
(* The discrete mass and force balance on the staggered grid, in integers.                                              *)
(* A state s has: Nx, Nz, ix = 1/dx, iz = 1/dz (integers), comp, oop, gx, gz, td = theta*dt, types tu tv tp tg,         *)
(* wall stresses vu vv (type 2), viscosities en (cells) es (vertices), densities rn rs, bt = compressibility/dt, p0, q  *)
(* (thermal source), cc (compressible cells).  A field w is (u, v, p).  Forces are multiplied by 6, divergence by 2.    *)
EXTENDS Util
Cu(s, k, l) == k + l * s.Nx + 1
Cv(s, k, l) == k + l * (s.Nx + 1) + 1
Cc(s, k, l) == k + l * (s.Nx - 1) + 1
Cg(s, k, l) == k + l * s.Nx + 1
Air(s, c) == s.tp[c] \in {30, 31}
Wet(s, k, l) == ~Air(s, Cc(s, k, l))
DvX(s, w, k, l) == (w.u[Cu(s, k + 1, l + 1)] - w.u[Cu(s, k, l + 1)]) * s.ix
DvZ(s, w, k, l) == (w.v[Cv(s, k + 1, l + 1)] - w.v[Cv(s, k + 1, l)]) * s.iz
(* twice the divergence; with out-of-plane strain the third direction takes half of the in-plane divergence *)
Div2(s, w, k, l) == IF ~Wet(s, k, l) THEN 0 ELSE (IF s.oop = 1 THEN 3 ELSE 2) * (DvX(s, w, k, l) + DvZ(s, w, k, l))
Exx6(s, w, k, l) == IF ~Wet(s, k, l) THEN 0 ELSE 6 * DvX(s, w, k, l) - s.comp * Div2(s, w, k, l)
Ezz6(s, w, k, l) == IF ~Wet(s, k, l) THEN 0 ELSE 6 * DvZ(s, w, k, l) - s.comp * Div2(s, w, k, l)
Gxz(s, w, k, l) == IF s.tg[Cg(s, k, l)] = 30 THEN 0
                   ELSE (w.u[Cu(s, k, l + 1)] - w.u[Cu(s, k, l)]) * s.iz + (w.v[Cv(s, k + 1, l)] - w.v[Cv(s, k, l)]) * s.ix
(* total stresses times 6 *)
Sxx6(s, w, k, l) == 2 * s.en[Cc(s, k, l)] * Exx6(s, w, k, l) - 6 * w.p[Cc(s, k, l)]
Szz6(s, w, k, l) == 2 * s.en[Cc(s, k, l)] * Ezz6(s, w, k, l) - 6 * w.p[Cc(s, k, l)]
Sxz6(s, w, k, l) == 6 * s.es[Cg(s, k, l)] * Gxz(s, w, k, l)
(* x force per unit volume (times 6) at u node k,l *)
StabX(s, w, k, l) == IF s.td = 0 THEN 0 ELSE 6 * s.td * s.gx * (s.rn[Cc(s, k, l - 1)] - s.rn[Cc(s, k - 1, l - 1)]) * s.ix * w.u[Cu(s, k, l)]
StabZ(s, w, k, l) == IF s.td = 0 THEN 0 ELSE 6 * s.td * s.gz * (s.rn[Cc(s, k - 1, l)] - s.rn[Cc(s, k - 1, l - 1)]) * s.iz * w.v[Cv(s, k, l)]
FX6(s, w, k, l) ==
   LET y == s.tu[Cu(s, k, l)] m == s.Nx - 2
       W == IF k = 0 THEN Sxx6(s, w, m, l - 1) ELSE Sxx6(s, w, k - 1, l - 1)        \* k = 0: the periodic partner
       E == Sxx6(s, w, k, l - 1)
       shear == (Sxz6(s, w, k, l) - Sxz6(s, w, k, l - 1)) * s.iz
       weight == 3 * s.gx * (s.rs[Cg(s, k, l - 1)] + s.rs[Cg(s, k, l)])
   IN IF y = 2 /\ k = 0 THEN (E - 6 * s.vu[Cu(s, k, l)]) * s.ix + shear \div 2 + weight
      ELSE IF y = 2 /\ k = s.Nx - 1 THEN (6 * s.vu[Cu(s, k, l)] - Sxx6(s, w, k - 1, l - 1)) * s.ix + shear \div 2 + weight
      ELSE (E - W) * s.ix + shear + weight
FZ6(s, w, k, l) ==
   LET y == s.tv[Cv(s, k, l)]
       shear == (Sxz6(s, w, k, l) - Sxz6(s, w, k - 1, l)) * s.ix
   IN IF y = 2 /\ l = 0 THEN (Szz6(s, w, k - 1, l) - 6 * s.vv[Cv(s, k, l)]) * s.iz + shear \div 2
      ELSE IF y = 2 /\ l = s.Nz - 1 THEN (6 * s.vv[Cv(s, k, l)] - Szz6(s, w, k - 1, l - 1)) * s.iz + shear \div 2
      ELSE (Szz6(s, w, k - 1, l) - Szz6(s, w, k - 1, l - 1)) * s.iz + shear + 3 * s.gz * (s.rn[Cc(s, k - 1, l)] + s.rn[Cc(s, k - 1, l - 1)])
(* twice the mass balance of a cell *)
M2(s, w, k, l) == LET c == Cc(s, k, l) IN
   (IF s.cc[c] = 1 THEN 2 * s.bt[c] * (w.p[c] - s.p0[c]) ELSE 0) + Div2(s, w, k, l) - (IF s.comp = 1 /\ s.cc[c] = 1 THEN 2 * s.q[c] ELSE 0)
UEq(s) == {<<k, l>> \in (0..(s.Nx-1)) \X (1..(s.Nz-1)) : s.tu[Cu(s, k, l)] \in {-1, 2, -2}}
VEq(s) == {<<k, l>> \in (1..(s.Nx-1)) \X (0..(s.Nz-1)) : s.tv[Cv(s, k, l)] \in {-1, 2}}
PEq(s) == {<<k, l>> \in (0..(s.Nx-2)) \X (0..(s.Nz-2)) : s.tp[Cc(s, k, l)] = -1}
(* the stabilisation never makes an unstable density stratification destroy the diagonal: then it may be left out *)
Stab(full) == IF full = 0 THEN {0} ELSE {full}
=============================================================================
