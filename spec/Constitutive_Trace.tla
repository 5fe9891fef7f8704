------------------------ MODULE Constitutive_Trace ------------------------
(* Recorded material states against the constitutive laws. *)
EXTENDS Constitutive, TraceLib
VARIABLE i
e == Trace[i]
Cells == 1..e.n
RECURSIVE MixSoft(_, _, _, _)
MixSoft(q, w, z, p) == IF p = 0 THEN 0 ELSE w[p] * (IF q[p].on = 1 THEN Soften(q[p].v0, q[p].v1, e.ps[p], e.pe[p], z) ELSE q[p].v0) + MixSoft(q, w, z, p - 1)
(* strengths of cells and vertices: e.q = friction, dilation, cohesion per phase; noise in eighths scales the cohesion *)
SoftL == /\ e.e = "Soft"
         /\ \A k \in 1..3 : \A c \in Cells : ChkV("softened strength", Near(e.r[k][c] * E * E, MixSoft(e.q[k], e.w[c], e.z[c], e.np) * (IF k = 3 THEN E + e.noise[c] ELSE E), 64 * e.np + 128), <<k, c, e.z[c], e.w[c], e.q[k], e.ps, e.pe, e.r[k][c]>>)
(* smooth law: one mixture, strains ascending; between the ends, starts at the initial strength, ends at the final one, symmetric about the middle *)
Smooth == /\ e.e = "Smooth"
          /\ \A k \in 1..3 : \A a \in {Mean(e.w, [p \in 1..e.np |-> e.q[k][p].v0], e.np)} : \A b \in {Mean(e.w, [p \in 1..e.np |-> IF e.q[k][p].on = 1 THEN e.q[k][p].v1 ELSE e.q[k][p].v0], e.np)} :
             /\ \A c \in Cells : ChkV("softened strength between its ends", Within(E * e.r[k][c], a, b, 32), <<k, c, a, b, e.r[k][c]>>)
             /\ ChkV("strength before softening", e.z[1] = 0 => Near(E * e.r[k][1], a, 32), <<k, a, e.r[k][1]>>)
             /\ ChkV("strength after softening", e.z[e.n] >= e.far => Near(E * e.r[k][e.n], b, 64), <<k, b, e.r[k][e.n]>>)
             /\ \A c \in 1..(e.n-1) : e.z[c] <= e.z[c+1] =>
                  /\ ChkV("softening is monotone", IF a >= b THEN e.r[k][c+1] <= e.r[k][c] + 2 ELSE e.r[k][c+1] >= e.r[k][c] - 2, <<k, c>>)
                  /\ ChkV("softening has no jumps", Abs(e.r[k][c+1] - e.r[k][c]) * E * e.width <= 2 * Abs(b - a) * (e.z[c+1] - e.z[c]) + 32 * e.width, <<k, c, e.r[k][c], e.r[k][c+1]>>)
             /\ \A c \in Cells : \A d \in Cells : (e.sym = 1 /\ e.z[c] + e.z[d] = 2 * e.mid) =>
                  \A m \in Cells : e.z[m] = e.mid => ChkV("softening is symmetric about its middle", Near(e.r[k][c] + e.r[k][d], 2 * e.r[k][m], 8), <<k, c, d>>)
RECURSIVE MixMelt(_, _, _)
MixMelt(c, w, p) == IF p = 0 THEN 0 ELSE w[p] * Melt(e.m[p], e.p[c], e.t[c], e.k[c], e.old[c], e.tau[p], e.dt) + MixMelt(c, w, p - 1)
Melting == /\ e.e = "Melt"
           /\ \A c \in Cells : /\ ChkV("melt fraction", Near(E * e.r[c], MixMelt(c, e.w[c], e.np), 32), <<c, e.m, e.w[c], e.p[c], e.t[c], e.k[c], e.old[c], e.r[c], MixMelt(c, e.w[c], e.np)>>)
                               /\ ChkV("melt fraction between zero and one", e.r[c] >= 0 /\ e.r[c] <= ONE, c)
                               /\ ChkV("heat capacity with latent heat is not below the dry one", e.w[c] # [p \in 1..e.np |-> 0] => E * e.cp[c] >= Mean(e.w[c], e.cp0, e.np) - 16, <<c, e.cp[c]>>)
                               /\ ChkV("no melting, no latent heat", (\A p \in 1..e.np : e.w[c][p] > 0 => e.m[p] = 0) => Near(E * e.cp[c], Mean(e.w[c], e.cp0, e.np), 16) /\ Near(E * e.al[c], Mean(e.w[c], e.al0, e.np), 16), <<c, e.cp[c], e.al[c]>>)
                               /\ ChkV("thermal dilation", e.src[c] # -999999 => Near(E * e.src[c] * e.dt * e.rho[c], Mean(e.w[c], [p \in 1..e.np |-> e.al0[p] * e.rr[p]], e.np) * (e.t[c] - e.tt[c]), 4 * E * e.dt * e.rho[c]), <<c, e.src[c]>>)
(* one phase, same pressure, hotter and hotter *)
Heating == /\ e.e = "Heating"
           /\ \A c \in 1..(e.n-1) : /\ ChkV("melt grows with temperature", e.r[c+1] >= e.r[c], <<c, e.r[c], e.r[c+1]>>)
                                    /\ ChkV("melt grows without jumps", e.r[c+1] - e.r[c] <= e.most, <<c, e.r[c], e.r[c+1]>>)
Rho(c, p) == LET f == e.f[p] s == e.s[c] IN
   CASE f.m = 0 -> f.rho * DU
     [] f.m = 1 -> Linear(f.rho, f.drho, f.a, s.t - f.t0, f.b, s.p - f.p0, s.x)
     [] f.m = 2 -> 16 * Table2(e.tab, e.nt, s.ti, s.tq, s.pi, s.pq)
     [] f.m = 3 -> (IF e.var = 1 THEN ((E - s.x) * Exponential(f.rho, f.b * s.p - f.a * s.t) + s.x * Exponential(e.f[f.to].rho, f.b * s.p - f.a * s.t)) \div E ELSE Exponential(f.rho, f.b * s.p - f.a * s.t))
     [] f.m = 4 -> 128 * Table1(e.tab1, s.di, s.dq)
     [] f.m = 5 -> ((E - s.f) * Exponential(f.rho, f.b * s.p - f.a * s.t) + s.f * Exponential(f.rho + f.drho, f.b * s.p - f.a * s.t)) \div E
RECURSIVE MixRho(_, _)
MixRho(c, p) == IF p = 0 THEN 0 ELSE (IF e.w[c][p] = 0 THEN 0 ELSE e.w[c][p] * Rho(c, p)) + MixRho(c, p - 1)
Density == /\ e.e = "Rho"
           /\ \A c \in Cells : ChkV("density", Near(E * e.r[c], IF e.ty[c] = 30 THEN 0 ELSE MixRho(c, e.np), E * e.tol[c] + 8), <<c, e.w[c], e.s[c], e.r[c], MixRho(c, e.np), e.f>>)
Moduli == /\ e.e = "Moduli"
          /\ \A c \in Cells : LET g == Mean(e.w[c], e.ig, e.np) b == Mean(e.w[c], e.ib, e.np) IN
               IF e.w[c] = [p \in 1..e.np |-> 0] THEN ChkV("moduli of air", e.g[c] = 0 /\ e.b[c] = 0 /\ e.a[c] \in {0, -1}, c)
               ELSE /\ ChkV("shear modulus is the harmonic mean", e.avg[c] = 1 \/ Near(e.g[c] * g, 64 * 1000, g + 1), <<c, e.g[c], g>>)
                    /\ ChkV("compressibility is the harmonic mean", e.avg[c] = 1 \/ Near(e.b[c] * b, 64 * 1000, b + 1), <<c, e.b[c], b>>)
                    /\ ChkV("expansivity is the mean", e.a[c] = -1 \/ Near(E * e.a[c], Mean(e.w[c], e.al, e.np), E + 1), <<c, e.a[c]>>)
          /\ \A c \in Cells : \A d \in {e.twin[c]} : d = 0 \/ ChkV("periodic moduli agree", e.g[c] = e.g[d] /\ e.b[c] = e.b[d], c)
(* creep, yield and cut-offs of one phase; unit U.  ve: viscosity found without plasticity and cut-offs *)
Creeping(c) == LET s == e.s[c] T == s.T IN
   /\ ChkV("viscosity of the stress", Near(2 * Mul(s.ve, s.E, U), T, 2 + s.E \div 900), <<c, s.ve, s.E, T>>)
   /\ ChkV("the mechanisms add up to the strain rate", Near(Rate(s.mech, T, Len(s.mech)), s.E, 90 + s.E \div 150), <<c, s.mech, T, Rate(s.mech, T, Len(s.mech)), s.E>>)
   /\ \A m \in 1..Len(s.part) : ChkV("strain rate of a mechanism", Near(Creep(s.mech[m], T), s.part[m], 90 + s.E \div 150), <<c, m, s.mech[m], T, s.part[m]>>)
Yielding(c) == LET s == e.s[c] Tv == s.T Y == YieldOf(s.C, s.P, s.fr, s.lim) g == 2 * s.gpl tol == 12 + s.Tt \div 200 + g \div 1500 + s.ve \div 500
                   T == Tv - Mul(s.ve, g, U) cut == s.eta = s.lo \/ s.eta = s.hi IN
   /\ ChkV("viscosity between the cut-offs", s.eta >= s.lo /\ s.eta <= s.hi, <<c, s.eta, s.lo, s.hi>>)
   /\ ChkV("dissipative viscosity between the cut-offs", s.etap >= s.lo /\ s.etap <= s.hi, <<c, s.etap, s.lo, s.hi>>)
   /\ IF s.pl = 0 \/ Tv <= Y - tol
      THEN /\ ChkV("no plastic flow below yield", s.gpl = 0 /\ s.over = 0 /\ s.pc = s.P /\ s.dpl = 0, <<c, Tv, Y, s>>)
           /\ ChkV("viscosity below yield", Near(s.eta, Cut(s.ve, s.lo, s.hi), 2), <<c, s>>)
      ELSE Tv < Y + tol \/
           ( /\ ChkV("plastic flow only forward", g >= 0 /\ s.over >= 0, <<c, Tv, Y, s>>)
             /\ ChkV("the stress does not exceed the yield stress", cut \/ s.Tt <= Max2(Min2(s.tmin, Tv), YieldOf(s.C, s.pc, s.fr, s.lim) + s.over) + tol, <<c, Tv, Y, T, s>>)
             /\ ChkV("the viscosity carries the yield stress", Near(s.eta, Cut((s.Tt * U) \div (2 * s.E), s.lo, s.hi), 3), <<c, s>>)
             /\ ChkV("plastic strain rate takes the rest", Near(T, s.Tt, tol), <<c, T, s>>)
             /\ (Y >= tol =>
                  /\ ChkV("stress on the yield surface", Near(T, YieldOf(s.C, s.pc, s.fr, s.lim) + s.over, 2 * tol), <<c, Tv, Y, T, s>>)
                  /\ ChkV("overstress", Near(s.over, Mul(s.evp, g, U), tol + s.evp \div 200), <<c, s>>)
                  /\ ChkV("dilation", Near(s.dpl, Mul(g, s.di[1], s.di[2]), 6), <<c, s>>)
                  /\ ChkV("pressure grows by dilation", Near(s.pc - s.P, Mul(s.dpl, s.K, U), 2 * tol + s.K \div 200), <<c, s>>))
             /\ (Y <= -tol - Mul(g, s.evp, U) => ChkV("no dilation in tension", s.K = 0 \/ s.dpl = 0 \/ s.pc # s.P, <<c, s>>)))
   /\ ChkV("stress follows the strain rate", \A k \in 1..3 : Near(s.t[k], 2 * Mul(s.eta, s.d[k], U), 4 + Abs(s.d[k]) \div 250), <<c, s>>)
   /\ ChkV("reaction progress", Near(s.X, s.Xe, 2) /\ s.X >= 0 /\ s.X <= U, <<c, s>>)
   /\ ChkV("the same at a vertex", s.etav = -1 \/ (Near(s.etav, s.eta, 2) /\ \A k \in 1..3 : Near(s.t[k], s.tv[k], 2)), <<c, s>>)
(* grain size d in balance with the power of dislocation creep: d * d * stress * its strain rate = k; diffusion creep is that of the grain size *)
Grain == /\ e.e = "Grain"
         /\ \A c \in Cells : LET s == e.s[c] T == s.T w == Mul(T, s.part[1], U) dd == Mul(s.d, s.d, U) f == Creep([b |-> s.bl, n |-> 1], T) IN
              /\ ChkV("viscosity of the stress", Near(2 * Mul(s.ve, s.E, U), T, 2 + s.E \div 900), <<c, s.ve, s.E, T>>)
              /\ ChkV("the mechanisms add up to the strain rate", Near(Rate(s.mech, T, Len(s.mech)) + s.lin, s.E, 90 + s.E \div 150), <<c, s>>)
              /\ \A m \in 1..Len(s.part) : ChkV("strain rate of a mechanism", Near(Creep(s.mech[m], T), s.part[m], 90 + s.E \div 150), <<c, m, s>>)
              /\ ChkV("grain size balances the power of dislocation creep", s.d > 0 /\ Near(Mul(dd, w, U), s.k, 8 + s.k \div 50 + (2 * s.k) \div s.d + w \div 500 + dd \div 200), <<c, s, dd, w>>)
              /\ ChkV("diffusion creep follows the grain size", Near(Mul(s.lin, IF s.m = 2 THEN dd ELSE s.d, U), f, 8 + f \div 60 + (s.m * s.lin) \div 500), <<c, s, dd, f>>)
Visc == /\ e.e = "Visc"
        /\ \A c \in Cells : Creeping(c) /\ Yielding(c)
(* triples of cells: phase 1, phase 2, mixture *)
Inv(v) == 1000000000 \div v
Mix == /\ e.e = "Mix"
       /\ \A c \in Cells : LET s == e.s[c] a == s.v[1] b == s.v[2] m == s.v[3] IN
            /\ \A k \in 1..Len(s.ends) : ChkV("end member", Near(s.v[k], s.ends[k], 2), <<c, s>>)
            /\ ChkV("mixture between its phases", Within(m, a, b, 2), <<c, s>>)
            /\ CASE e.avg = 0 -> ChkV("arithmetic mean", Near(E * m, s.w * a + (E - s.w) * b, 16), <<c, s>>)
                 [] e.avg = 1 -> ChkV("harmonic mean", Near(Inv(m), (s.w * Inv(a) + (E - s.w) * Inv(b)) \div E, Inv(m) \div 300 + 2), <<c, s>>)
                 [] e.avg = 2 -> ChkV("geometric mean", s.w # 4 \/ Near(m, Mul(a, b, m), m \div 300 + 2), <<c, s>>)
            /\ \A k \in 1..Len(s.lin) : ChkV("mean of a property", Near(E * s.lin[k][3], s.w * s.lin[k][1] + (E - s.w) * s.lin[k][2], 16 + Abs(s.lin[k][3]) \div 1000), <<c, k, s.lin[k]>>)
(* states of a run: fields between bounds *)
Bound == /\ e.e = "Bound" /\ \A k \in 1..Len(e.b) : LET r == e.b[k] IN \A c \in 1..Len(r.v) : ChkV(r.what, r.v[c] >= r.lo[c] - r.tol /\ r.v[c] <= r.hi[c] + r.tol, <<c, r.v[c], r.lo[c], r.hi[c]>>)
Init == i = 1
Next == i <= Len(Trace) /\ (SoftL \/ Smooth \/ Melting \/ Heating \/ Density \/ Moduli \/ Visc \/ Grain \/ Mix \/ Bound) = TRUE /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
