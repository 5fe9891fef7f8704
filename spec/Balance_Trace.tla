--------------------------- MODULE Balance_Trace ---------------------------
EXTENDS Balance, TraceLib
VARIABLE i
e == Trace[i]
(* r: recorded residual times -6*ix*iz (momentum), times 2*ix*iz (mass); stabilisation may be dropped where it would be negative *)
MomOK(f6, r, stab) == r = f6 - stab \/ (stab # 0 /\ r = f6)
StateOK(w, ru, rv, rp) ==
   /\ \A d \in UEq(e) : ChkV("x force balance", LET c == Cu(e, d[1], d[2]) IN IF e.free = 1 THEN MomOK(FX6(e, w, d[1], d[2]), ru[c], StabX(e, w, d[1], d[2])) ELSE ru[c] = FX6(e, w, d[1], d[2]) - StabX(e, w, d[1], d[2]), <<d, ru[Cu(e, d[1], d[2])], FX6(e, w, d[1], d[2])>>)
   /\ \A d \in VEq(e) : ChkV("z force balance", LET c == Cv(e, d[1], d[2]) IN IF e.free = 1 THEN MomOK(FZ6(e, w, d[1], d[2]), rv[c], StabZ(e, w, d[1], d[2])) ELSE rv[c] = FZ6(e, w, d[1], d[2]) - StabZ(e, w, d[1], d[2]), <<d, rv[Cv(e, d[1], d[2])], FZ6(e, w, d[1], d[2])>>)
   /\ \A d \in PEq(e) : ChkV("mass balance", rp[Cc(e, d[1], d[2])] = M2(e, w, d[1], d[2]), <<d, rp[Cc(e, d[1], d[2])], M2(e, w, d[1], d[2])>>)
(* the assembled rows applied to the difference of the two states give the difference of their residuals *)
Linear(mu, mv, mp, who) ==
   /\ \A d \in UEq(e) : ChkV(who \o " x rows", LET c == Cu(e, d[1], d[2]) IN mu[c] = e.ru2[c] - e.ru1[c], <<d, mu[Cu(e, d[1], d[2])], e.ru2[Cu(e, d[1], d[2])] - e.ru1[Cu(e, d[1], d[2])]>>)
   /\ \A d \in VEq(e) : ChkV(who \o " z rows", LET c == Cv(e, d[1], d[2]) IN mv[c] = e.rv2[c] - e.rv1[c], <<d, mv[Cv(e, d[1], d[2])], e.rv2[Cv(e, d[1], d[2])] - e.rv1[Cv(e, d[1], d[2])]>>)
   /\ \A d \in PEq(e) : ChkV(who \o " mass rows", LET c == Cc(e, d[1], d[2]) IN mp[c] = Div2(e, e.w2, d[1], d[2]) - Div2(e, e.w1, d[1], d[2]), <<d, mp[Cc(e, d[1], d[2])]>>)
Kin(w, k) ==
             /\ \A x \in 0..(e.Nx-2) : \A z \in 0..(e.Nz-2) : LET c == Cc(e, x, z) IN
                   /\ ChkV("divergence", k.div[c] = Div2(e, w, x, z), <<x, z>>)
                   /\ ChkV("normal strain rates", k.exx[c] = Exx6(e, w, x, z) /\ k.ezz[c] = Ezz6(e, w, x, z), <<x, z>>)
             /\ \A x \in 0..(e.Nx-1) : \A z \in 0..(e.Nz-1) : ChkV("shear strain rate", k.exz[Cg(e, x, z)] = Gxz(e, w, x, z), <<x, z>>)
(* root mean square of the residuals, over the rows the tolerance test looks at *)
SqX(r) == SeqSum([c \in 1..Len(r) |-> LET k == (c-1) % e.Nx l == (c-1) \div e.Nx IN IF <<k, l>> \in UEq(e) /\ l > 2 /\ l < e.Nz - 1 THEN r[c] * r[c] ELSE 0])
NX == Cardinality({d \in UEq(e) : d[2] > 2 /\ d[2] < e.Nz - 1})
SqZ(r) == SeqSum([c \in 1..Len(r) |-> LET k == (c-1) % (e.Nx+1) l == (c-1) \div (e.Nx+1) IN IF <<k, l>> \in VEq(e) /\ k > 2 /\ k < e.Nx - 1 THEN r[c] * r[c] ELSE 0])
NZ == Cardinality({d \in VEq(e) : d[1] > 2 /\ d[1] < e.Nx - 1})
SqP(r) == SeqSum([c \in 1..Len(r) |-> LET k == (c-1) % (e.Nx-1) l == (c-1) \div (e.Nx-1) IN IF <<k, l>> \in PEq(e) THEN r[c] * r[c] ELSE 0])
NP == Cardinality(PEq(e))
Norms == e.norm = 1 => ChkV("residual norms", Near(e.sq[1] * NX, SqX(e.ru2) * 100, NX) /\ Near(e.sq[2] * NZ, SqZ(e.rv2) * 100, NZ) /\ Near(e.sq[3] * NP, SqP(e.rp2) * 100, NP), <<e.sq, SqX(e.ru2), NX, SqZ(e.rv2), NZ, SqP(e.rp2), NP>>)
Case == /\ e.e = "Case"
        /\ Kin(e.w1, e.k1) /\ Kin(e.w2, e.k2)
        /\ StateOK(e.w1, e.ru1, e.rv1, e.rp1) /\ StateOK(e.w2, e.ru2, e.rv2, e.rp2)
        /\ Linear(e.mu, e.mv, e.mp, "matrix")
        /\ e.jac = 1 => Linear(e.ju, e.jv, e.jp, "Jacobian")
        /\ Norms
(* a solved state of a run: recorded total stresses (sx, sz, sh) in a common unit, weights in the same unit per cell size; ix : iz = 1/dx : 1/dz *)
Near0(x, tol) == Abs(x) <= tol
Solved ==
   /\ e.e = "Solved"
   /\ \A d \in UEq(e) : LET k == d[1] l == d[2] W == IF k = 0 THEN e.sx[Cc(e, e.Nx - 2, l - 1)] ELSE e.sx[Cc(e, k - 1, l - 1)]
        IN ChkV("forces balance in x", Near0((e.sx[Cc(e, k, l - 1)] - W) * e.ix + (e.sh[Cg(e, k, l)] - e.sh[Cg(e, k, l - 1)]) * e.iz + e.bx[Cu(e, k, l)], e.ftol), <<d, e.sx[Cc(e, k, l - 1)], W>>)
   /\ \A d \in VEq(e) : LET k == d[1] l == d[2]
        IN ChkV("forces balance in z", Near0((e.sz[Cc(e, k - 1, l)] - e.sz[Cc(e, k - 1, l - 1)]) * e.iz + (e.sh[Cg(e, k, l)] - e.sh[Cg(e, k - 1, l)]) * e.ix + e.bz[Cv(e, k, l)], e.ftol), <<d, e.sz[Cc(e, k - 1, l)], e.sz[Cc(e, k - 1, l - 1)], e.sh[Cg(e, k, l)], e.sh[Cg(e, k - 1, l)], e.bz[Cv(e, k, l)]>>)
   /\ \A d \in PEq(e) : LET k == d[1] l == d[2]
        IN ChkV("mass is conserved", Near0(Div2(e, e.w, k, l) + e.cp[Cc(e, k, l)], e.mtol), <<d, Div2(e, e.w, k, l), e.cp[Cc(e, k, l)]>>)
   /\ \A k \in 0..(e.Nx-2) : \A l \in 0..(e.Nz-2) : LET c == Cc(e, k, l) IN Wet(e, k, l) =>
        ChkV("stress of the strain rate", Near(e.dx[c], e.en[c] * Exx6(e, e.w, k, l) + e.ox[c], e.stol) /\ Near(e.dz[c], e.en[c] * Ezz6(e, e.w, k, l) + e.oz[c], e.stol), <<k, l, e.dx[c], e.en[c] * Exx6(e, e.w, k, l), e.ox[c], e.dz[c], e.en[c] * Ezz6(e, e.w, k, l), e.oz[c]>>)
   /\ \A k \in 0..(e.Nx-1) : \A l \in 0..(e.Nz-1) : LET c == Cg(e, k, l) IN e.tg[c] # 30 =>
        ChkV("shear stress of the strain rate", Near(e.dh[c], 3 * e.es[c] * Gxz(e, e.w, k, l) + e.oh[c], e.stol), <<k, l, e.dh[c], 3 * e.es[c] * Gxz(e, e.w, k, l), e.oh[c]>>)
Init == i = 1
Next == i <= Len(Trace) /\ (Case \/ Solved) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
