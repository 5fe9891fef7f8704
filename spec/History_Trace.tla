---------------------------- MODULE History_Trace ----------------------------
(* Recorded histories.  Common: Nx, Nz, U, per, tc (cell types), tg (vertex types), m: <<x, z, phase>> of every marker.   *)
(* Strain: inc (7 arrays per cell: pl pwl exp lin gbs el cst), b, a (7 arrays per marker, times K: before, after; the     *)
(* seventh is the total), K, pu (uncertainty of positions, in U).  Max: v, b, a.  Def: u, v, b, a, Q, tol.                *)
(* Asp: F per cell, r (times 1000).  Trans: mat, T, b, a (phase), db, da (dual).                                          *)
EXTENDS History, TraceLib
VARIABLE i
e == Trace[i]
S == [Nx |-> e.Nx, Nz |-> e.Nz, U |-> e.U, per |-> e.per]
N == Len(e.m)
Total == [c \in 1..Len(e.tc) |-> e.inc[1][c] + e.inc[2][c] + e.inc[3][c] + e.inc[4][c] + e.inc[5][c] + e.inc[6][c] + e.inc[7][c]]
Names == <<"plastic", "power-law", "exponential", "linear", "grain-boundary", "elastic", "total">>
Grown(s, k, j, inc) ==
   LET d == e.a[j][k] - e.b[j][k] IN
   IF e.m[k][3] = -1 THEN ChkV("an inactive marker does not strain", d = 0, <<k, j>>)
   ELSE /\ ChkV("accumulated strain never decreases", d >= 0 - e.tol, <<Names[j], k, d>>)
        /\ \A q \in {Strained(s, e.m[k][1], e.m[k][2], inc, e.tc)} : \A sp \in {IF e.pu = 0 THEN 0 ELSE RDiv(2 * e.K * SpreadBy(LAMBDA x, z : Inner(s, x, z), e.m[k][1], e.m[k][2], inc) * e.pu, e.U)} :
             IF e.pu # 0 /\ 16 * q[2] < e.U * e.U THEN TRUE                    \* hardly any rock around: the recorded position does not decide
             ELSE IF q[2] = 0 THEN ChkV("no strain without rock around", d = 0, <<Names[j], k, d>>)
             ELSE ChkV("strain grows by the rate of its mechanism times the step", Near(d, RDiv(e.K * q[1], q[2]), e.tol + sp * (IF q[2] < e.U * e.U THEN 16 ELSE 1)), <<Names[j], k, e.m[k], d, q>>)
Strain == (\A s \in {S} : \A t \in {Total} : \A j \in 1..7 : \A k \in 1..N : Grown(s, k, j, IF j = 7 THEN t ELSE e.inc[j])) = TRUE
Max == (\A k \in 1..N : e.m[k][3] = -1 \/ \A j \in 1..2 : ChkV("the largest value so far", e.a[j][k] = Peak(e.b[j][k], e.v[j][k]), <<j, k, e.b[j][k], e.v[j][k], e.a[j][k]>>)) = TRUE
Deformed(s, g, k) ==
   IF e.m[k][3] = -1 THEN ChkV("an inactive marker does not deform", e.a[k] = e.b[k], k)
   ELSE LET byc(f) == SpreadBy(LAMBDA x, z : Cells(s, x, z), e.m[k][1], e.m[k][2], f)  byv(f) == SpreadBy(LAMBDA x, z : Vertices(s, x, z), e.m[k][1], e.m[k][2], f) IN
        \A kc \in {Cells(s, e.m[k][1], e.m[k][2])} : \A kv \in {Vertices(s, e.m[k][1], e.m[k][2])} :
        \A L \in {<<RDiv(Mixed(s, kc, g[1], e.tc), e.U * e.U), RDiv(Mixed(s, kv, g[2], e.tg), e.U * e.U), RDiv(Mixed(s, kv, g[3], e.tg), e.U * e.U), RDiv(Mixed(s, kc, g[4], e.tc), e.U * e.U)>>} :
        \A sp \in {IF e.pu = 0 THEN 0 ELSE RDiv(2 * e.pu * (byc(g[1]) + byc(g[4]) + byv(g[2]) + byv(g[3])), e.U)} :
        \A F \in {Advance(e.b[k], L, e.Q)} : \A c \in 1..4 : ChkV("the deformation gradient follows the velocity gradient", Near(e.a[k][c], F[c], e.tol + sp * 4), <<k, c, e.b[k], e.a[k], F, L>>)
Def == (\A s \in {S} : \A g \in {<<Grid(s.Nx - 1, s.Nz - 1, LAMBDA k, l : UX(s, e.u, k, l)), Grid(s.Nx, s.Nz, LAMBDA k, l : UZ(s, e.w, k, l)), Grid(s.Nx, s.Nz, LAMBDA k, l : VX(s, e.q, k, l)), Grid(s.Nx - 1, s.Nz - 1, LAMBDA k, l : VZ(s, e.v, k, l))>>} :
          \A k \in 1..N : Deformed(s, g, k)) = TRUE
(* the ratio r of the principal stretches solves (r * r + 1) * det F = r * |F|^2 *)
Asp == (\A c \in 1..Len(e.F) : LET r == e.r[c]  D == Abs(Det(e.F[c]))  z == Size2(e.F[c]) IN
          ChkV("aspect ratio of the strain ellipse", r >= 999 /\ Near(RDiv(r * r, 1000) * D + 1000 * D, r * z, D * RDiv(2 * r, 1000) + z + D), <<c, e.F[c], r>>)) = TRUE
Trans == (\A k \in 1..N : \A ph \in {Become(e.mat, e.b[k], e.T[k])} :
            /\ ChkV("phase changes happen exactly when due", e.a[k] = ph, <<k, e.b[k], e.T[k], e.a[k]>>)
            /\ ChkV("the dual phase follows a phase change and nothing else", e.da[k] = (IF e.b[k] >= 0 /\ Due(e.mat[e.b[k] + 1][1], e.mat[e.b[k] + 1][2], e.T[k]) THEN ph ELSE e.db[k]), <<k, e.db[k], e.da[k]>>)) = TRUE
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ (IF e.e = "Strain" THEN Strain ELSE IF e.e = "Max" THEN Max ELSE IF e.e = "Def" THEN Def ELSE IF e.e = "Asp" THEN Asp ELSE Trans)
Spec == Init /\ [][Next]_i
=============================================================================
