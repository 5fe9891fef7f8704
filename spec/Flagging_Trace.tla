--------------------------- MODULE Flagging_Trace ---------------------------
(* Flag: hg (heights at the vertices above the bottom, U units per cell height), fs, the tags after flagging and, with dens = 1, *)
(* the densities after the correction (64 before).  Used: the same plus what a step did at the nodes.                             *)
EXTENDS Flagging, TraceLib
VARIABLE i
e == Trace[i]
H2(k) == IF k = 0 THEN 3 * e.hg[1] - e.hg[2] ELSE IF k = e.ncx + 1 THEN 3 * e.hg[e.ncx + 1] - e.hg[e.ncx] ELSE e.hg[k] + e.hg[k + 1]
G == [ncx |-> e.ncx, ncz |-> e.ncz,
      air |-> [q \in (0..e.ncx + 1) \X (0..e.ncz + 1) |-> e.fs = 1 /\ e.U * (2 * q[2] - 1) > H2(q[1])],
      over |-> [q \in (0..e.ncx) \X (0..e.ncz) |-> e.fs = 1 /\ e.U * q[2] > e.hg[q[1] + 1]]]
(* a surface through the middle of a cell or through a vertex, up to rounding *)
Tie == e.U > 64 /\ e.fs = 1 /\ (\/ \E k \in 0..e.ncx + 1, j \in 0..e.ncz + 1 : Near(e.U * (2 * j - 1), H2(k), 8)
                                \/ \E k \in 0..e.ncx, j \in 0..e.ncz : Near(e.U * j, e.hg[k + 1], 4))
P(k, j) == (k - 1) + (j - 1) * e.ncx + 1                    \* cells, k and j from 1
X(k, j) == k + j * (e.ncx + 2) + 1
Uc(k, j) == k + j * (e.ncx + 1) + 1
Vc(k, j) == k + j * (e.ncx + 2) + 1
Sc(k, j) == k + j * (e.ncx + 1) + 1
Inner(g) == (1..g.ncx) \X (1..g.ncz)
PTag(y) == CASE y = Mat -> -1 [] y = Rim -> 31 [] y = Air -> 30
Flags(g, t) ==
   /\ \A q \in Inner(g) : LET c == P(q[1], q[2]) IN
         /\ ChkV("cell", e.tp[c] = PTag(t[q]), <<q, e.tp[c], t[q]>>)
         /\ ChkV("cell temperature condition", e.tt[c] = IF t[q] = Mat THEN -1 ELSE 30, <<q, e.tt[c]>>)
         /\ ChkV("cell used for interpolation", e.tx[X(q[1], q[2])] = IF t[q] = Air THEN 30 ELSE -1, <<q, e.tx[X(q[1], q[2])]>>)
         /\ ChkV("pressure at the interface is zero", e.pv[c] = 0, q)
         /\ ChkV("temperature of excluded cells, and of no other, is reset", e.T[c] = IF t[q] = Mat THEN e.T0[c] ELSE e.Ta, <<q, e.T[c]>>)
   /\ \A k \in 0..g.ncx, j \in 0..g.ncz + 1 : ChkV("horizontal velocity node", e.tu[Uc(k, j)] = IF U(g, t, k, j) THEN -1 ELSE 30, <<k, j, e.tu[Uc(k, j)]>>)
   /\ \A k \in 0..g.ncx + 1, j \in 0..g.ncz : ChkV("vertical velocity node", e.tv[Vc(k, j)] = IF V(g, t, k, j) THEN -1 ELSE 30, <<k, j, e.tv[Vc(k, j)]>>)
   /\ \A k \in 0..g.ncx, j \in 0..g.ncz : ChkV("vertex", e.tg[Sc(k, j)] = IF S(g, t, k, j) THEN -1 ELSE 30, <<k, j, e.tg[Sc(k, j)]>>)
(* exact densities: 64 before, weights in 1/64; 4 is the density of air; U = 4 *)
H4(g, k) == IF k = 0 THEN 2 * H2(1) ELSE IF k = g.ncx THEN 2 * H2(g.ncx) ELSE H2(k) + H2(k + 1)
Wc(g, t, k, j) == IF t[k, j] # Mat THEN 0 ELSE IF Top(g, t, k, j) THEN 8 * Abs(H2(k) - 8 * j + 4) ELSE 64
Ws(g, t, k, j) == IF ~S(g, t, k, j) THEN 0 ELSE IF j < g.ncz /\ ~S(g, t, k, j + 1) THEN 4 * Abs(H4(g, k) - 16 * j) ELSE 64
Dens(g, t) ==
   /\ \A q \in Inner(g) : LET c == P(q[1], q[2])  w == Wc(g, t, q[1], q[2]) IN
         /\ ChkV("weight of a cell", e.wn[c] = w, <<q, e.wn[c], w>>) /\ ChkV("density of a cell", e.rn[c] = IF t[q] # Mat THEN 4 ELSE w, <<q, e.rn[c], w>>)
         /\ t[q] # Mat \/ ChkV("old density of a cell", e.rn0[c] = w, <<q, e.rn0[c], w>>)
   /\ \A k \in 0..g.ncx, j \in 0..g.ncz : LET c == Sc(k, j)  w == Ws(g, t, k, j) IN
         /\ ChkV("weight of a vertex", e.ws[c] = w, <<k, j, e.ws[c], w>>) /\ ChkV("density of a vertex", e.rs[c] = IF S(g, t, k, j) THEN w ELSE 4, <<k, j, e.rs[c], w>>)
Flag == \A g \in {G} : \A t \in {Tags(g)} : Flags(g, t) /\ (e.dens = 0 \/ Dens(g, t))
(* in a step: excluded nodes have no equation and no viscosity, the others do.  en, es, rn, rs: sign of viscosity and density; nu, nv, np: numbered *)
Fixed(y) == y \in {0, 11, 13, -12, 12}
Used == \A g \in {G} : \A t \in {Tags(g)} :
   /\ \A q \in Inner(g) : LET c == P(q[1], q[2]) IN
         /\ ChkV("cell", e.tp[c] = PTag(t[q]) \/ (t[q] = Mat /\ e.tp[c] = 0), <<q, e.tp[c], t[q]>>)
         /\ ChkV("equation of continuity", (e.np[c] >= 0) = (t[q] = Mat /\ e.tp[c] = -1), <<q, e.np[c]>>)
         /\ ChkV("viscosity of a cell", e.en[c] = IF t[q] = Mat THEN 1 ELSE 0, <<q, e.en[c]>>)
         /\ t[q] # Mat \/ ChkV("density of a cell", e.rn[c] = 1, <<q, e.rn[c]>>)
         /\ ChkV("weight of a cell", e.wn[c] = (IF t[q] # Mat THEN 0 ELSE IF Top(g, t, q[1], q[2]) THEN 2 ELSE 1) \/ e.fs = 0, <<q, e.wn[c]>>)
   /\ \A k \in 0..g.ncx, j \in 0..g.ncz : LET c == Sc(k, j) IN
         /\ ChkV("vertex", (e.tg[c] = 30) = ~S(g, t, k, j), <<k, j, e.tg[c]>>)
         /\ ChkV("viscosity of a vertex", e.es[c] = IF S(g, t, k, j) THEN 1 ELSE 0, <<k, j, e.es[c]>>)
         /\ ~S(g, t, k, j) \/ ChkV("density of a vertex", e.rs[c] = 1, <<k, j, e.rs[c]>>)
   /\ \A k \in 0..g.ncx, j \in 0..g.ncz + 1 : LET c == Uc(k, j) IN
         /\ ChkV("horizontal velocity node", (e.tu[c] = 30) = ~U(g, t, k, j), <<k, j, e.tu[c]>>)
         /\ ChkV("equation of horizontal balance", (e.nu[c] >= 0) = (U(g, t, k, j) /\ e.tu[c] \notin {0, 11, 13}), <<k, j, e.nu[c], e.tu[c]>>)
   /\ \A k \in 0..g.ncx + 1, j \in 0..g.ncz : LET c == Vc(k, j) IN
         /\ ChkV("vertical velocity node", (e.tv[c] = 30) = ~V(g, t, k, j), <<k, j, e.tv[c]>>)
         /\ ChkV("equation of vertical balance", (e.nv[c] >= 0) = (V(g, t, k, j) /\ e.tv[c] \notin {0, 11, 13, -12}), <<k, j, e.nv[c], e.tv[c]>>)
Init == i = 1
Next == i <= Len(Trace) /\ (Tie \/ (IF e.e = "Flag" THEN Flag ELSE Used)) = TRUE /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
