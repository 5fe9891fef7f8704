----------------------------- MODULE Grid_Trace -----------------------------
(* Recorded grids.  Coords: n = <<nx, nz>>, b = <<xlo, xhi, zlo, zhi>>, b0 (initial box), arrays times F(n), q spacings (times F), tol, keep (the box is the one known).   *)
(* Move: b (before), a (after), w: west, east, south, north walls, each a sequence of <<type, velocity>>, dt, tol, top (0, or <<z>>: the top follows the surface).        *)
(* Vertex, Cell, Frame, Load: nx, nz, per, t, tg, f, r (times 4, 4, 1, 2).                                                                                                *)
EXTENDS Grid, TraceLib
VARIABLES i, box
vars == <<i, box>>
e == Trace[i]
S == [nx |-> e.nx, nz |-> e.nz, per |-> e.per]
All(name, a, n, P(_)) == Len(a) = n /\ \A k \in 1..n : ChkV(name, Near(a[k], P(k - 1), e.tol), <<k, a[k], P(k - 1)>>)
Axis(n, lo, hi, lo0, hi0, g, g0, c, v, x) ==
   /\ All("vertices", g, n, LAMBDA k : Vertex(n, lo, hi, k)) /\ All("initial vertices", g0, n, LAMBDA k : Vertex(n, lo0, hi0, k)) /\ All("centres", c, n - 1, LAMBDA k : Centre(n, lo, hi, k))
   /\ All("staggered nodes", v, n + 1, LAMBDA k : Ghosted(n, lo, hi, k)) /\ (x = <<>> \/ All("extended vertices", x, n + 2, LAMBDA k : Extended(n, lo, hi, k)))
Coords == (/\ ChkV("the box only changes when its walls move", e.keep = 0 \/ box = <<>> \/ \A k \in 1..4 : Near(box[k], e.b[k], 1), <<box, e.b>>)
           /\ Axis(e.n[1], e.b[1], e.b[2], e.b0[1], e.b0[2], e.xg, e.xg0, e.xc, e.xv, e.xe)
           /\ Axis(e.n[2], e.b[3], e.b[4], e.b0[3], e.b0[4], e.zg, e.zg0, e.zc, e.zv, e.ze)
           /\ \A k \in 1..4 : LET d == IF k % 2 = 1 THEN e.b[2] - e.b[1] ELSE e.b[4] - e.b[3] IN ChkV("spacing", Near(e.q[k], 2 * d, e.tol), <<k, e.q[k], 2 * d>>)) = TRUE
          /\ box' = e.b
Went(k) == LET n == Cardinality(Prescribed(e.w[k])) IN
   IF k = 4 /\ e.top # 0 THEN ChkV("the top of the box follows the surface", Near(e.a[4], e.top, e.tol), <<e.a[4], e.top>>)
   ELSE IF n = 0 THEN ChkV("a wall without prescribed velocity stays", Near(e.a[k], e.b[k], 1), <<k, e.b[k], e.a[k]>>)
   ELSE ChkV("a wall moves with its mean velocity", Near(n * (e.a[k] - e.b[k]), e.dt * Sum(e.w[k], Len(e.w[k])), n * e.tol), <<k, n, e.a[k] - e.b[k], e.dt * Sum(e.w[k], Len(e.w[k]))>>)
Move == (ChkV("the box only changes when its walls move", e.keep = 0 \/ box = <<>> \/ \A k \in 1..4 : Near(box[k], e.b[k], 1), <<box, e.b>>) /\ \A k \in 1..4 : Went(k)) = TRUE /\ box' = e.a
Verts == (\A s \in {S} : \A l \in 0..s.nz-1 : \A k \in 0..s.nx-1 : LET c == k + l * s.nx + 1 IN
            ChkV("a vertex takes a quarter of each cell around", Near(e.r[c], ToVertex(s, e.f, e.t, e.tg, k, l), e.tol), <<k, l, e.r[c], ToVertex(s, e.f, e.t, e.tg, k, l)>>)) = TRUE /\ UNCHANGED box
Cells == (\A s \in {S} : \A l \in 0..s.nz-2 : \A k \in 0..s.nx-2 : LET c == k + l * (s.nx - 1) + 1  q == IF Air(e.t[c]) THEN 4 * e.old[c] ELSE ToCell(s, e.f, k, l) IN
            ChkV("a cell takes a quarter of each of its corners", Near(e.r[c], q, e.tol), <<k, l, e.r[c], q>>)) = TRUE /\ UNCHANGED box
Frames == (\A s \in {S} : \A l \in -1..s.nz-1 : \A k \in -1..s.nx-1 : LET c == k + 2 + (l + 1) * (s.nx + 1)  q == Framed(s, e.f, e.t, k, l) IN
            ChkV("the frame continues the field", Near(e.r[c], q, e.tol), <<k, l, e.r[c], q>>)) = TRUE /\ UNCHANGED box
Loads == (\A s \in {S} : \A l \in 0..s.nz-2 : \A k \in 0..s.nx-2 : LET c == k + l * (s.nx - 1) + 1 IN
            \A q \in {IF Air(e.t[c]) THEN 0 ELSE Weight(s, e.t, e.f, k, l) + 2 * e.bkg} : ChkV("the pressure is the weight above", Near(e.r[c], q, e.tol), <<k, l, e.r[c], q>>)) = TRUE /\ UNCHANGED box
Init == i = 1 /\ box = <<>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ CASE e.e = "Coords" -> Coords [] e.e = "Move" -> Move [] e.e = "Vertex" -> Verts [] e.e = "Cell" -> Cells [] e.e = "Frame" -> Frames [] e.e = "Load" -> Loads
Spec == Init /\ [][Next]_vars
=============================================================================
