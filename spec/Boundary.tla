------------------------------ MODULE Boundary ------------------------------
(* Boundary conditions on the staggered grid.  A node is numbered k + l*n (from 0) on an n x m grid of nodes.           *)
(* Types: -1 free, 0 prescribed on the wall, 11 prescribed wall value for a node half a cell outside, 13 no gradient,   *)
(* -2 / -12 periodic, 30 air.  The state is the arrays of types and values and the velocity fields.                     *)
EXTENDS Util
NE == 0  NW == 1  SE == 2  SW == 3  INTERNAL == 4  N == 5  S == 6  W == 7  E == 8  FREESURF == 9
K(c, n) == c % n
L(c, n) == c \div n
Pos(c, n, m) == LET k == K(c, n) l == L(c, n) IN
  IF k = 0 THEN (IF l = m - 1 THEN NW ELSE IF l = 0 THEN SW ELSE W)
  ELSE IF k = n - 1 THEN (IF l = m - 1 THEN NE ELSE IF l = 0 THEN SE ELSE E)
  ELSE IF l = 0 THEN S ELSE IF l = m - 1 THEN N ELSE INTERNAL
Nodes(n, m) == 0..(n * m - 1)
(* a set-up may be accepted only if exactly the inner nodes are left free *)
ValidTypes(n, m, air, t) == \A c \in Nodes(n, m) : air[c+1] = 0 => ((t[c+1] = -1) <=> (Pos(c, n, m) = INTERNAL))
Stored(t, v) == IF t = 11 THEN 2 * v ELSE v
TypeSet(n, m, air, t) == [c \in 1..(n * m) |-> IF air[c] = 1 THEN 30 ELSE t[c]]
(* centres: n = ncx, m = ncz *)
PPos(c, n, m, air) == IF Pos(c, n, m) # INTERNAL THEN Pos(c, n, m) ELSE IF air[c+1] = 0 /\ air[c+n+1] = 1 THEN FREESURF ELSE INTERNAL
PType(c, n, m, air, has, tp) == IF air[c+1] = 1 THEN 30 ELSE IF has = 1 THEN tp[PPos(c, n, m, air) + 1] ELSE -1
(* extended centre grid: ghost cell of the cell (k,l) on each side *)
Ext(k, l, n) == (k + 1) + (l + 1) * (n + 2)
TVal(pos, k, l) == 10000 * pos + 100 * k + l

(* ---- stock conditions: coordinates and strain rate in given units, values in the product unit ---- *)
StockVx(style, pos, x, bkg, Lz) ==
  IF style = 0 THEN (IF pos \in {W, E} THEN <<0, -x * bkg>> ELSE IF pos = INTERNAL THEN <<-1, 0>> ELSE <<13, 0>>)
  ELSE (IF pos \in {S, SE, SW} THEN <<11, -bkg * Lz>> ELSE IF pos \in {N, NE, NW} THEN <<11, bkg * Lz>>
        ELSE IF pos = E THEN <<-12, 0>> ELSE IF pos = W THEN <<-2, 0>> ELSE <<-1, 0>>)
StockVz(style, pos, z, bkg) ==
  IF style = 0 THEN (IF pos \in {S, N} THEN <<0, z * bkg>> ELSE IF pos = INTERNAL THEN <<-1, 0>> ELSE <<13, 0>>)
  ELSE (IF pos \in {S, N} THEN <<0, 0>> ELSE IF pos = INTERNAL THEN <<-1, 0>> ELSE <<-12, 0>>)

(* ---- a velocity field honours the conditions (tol = rounding of the fixed-point values) ---- *)
HonourU(u, t, v, n, m, tol) == \A c \in Nodes(n, m) : LET k == K(c, n) l == L(c, n) y == t[c+1] IN
  /\ y = 0 => Near(u[c+1], v[c+1], tol)
  /\ (y = 13 /\ l = 0) => Near(u[c+1], u[c+1+n], tol)
  /\ (y = 13 /\ l = m - 1) => Near(u[c+1], u[c+1-n], tol)
  /\ (y = 11 /\ l = 0) => Near(u[c+1] + u[c+1+n], v[c+1], tol)
  /\ (y = 11 /\ l = m - 1) => Near(u[c+1] + u[c+1-n], v[c+1], tol)
  /\ (y = -12 /\ k = n - 1) => Near(u[c+1], u[l * n + 1], tol)
HonourV(w, t, v, n, m, tol) == \A c \in Nodes(n, m) : LET k == K(c, n) l == L(c, n) y == t[c+1] IN
  /\ y = 0 => Near(w[c+1], v[c+1], tol)
  /\ (y = 13 /\ k = 0) => Near(w[c+1], w[c+2], tol)
  /\ (y = 13 /\ k = n - 1) => Near(w[c+1], w[c], tol)
  /\ (y = 11 /\ k = 0) => Near(w[c+1] + w[c+2], v[c+1], tol)
  /\ (y = 11 /\ k = n - 1) => Near(w[c+1] + w[c], v[c+1], tol)
  /\ (y = -12 /\ k = 0) => Near(w[c+1], w[l * n + n - 1], tol)
  /\ (y = -12 /\ k = n - 1) => Near(w[c+1], w[l * n + 2], tol)
(* nodes that a ghost update may not touch *)
Ghost(y, onrow) == (y \in {11, 13} /\ onrow) \/ y = -12
UntouchedU(a, b, t, n, m) == \A c \in Nodes(n, m) : ~Ghost(t[c+1], L(c, n) \in {0, m - 1}) => a[c+1] = b[c+1]
UntouchedV(a, b, t, n, m) == \A c \in Nodes(n, m) : ~Ghost(t[c+1], K(c, n) \in {0, n - 1}) => a[c+1] = b[c+1]
(* the ghost update itself (used by the model) *)
ApplyU(u, t, v, n, m) == [c \in 1..(n*m) |-> LET k == K(c-1, n) l == L(c-1, n) IN
  IF t[c] = 13 /\ l = 0 THEN u[c+n] ELSE IF t[c] = 13 /\ l = m-1 THEN u[c-n] ELSE IF t[c] = 11 /\ l = 0 THEN v[c] - u[c+n] ELSE IF t[c] = 11 /\ l = m-1 THEN v[c] - u[c-n]
  ELSE IF t[c] = -12 /\ k = n-1 THEN u[l*n+1] ELSE u[c]]
=============================================================================
