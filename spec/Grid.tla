-------------------------------- MODULE Grid --------------------------------
(* Geometry of the staggered grid, motion of the box, transfers between cell centres and vertices.  Lengths are integers. *)
(* A direction: n vertices, lo and hi; nothing is divided: positions carry the factor 2 * (n - 1).                         *)
EXTENDS Util
Air(t) == t \in {30, 31}
F(n) == 2 * (n - 1)
Vertex(n, lo, hi, k) == F(n) * lo + 2 * k * (hi - lo)                      \* k = 0..n-1
Centre(n, lo, hi, k) == F(n) * lo + (2 * k + 1) * (hi - lo)                \* k = 0..n-2
Ghosted(n, lo, hi, k) == F(n) * lo + (2 * k - 1) * (hi - lo)               \* k = 0..n: centres with one beyond each wall
Extended(n, lo, hi, k) == F(n) * lo + 2 * (k - 1) * (hi - lo)              \* k = 0..n+1: vertices with one beyond each wall
(* motion of a wall: the mean velocity of its prescribed nodes times the step; v: sequence of <<type, velocity>> *)
Prescribed(v) == {k \in 1..Len(v) : v[k][1] = 0}
RECURSIVE Sum(_, _)
Sum(v, k) == IF k = 0 THEN 0 ELSE (IF v[k][1] = 0 THEN v[k][2] ELSE 0) + Sum(v, k - 1)
Moved(old, new, v, dt) == LET n == Cardinality(Prescribed(v)) IN IF n = 0 THEN new = old ELSE n * (new - old) = dt * Sum(v, Len(v))
(* cell values seen beyond the walls: the outermost cell continues, or the other side's when periodic.  s: nx, nz (vertices), per *)
Wrap(s, k) == LET c == s.nx - 1 IN IF k < 0 THEN (IF s.per = 1 THEN c - 1 ELSE 0) ELSE IF k > c - 1 THEN (IF s.per = 1 THEN 0 ELSE c - 1) ELSE k
Row(s, l) == Max2(0, Min2(s.nz - 2, l))
At(s, k, l) == Wrap(s, k) + Row(s, l) * (s.nx - 1) + 1
(* vertex (k, l): a quarter of each of the four cells around it; air counts as zero; vertices in the air are zero; carries 4 *)
Val(s, f, t, k, l) == IF Air(t[At(s, k, l)]) THEN 0 ELSE f[At(s, k, l)]
ToVertex(s, f, t, tg, k, l) == IF tg[k + l * s.nx + 1] = 30 THEN 0 ELSE Val(s, f, t, k - 1, l - 1) + Val(s, f, t, k, l - 1) + Val(s, f, t, k - 1, l) + Val(s, f, t, k, l)
(* cell (k, l): a quarter of each of its corners; carries 4; cells in the air keep what they had *)
ToCell(s, g, k, l) == LET c == k + l * s.nx + 1 IN g[c] + g[c + 1] + g[c + s.nx] + g[c + s.nx + 1]
(* cells with a frame around them; the air cell above the rock takes the rock's value *)
Inner(s, f, t, k, l) == LET c == k + l * (s.nx - 1) + 1 IN IF t[c] = 31 THEN f[c - (s.nx - 1)] ELSE IF t[c] = 30 THEN 0 ELSE f[c]
Framed(s, f, t, k, l) == Inner(s, f, t, Wrap(s, k), Row(s, l))                \* k = -1..nx-1, l = -1..nz-1
(* pressure at the centre of cell (k, l): the weight of everything above it, half of its own weight included; carries 2 *)
RECURSIVE Load(_, _, _, _, _)
Load(s, t, w, k, l) == LET c == k + l * (s.nx - 1) + 1 IN IF l > s.nz - 2 \/ Air(t[c]) THEN 0 ELSE w[c] + Load(s, t, w, k, l + 1)
Weight(s, t, w, k, l) == LET c == k + l * (s.nx - 1) + 1 IN IF Air(t[c]) THEN 0 ELSE w[c] + 2 * (IF l = s.nz - 2 THEN 0 ELSE Load(s, t, w, k, l + 1))
=============================================================================
