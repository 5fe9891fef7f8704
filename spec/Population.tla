----------------------------- MODULE Population -----------------------------
(* The marker population: reseeding of thinly populated quarter cells and inflow through the sides.                     *)
(* U units per grid cell, positions from the south-west corner.  s: Nx, Nz, U, ax, az (lengths of a unit), thr, air     *)
(* (one flag per cell), top, ini (surface now and initially, per quarter-cell column), sed (set of sediment phases, {} *)
(* when there is no sedimentation), fz (positions are known to within fz), m (seq of <<x, z, phase>>), cap.             *)
EXTENDS Util
Clamp(x, a, b) == Max2(a, Min2(b, x))
Fine(d, U, n) == Clamp(CeilDiv(2 * d, U) - 1, 0, 2 * n - 3)
FX(s) == 0..(2 * s.Nx - 3)
FZ(s) == 0..(2 * s.Nz - 3)
Cells(s) == FX(s) \X FZ(s)
Airy(s, c) == s.air[(c[1] \div 2) + (c[2] \div 2) * (s.Nx - 1) + 1] = 1
Active(s) == {k \in 1..Len(s.m) : s.m[k][3] # -1}
Free(s) == {k \in 1..Len(s.m) : s.m[k][3] = -1}
(* the quarter cells a marker may be counted in: one, or several when it sits on a line and positions are not exact *)
Homes(s, m) == {Fine(m[1] + a, s.U, s.Nx) : a \in {-s.fz, s.fz}} \X {Fine(m[2] + a, s.U, s.Nz) : a \in {-s.fz, s.fz}}
Centre(s, c) == <<((2 * c[1] + 1) * s.U) \div 4, ((2 * c[2] + 1) * s.U) \div 4>>
(* H: home sets of the active markers, computed once *)
Surely(H, c) == Cardinality({k \in DOMAIN H : H[k] = {c}})
Perhaps(H, c) == Cardinality({k \in DOMAIN H : c \in H[k]})
MustFill(s, H, c) == ~Airy(s, c) /\ Perhaps(H, c) < s.thr
MayFill(s, H, c) == ~Airy(s, c) /\ Surely(H, c) < s.thr
Next2(c, d) == Abs(c[1] - d[1]) <= 2 /\ Abs(c[2] - d[2]) <= 2
Around(H, c) == {k \in DOMAIN H : \E d \in H[k] : Next2(c, d)}
SurelyAround(H, c) == {k \in DOMAIN H : \A d \in H[k] : Next2(c, d)}
Below(s, c) == Centre(s, c)[2] < s.top[c[1] + 1] - s.fz
Above(s, c) == Centre(s, c)[2] > s.top[c[1] + 1] + s.fz
D2(s, p, m) == (s.ax * (p[1] - m[1])) * (s.ax * (p[1] - m[1])) + (s.az * (p[2] - m[2])) * (s.az * (p[2] - m[2]))
(* markers a new marker in c may copy: the nearest in the 5 x 5 quarter cells around it; above the initial surface sediments *)
Nearest(s, c, K) == {k \in K : \A q \in K : D2(s, Centre(s, c), s.m[k]) <= D2(s, Centre(s, c), s.m[q]) + s.slack}
Sources(s, H, c) ==
   LET K == Around(H, c)  sd == {k \in K : s.m[k][3] \in s.sed}
   IN IF s.sed # {} /\ Centre(s, c)[2] > s.ini[c[1] + 1] - s.fz
      THEN IF sd # {} THEN Nearest(s, c, sd) \cup (IF Centre(s, c)[2] <= s.ini[c[1] + 1] + s.fz THEN Nearest(s, c, K) ELSE {}) ELSE K
      ELSE Nearest(s, c, K)
(* the slots that n new markers use: free ones first, then appended ones *)
SlotsOK(s, new, n) == LET L == Len(s.m) IN
   IF n <= Cardinality(Free(s)) THEN new \subseteq Free(s) ELSE Free(s) \subseteq new /\ new = Free(s) \cup ((L + 1)..(L + n - Cardinality(Free(s))))
Needed(s, n) == Len(s.m) + Max2(0, n - Cardinality(Free(s)))
(* ------- inflow through the sides ------- *)
LX(s) == (s.Nx - 1) * s.U
(* d: how much the limits are widened (0 when positions are exact) *)
Tagged(s, m, d) == m[3] # -1 /\ ((m[1] >= -d /\ 2 * m[1] <= s.U + 2 * d) \/ (2 * m[1] >= 2 * LX(s) - s.U - 2 * d /\ m[1] <= LX(s) + d))
FromWest(s, m, d) == m[3] # -1 /\ 2 * m[1] >= s.U - 2 * d /\ m[1] <= s.U + d
FromEast(s, m, d) == m[3] # -1 /\ m[1] >= LX(s) - s.U - d /\ 2 * m[1] <= 2 * LX(s) - s.U + 2 * d
(* the markers that entered since they were tagged; each gets one twin half a cell towards its wall *)
Entered(s, tag, d) == {k \in 1..Len(s.m) : tag[k] = 1 /\ (FromWest(s, s.m[k], d) \/ FromEast(s, s.m[k], d))}
Twin(s, k) == <<IF 2 * s.m[k][1] < LX(s) THEN s.m[k][1] - s.U \div 2 ELSE s.m[k][1] + s.U \div 2, s.m[k][2], s.m[k][3]>>
(* ------- interpolation of grid values to a new marker (when it does not copy them): nodes in the air have no weight ------- *)
W1(x, U, n) == LET xx == x + U \div 2  j == CeilDiv(xx, U) - 1 IN <<Clamp(j - 1, 0, n - 1), Clamp(j, 0, n - 1), xx - j * U>>     \* between cell centres
P1(x, U, n) == LET xx == x + U \div 2  j == CeilDiv(xx, U) - 1 IN <<(j - 1 + n) % n, j % n, xx - j * U>>                         \* the same, periodic
Weights(s, x, z) ==
   LET n == s.Nx - 1  a == IF s.per = 1 THEN P1(x, s.U, n) ELSE W1(x, s.U, n)  b == W1(z, s.U, s.Nz - 1)
       c(i, j) == i + j * n + 1  w(k, e) == IF s.air[k] = 1 THEN 0 ELSE e
   IN << <<c(a[1], b[1]), w(c(a[1], b[1]), (s.U - a[3]) * (s.U - b[3]))>>, <<c(a[2], b[1]), w(c(a[2], b[1]), a[3] * (s.U - b[3]))>>,
         <<c(a[1], b[2]), w(c(a[1], b[2]), (s.U - a[3]) * b[3])>>, <<c(a[2], b[2]), w(c(a[2], b[2]), a[3] * b[3])>> >>
=============================================================================
