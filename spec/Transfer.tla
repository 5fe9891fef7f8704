------------------------------ MODULE Transfer ------------------------------
(* Averages of marker values on a set of nodes, in integers: U units per cell, positions from the south-west corner of  *)
(* the domain.  s: U, nx, nz (nodes), ox, oz (position of the first node), st (stencil 1 or 9), per (periodic),         *)
(* cyc (1: the nodes are cells, which are cyclic when periodic), m: sequence of <<x, z, phase, value>>.                 *)
EXTENDS Util
RDiv(a, b) == (2 * a + b) \div (2 * b)
Clamp(x, a, b) == Max2(a, Min2(b, x))
Once(F(_), x) == CHOOSE y \in {F(w) : w \in {x}} : TRUE
Active(s) == {k \in 1..Len(s.m) : s.m[k][3] # -1}
Nearest(x, o, U, n) == Clamp(CeilDiv(2 * (x - o) + U, 2 * U) - 1, 0, n - 1)
Reach(s) == IF s.st = 1 THEN s.U \div 2 ELSE 3 * (s.U \div 2)
(* hat function: largest at the node, zero at the edge of the stencil *)
Hat(s, d) == Max2(0, Reach(s) - Abs(d))
(* weight of a coordinate at node i along one axis: the nearest node and (wide stencil) the one on either side of it *)
AxW(s, x, o, n, per, i) ==
   LET j == Nearest(x, o, s.U, n)  at(k) == Hat(s, x - o - k * s.U)
       side(k) == IF s.st = 1 THEN 0 ELSE IF k >= 0 /\ k < n THEN (IF k = i THEN at(k) ELSE 0) ELSE IF per = 1 /\ (k + n) % n = i THEN at(k) ELSE 0
   IN (IF i = j THEN at(j) ELSE 0) + side(j - 1) + side(j + 1)
(* all contributions to node <<i, j>>: <<weight, value, phase>> for every marker *)
Contrib(s, i, j) == [k \in 1..Len(s.m) |-> IF s.m[k][3] = -1 THEN <<0, 0, -1>>
                       ELSE <<AxW(s, s.m[k][1], s.ox, s.nx, s.per * s.cyc, i) * AxW(s, s.m[k][2], s.oz, s.nz, 0, j), s.m[k][4], s.m[k][3]>>]
RECURSIVE SumA(_, _), SumW(_, _), SumP(_, _, _)
SumW(q, k) == IF k = 0 THEN 0 ELSE q[k][1] + SumW(q, k - 1)
SumA(q, k) == IF k = 0 THEN 0 ELSE q[k][1] * q[k][2] + SumA(q, k - 1)
SumP(q, p, k) == IF k = 0 THEN 0 ELSE (IF q[k][3] = p THEN q[k][1] ELSE 0) + SumP(q, p, k - 1)
(* average times K (rounded), or <<>> when no marker contributes *)
Average(q, K) == LET w == SumW(q, Len(q)) IN IF w = 0 THEN <<>> ELSE <<RDiv(K * SumA(q, Len(q)), w)>>
Lowest(q) == LET S == {q[k][2] : k \in {k \in 1..Len(q) : q[k][1] > 0}} IN CHOOSE x \in S : \A y \in S : x <= y
Highest(q) == LET S == {q[k][2] : k \in {k \in 1..Len(q) : q[k][1] > 0}} IN CHOOSE x \in S : \A y \in S : x >= y
Node(s, c) == <<(c - 1) % s.nx, (c - 1) \div s.nx>>
=============================================================================
