---------------------------- MODULE Topography ----------------------------
(* The free surface: a chain of surface markers and one height per vertex column.                                         *)
(* Horizontal positions are integers from the west wall, D units per cell (D a multiple of 16); ncx cells.                *)
EXTENDS Util
Column(g, x) == Min2(Max2(CeilDiv(x, g.D) - 1, 0), g.ncx - 1)
(* D times the height of the broken line at x, in the column of x *)
LineD(g, h, x) == LET k == Column(g, x)  r == x - k * g.D IN (g.D - r) * h[k + 1] + r * h[k + 2]
(* ---- heights from the chain: weight D/2 at the middle of the column, 0 at its sides ---- *)
Weight(g, x) == g.D \div 2 - Abs(x - Column(g, x) * g.D - g.D \div 2)
Live(ch, k) == ch.ph[k] # -1
Of(g, ch, col) == {k \in DOMAIN ch.x : Live(ch, k) /\ Column(g, ch.x[k]) = col}
RECURSIVE Sum(_, _)
Sum(f, Q) == IF Q = {} THEN 0 ELSE LET k == CHOOSE k \in Q : TRUE IN f[k] + Sum(f, Q \ {k})
(* weighted mean of v over a column, times M, rounded down: 0 where no marker weighs *)
Mean(g, ch, v, col, M) ==
   LET Q == Of(g, ch, col)  W == Sum([k \in Q |-> Weight(g, ch.x[k])], Q)  z == IF Q = {} THEN 0 ELSE v[CHOOSE k \in Q : TRUE]
   IN IF W = 0 THEN 0 ELSE M * z + (M * Sum([k \in Q |-> Weight(g, ch.x[k]) * (v[k] - z)], Q)) \div W
(* twice M times the height of each vertex: mean of the two columns beside it; the walls follow their neighbour *)
Height2(g, m, i) == LET k == Min2(Max2(i, 1), g.ncx - 1) IN m[k] + m[k + 1]      \* m: means of the columns from 1
(* ---- completing the chain: two new markers in each half column that has fewer than four ---- *)
Half(g, x) == Min2(Max2(CeilDiv(2 * x, g.D) - 1, 0), 2 * g.ncx - 1)
Out(g, x) == x < 0 \/ x > g.D * g.ncx
Poor(g, ch, q) == Cardinality({k \in DOMAIN ch.x : ~Out(g, ch.x[k]) /\ Half(g, ch.x[k]) = q}) < 4
NewX(g, q) == {q * (g.D \div 2) + g.D \div 8, q * (g.D \div 2) + 3 * (g.D \div 8)}
Fresh(g, ch) == UNION {NewX(g, q) : q \in {q \in 0..2 * g.ncx - 1 : Poor(g, ch, q)}}
(* ---- surface processes, heights times a common power of 16 ---- *)
Lap(h, k) == h[k - 1] + h[k + 1] - 2 * h[k]
(* r: sixteenths of the diffusion number of a sub-step; s: deposit per sub-step below the base level; c: cut per sub-step in the valley *)
SubStep(h, r, s, base, valley, cut) ==
   [k \in DOMAIN h |-> IF k = 1 \/ k = Len(h) THEN h[k] ELSE h[k] + (r * Lap(h, k)) \div 16 + (IF h[k] < base THEN s ELSE 0) - (IF k \in valley THEN cut ELSE 0)]
RECURSIVE SubSteps(_, _, _, _, _, _, _)
SubSteps(h, n, r, s, base, valley, cut) == IF n = 0 THEN h ELSE SubSteps(SubStep(h, r, s, base, valley, cut), n - 1, r, s, base, valley, cut)
Fill(h, base, s) == [k \in DOMAIN h |-> IF h[k] < base THEN h[k] + s ELSE h[k]]
=============================================================================
