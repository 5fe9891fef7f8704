----------------------------- MODULE Flagging -----------------------------
(* Which nodes of the staggered grid are material.  The surface is a broken line with one height per vertex column;       *)
(* air(i, j): the centre of extended cell <<i, j>> (0 and ncx+1, ncz+1 are ghosts) lies above the line of its column;     *)
(* over(i, j): vertex <<i, j>> (from 0) lies above its height.                                                            *)
(* Tags: -1 material, 31 the excluded cell next to material, 30 excluded.                                                 *)
EXTENDS Util
CONSTANTS Mat, Rim, Air
Col(g) == 0..g.ncx + 1
Row(g) == 0..g.ncz + 1
(* the first cell above the surface *)
First(g, i, j) == j \in 1..g.ncz /\ g.air[i, j] # g.air[i, j - 1]
(* beside a wall of material, or a lone spike of it: made part of the rim, so that no material cell touches plain air *)
Tag(g, i, j) ==
   IF i = 0 THEN (IF First(g, i, j) THEN Rim ELSE IF g.air[i, j] THEN Air ELSE Mat)
   ELSE LET k == IF i = g.ncx + 1 THEN g.ncx ELSE i        \* the east ghost column follows its neighbour
            rock(a) == ~First(g, a, j) /\ ~g.air[a, j]
        IN IF First(g, k, j) THEN Rim
           ELSE IF g.air[k, j] THEN (IF rock(k - 1) \/ rock(k + 1) THEN Rim ELSE Air)
           ELSE IF First(g, k - 1, j) /\ First(g, k + 1, j) THEN Rim ELSE Mat
Tags(g) == [q \in Col(g) \X Row(g) |-> Tag(g, q[1], q[2])]
(* velocity nodes: material iff one of the two cells they separate is; wall columns follow their inner neighbour *)
U(g, t, i, j) == LET k == IF i = 0 THEN 1 ELSE IF i = g.ncx THEN g.ncx - 1 ELSE i IN t[k, j] = Mat \/ t[k + 1, j] = Mat
V(g, t, i, j) == LET k == IF i = 0 THEN 1 ELSE IF i = g.ncx + 1 THEN g.ncx ELSE i IN t[k, j] = Mat \/ t[k, j + 1] = Mat
(* vertices: excluded when above the surface or beside or just below such a vertex, unless all cells around are material *)
Cells(g, i, j) == {q \in {<<a, b>> : a \in {i, i + 1}, b \in {j, j + 1}} : q[1] \in 1..g.ncx /\ q[2] \in 1..g.ncz}
Below(g, i, j) == g.over[i, j] \/ (j < g.ncz /\ g.over[i, j + 1])
West(g, i, j) == \E k \in 0..i : Below(g, k, j)
S(g, t, i, j) == LET out == West(g, i, j) \/ (i < g.ncx /\ West(g, i + 1, j))
                 IN ~out \/ (j \in 1..g.ncz - 1 /\ \A q \in Cells(g, i, j) : t[q] = Mat)
(* density: the cell below the rim weighs as much as the part of it that lies below the surface *)
Top(g, t, i, j) == t[i, j] = Mat /\ j < g.ncz /\ t[i, j + 1] = Rim
============================================================================
