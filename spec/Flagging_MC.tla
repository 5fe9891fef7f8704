---------------------------- MODULE Flagging_MC ----------------------------
(* All surfaces over a small box: heights at the vertices, in quarters of a cell. *)
EXTENDS Flagging
CONSTANTS NCX, NCZ, Heights
VARIABLES h
vars == <<h>>
(* twice the height at the centre of an extended column *)
H2(i) == IF i = 0 THEN 3 * h[1] - h[2] ELSE IF i = NCX + 1 THEN 3 * h[NCX + 1] - h[NCX] ELSE h[i] + h[i + 1]
G == [ncx |-> NCX, ncz |-> NCZ, air |-> [q \in (0..NCX + 1) \X (0..NCZ + 1) |-> 2 * (4 * q[2] - 2) > H2(q[1])], over |-> [q \in (0..NCX) \X (0..NCZ) |-> 4 * q[2] > h[q[1] + 1]]]
Init == h = <<>>
Next == Len(h) <= NCX /\ \E a \in Heights : h' = Append(h, a)
Spec == Init /\ [][Next]_vars
Ready == Len(h) = NCX + 1
Inner == (1..NCX) \X (1..NCZ)
Nb(q) == {<<q[1] + 1, q[2]>>, <<q[1] - 1, q[2]>>, <<q[1], q[2] + 1>>, <<q[1], q[2] - 1>>} \cap Inner
OnAll(P(_, _)) == Ready => \A g \in {G} : \A t \in {Tags(g)} : P(g, t)
(* material is below the surface, the plain air above it *)
Sides == OnAll(LAMBDA g, t : \A q \in Inner : (t[q] = Mat => ~g.air[q]) /\ (t[q] = Air => g.air[q]))
(* a cell below the surface is material unless it is a spike, as wide as one cell *)
Spike == OnAll(LAMBDA g, t : \A q \in Inner : (~g.air[q] /\ t[q] # Mat) => /\ g.air[<<q[1] - 1, q[2]>>] /\ g.air[<<q[1] + 1, q[2]>>])
(* no material cell touches plain air *)
Closed == OnAll(LAMBDA g, t : \A q \in Inner : t[q] = Mat => \A r \in Nb(q) : t[r] # Air)
(* every node around a material cell is active, no node away from material is (walls and ghosts follow their neighbour) *)
Active == OnAll(LAMBDA g, t : \A q \in Inner : t[q] = Mat =>
             /\ (q[1] > 1 => U(g, t, q[1] - 1, q[2])) /\ (q[1] < NCX => U(g, t, q[1], q[2])) /\ V(g, t, q[1], q[2] - 1) /\ V(g, t, q[1], q[2]))
Idle == OnAll(LAMBDA g, t : \A q \in Inner : (t[q] # Mat /\ \A r \in Nb(q) : t[r] # Mat) =>
             /\ (q[1] > 1 => ~U(g, t, q[1] - 1, q[2])) /\ (q[1] < NCX => ~U(g, t, q[1], q[2])))
(* an inner vertex in the middle of material is active *)
Vert == OnAll(LAMBDA g, t : \A i \in 0..NCX, j \in 1..NCZ - 1 : (\A q \in Cells(g, i, j) : t[q] = Mat) => S(g, t, i, j))
(* a column is material from the bottom up to one level, unless the surface rises by two cells or more within one *)
Gentle == \A k \in 1..NCX : Abs(h[k + 1] - h[k]) < 8
OneLevel == (Ready /\ Gentle) => OnAll(LAMBDA g, t : \A i \in 1..NCX, j \in 2..NCZ : t[i, j] = Mat => t[i, j - 1] = Mat)
(* nothing excluded when the surface is above the box *)
NoAir == OnAll(LAMBDA g, t : ((\A q \in DOMAIN g.air : ~g.air[q]) /\ (\A q \in DOMAIN g.over : ~g.over[q])) => (\A q \in DOMAIN t : t[q] = Mat) /\ \A i \in 0..NCX, j \in 0..NCZ : S(g, t, i, j))
(* every active vertex is next to material *)
Lone == OnAll(LAMBDA g, t : \A i \in 0..NCX, j \in 1..NCZ - 1 : S(g, t, i, j) => \E q \in Cells(g, i, j) : t[q] = Mat)
============================================================================
