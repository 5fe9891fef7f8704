--------------------------- MODULE LineSearch_MC ---------------------------
EXTENDS LineSearch
Pt(R) == [x : R, z : R, p : R]
Lens == <<0, -500000, -1000000>>
VARIABLES T, ref, res
Land(n, R) == {[k \in 1..n |-> [a |-> Lens[k], x |-> f[k].x, z |-> f[k].z, p |-> f[k].p]] : f \in [1..n -> Pt(R)]}
Init == /\ \/ ref \in Pt(0..2) /\ T \in Land(2, 0..2)
           \/ ref \in Pt(0..1) /\ T \in Land(3, 0..1)
        /\ res \in Results(T, ref, 0, 0)
Next == UNCHANGED <<T, ref, res>>
Spec == Init /\ [][Next]_<<T, ref, res>>
Inv == Sound(T, ref, res) /\ Best(T, ref, res)
NeverEmpty == Results(T, ref, 0, 0) # {} /\ Results(T, ref, 1, 5) # {}
(* a strictly better point is never refused *)
NoFalseStagnation == (\E k \in 2..Len(T) : Tot(T[k]) < Tot(ref) /\ Tot(T[k]) < Tot(T[1])) => res[2] = 0
=============================================================================
