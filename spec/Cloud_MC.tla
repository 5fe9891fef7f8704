------------------------------ MODULE Cloud_MC ------------------------------
(* Filling a small box site by site, in any order, for every surface and any displacement: every site below the surface is *)
(* filled exactly once, no cell is without its share, no marker leaves its part of the cell.                              *)
EXTENDS Cloud
CONSTANTS Heights, Jit
VARIABLES s, put
vars == <<s, put>>
J0 == {-100, 0, 100}
Box(nx, nz, px, fs, top) == [nx |-> nx, nz |-> nz, px |-> px, fs |-> fs, top |-> top, nph |-> 2, def |-> {0, 1}, fin |-> 0, x0 |-> 0, z0 |-> 0, noise |-> 1]
Init == /\ put = {}
        /\ \/ s \in {Box(4, 2, 2, 0, <<0, 0, 0>>), Box(3, 2, 3, 0, <<0, 0>>)}
           \/ \E t \in [1..3 -> Heights] : s = Box(4, 2, 2, 1, t)
Done == {<<SiteOf(m[1]), SiteOf(m[2])>> : m \in put}
(* sites are filled column by column in a run; here in any order of the next free one per column *)
Next == \E q \in Sites(s) : /\ Below(s, q) /\ q \notin Done /\ \A r \in Sites(s) : r[1] < q[1] \/ (r[1] = q[1] /\ r[2] < q[2]) => r \in Done \/ ~Below(s, r)
                            /\ \E a \in Jit, b \in Jit : put' = put \cup {<<Middle(q[1]) + a, Middle(q[2]) + b, Phase(s, Middle(q[1]) + a, Middle(q[2]) + b)>>}
                            /\ UNCHANGED s
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == Cardinality(put) = Cardinality(Done)
Inside == \A m \in put : m[1] > 0 /\ m[1] < 1000 * s.nx /\ m[2] > 0 /\ m[2] < 1000 * s.nz
Valid == \A m \in put : m[3] \in 0..s.nph - 1
NotAbove == \A q \in Done : Below(s, q)
Bound == Cardinality(put) <= s.nx * s.nz
Full == <>(Done = {q \in Sites(s) : Below(s, q)})
=============================================================================
