---- MODULE Parallel_Merge ----
(* Rows of all shapes shared out over all numbers of threads (also more threads than rows) and put together are the serial rows. *)
EXTENDS Parallel
CONSTANTS N, T, Off
VARIABLE c
Rows(n) == [1..n -> {<<>>, <<"a">>, <<"b", "c">>}]
Init == c \in UNION {{[n |-> n, k |-> k, rows |-> r] : r \in Rows(n), k \in 1..T} : n \in 1..N}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Parts(d) == LET bl == Blocks(d.n, d.k) IN [t \in 1..d.k |-> Local(d.rows, bl[t])]
Shared == \A t \in 1..c.k : \A u \in 1..c.k : t # u => LET b == Blocks(c.n, c.k) IN {i \in b[t].lo..b[t].hi : i \in b[u].lo..b[u].hi} = {}
Covered == LET b == Blocks(c.n, c.k) IN UNION {b[t].lo..b[t].hi : t \in 1..c.k} = 1..c.n
Same == Merge(c.n, Blocks(c.n, c.k), Parts(c), LAMBDA p, t : Before(p, t) + (IF t > 1 THEN Off ELSE 0)) = Serial(c.n, c.rows)
====
