-------------------------- MODULE Topography_MC --------------------------
(* A small chain moved arbitrarily, completed and projected; then surface processes on the heights. *)
EXTENDS Topography
CONSTANTS NCX, MoveBy, Zs, N0
VARIABLES ch, st, h, h1
vars == <<ch, st, h, h1>>
Mv == {-20, -3, 0, 5, 18}
g == [ncx |-> NCX, D |-> 16]
Chain(n) == [x |-> [k \in 1..n |-> k], z |-> [k \in 1..n |-> 0], ph |-> [k \in 1..n |-> 0]]
Init == /\ \E f \in [1..N0 -> Zs] : ch = [x |-> [k \in 1..N0 |-> ((2 * k - 1) * 16 * NCX) \div (2 * N0)], z |-> f, ph |-> [k \in 1..N0 |-> 0]]
        /\ st = 0 /\ h = <<>> /\ h1 = <<>>
Advect == /\ st = 0 /\ \E a \in MoveBy, b \in MoveBy : ch' = [ch EXCEPT !.x = [k \in DOMAIN @ |-> IF k % 2 = 0 THEN @[k] + a ELSE @[k] + b]]
          /\ st' = 1 /\ UNCHANGED <<h, h1>>
Means(c) == [i \in 1..NCX |-> Mean(g, c, c.z, i - 1, 1)]
Hts(c) == [i \in 1..NCX + 1 |-> Height2(g, Means(c), i - 1) \div 2]
Drop(c) == [c EXCEPT !.ph = [k \in DOMAIN @ |-> IF Out(g, c.x[k]) THEN -1 ELSE 0]]
RECURSIVE SeqOf(_)
SeqOf(Q) == IF Q = {} THEN <<>> ELSE LET a == CHOOSE a \in Q : \A b \in Q : a <= b IN <<a>> \o SeqOf(Q \ {a})
Complete == /\ st = 1
            /\ LET d == Drop(ch)  f == SeqOf(Fresh(g, d))  n == Len(ch.x) IN
               ch' = [x |-> d.x \o f, z |-> d.z \o [k \in DOMAIN f |-> LineD(g, Hts(d), f[k]) \div 16], ph |-> d.ph \o [k \in DOMAIN f |-> 0]]
            /\ h' = Hts(ch') /\ st' = 2 /\ UNCHANGED h1
Process == /\ st = 2 /\ \E r \in {0, 4, 6}, s \in {0, 16}, b \in {0, 48}, cut \in {0, 8} :
               /\ h1' = SubSteps([k \in DOMAIN h |-> 256 * h[k]], 2, r, s, 256 * b, {2}, cut) /\ st' = IF s = 0 /\ cut = 0 THEN 3 ELSE 4
           /\ UNCHANGED <<ch, h>>
Next == Advect \/ Complete \/ Process
Spec == Init /\ [][Next]_vars
Lo(S) == CHOOSE a \in S : \A b \in S : a <= b
Hi(S) == CHOOSE a \in S : \A b \in S : a >= b
Vals(s) == {s[k] : k \in DOMAIN s}
Covered == st >= 2 => \A q \in 0..2 * NCX - 1 : Cardinality({k \in DOMAIN ch.x : ch.ph[k] # -1 /\ Half(g, ch.x[k]) = q}) >= 2
InsideBox == st >= 2 => \A k \in DOMAIN ch.x : ch.ph[k] # -1 => ~Out(g, ch.x[k])
InRange == st = 2 => \A k \in DOMAIN h : h[k] >= Lo(Vals(ch.z) \cup {0}) - 1 /\ h[k] <= Hi(Vals(ch.z) \cup {0})
Level == (st >= 1 /\ Cardinality(Vals(ch.z)) = 1 /\ \A c \in 0..NCX - 1 : \E k \in Of(g, ch, c) : Weight(g, ch.x[k]) > 0) => \A k \in DOMAIN Hts(ch) : Hts(ch)[k] = ch.z[1]
(* diffusion alone never creates a new extreme; the walls never move *)
NoNew == st = 3 => /\ \A k \in DOMAIN h1 : h1[k] >= 256 * Lo(Vals(h)) - 2 /\ h1[k] <= 256 * Hi(Vals(h))
Walls == st >= 3 => h1[1] = 256 * h[1] /\ h1[Len(h)] = 256 * h[Len(h)]
===========================================================================
