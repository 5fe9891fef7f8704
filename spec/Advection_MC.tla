---------------------------- MODULE Advection_MC ----------------------------
(* Linear velocity fields u = a + b x + c z, v = d + e x - b z on a 3 x 3 grid: no divergence. *)
EXTENDS Advection
CONSTANTS A, B, C, U0, Steps
VARIABLES s, m, n, start
MA == {-24, 0, 16}
MB == {-16, 0, 8}
vars == <<s, m, n, start>>
X0 == {0, U0 \div 4, U0, (3 * U0) \div 2, 2 * U0}
Half(x) == x \div 2
Field(a, b, c, d, e, per, cons) ==
   [Nx |-> 3, Nz |-> 3, U |-> U0, per |-> per, cons |-> cons,
    u |-> [k \in 1..12 |-> LET i == (k-1) % 3 j == (k-1) \div 3 IN a + b * i + Half(c * (2 * j - 1))],
    v |-> [k \in 1..12 |-> LET i == (k-1) % 4 j == (k-1) \div 4 IN d + Half(e * (2 * i - 1)) - b * j],
    tu |-> [k \in 1..12 |-> -1], tv |-> [k \in 1..12 |-> -1]]
Init == s = <<>> /\ m = <<>> /\ n = -1 /\ start = <<>>
Pick == /\ n = -1
        /\ \E a, d \in A : \E b \in B : \E c, e \in C : \E per, cons \in {0, 1} : (per = 1 => b = 0 /\ e = 0) /\ s' = Field(a, b, c, d, e, per, cons)
        /\ \E x, z \in X0 : m' = [x |-> x, z |-> z, ph |-> 1, id |-> x + 100 * z] /\ start' = <<x, z>>
        /\ n' = 0
Step == /\ n >= 0 /\ n < Steps
        /\ m' = Move(s, m) /\ n' = n + 1 /\ UNCHANGED <<s, start>>
Next == Pick \/ Step
Spec == Init /\ [][Next]_vars
Live == n >= 0 /\ m.ph # -1
Inside == Live => ~Outside(s, m.x, m.z) /\ (s.per = 1 => m.x >= 0 /\ m.x <= LX(s))
Frozen == [][n >= 0 /\ m.ph = -1 => m' = m]_vars
Identity == n >= 0 => m.id = start[1] + 100 * start[2]
Uniform == \A k \in 1..12 : s.u[k] = s.u[1] /\ s.v[k] = s.v[1]
Mod(x, L) == x % L
(* in a uniform flow a marker that is still there moved by exactly n steps, up to the period *)
Straight == Live /\ Uniform => /\ m.z = start[2] + n * s.v[1]
                              /\ IF s.per = 1 THEN Mod(m.x - start[1] - n * s.u[1], LX(s)) = 0 ELSE m.x = start[1] + n * s.u[1]
(* linear fields are reproduced by the interpolation (and so by the corrected one) wherever the marker is *)
Exact == Live => LET vx == VelX(s, m.x, m.z) vz == VelZ(s, m.x, m.z)
                     gx == s.u[5] - s.u[4] gz == s.u[7] - s.u[4] hx == s.v[6] - s.v[5] hz == s.v[9] - s.v[5]
                 IN /\ Abs((vx - s.u[4]) * 2 * U0 - (gx * 2 * m.x + gz * (2 * m.z - U0))) <= 8 * U0
                    /\ Abs((vz - s.v[2]) * 2 * U0 - (hx * (2 * m.x - U0) + hz * 2 * m.z)) <= 8 * U0
Bounded == Live /\ s.cons = 0 => LET vx == VelX(s, m.x, m.z) IN (\E k \in 1..12 : s.u[k] <= vx + 1) /\ (\E k \in 1..12 : s.u[k] >= vx - 1)
=============================================================================
