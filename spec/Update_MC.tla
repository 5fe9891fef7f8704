----------------------------- MODULE Update_MC -----------------------------
(* Two markers and a 2 x 2-cell grid: every change of the grid values, with and without relaxation; rotations.           *)
EXTENDS Update
CONSTANTS Vals, Pos, Fr
VARIABLES s, old, base, inc, new, fr, st, stage
vars == <<s, old, base, inc, new, fr, st, stage>>
G0 == [Nx |-> 3, Nz |-> 3, U |-> 4, per |-> 0, m |-> <<>>]
Tags == <<-1, -1, -1, -1>>
Init == s = G0 /\ old = <<>> /\ base = <<>> /\ inc = <<>> /\ new = <<>> /\ fr = 0 /\ st = 1 /\ stage = 0
Cloud == stage = 0 /\ stage' = 1 /\ \E a, b \in Pos, p \in {-1, 0}, r \in {0, 1}, va, vb \in Vals :
            s' = [s EXCEPT !.m = <<<<a[1], a[2], 0>>, <<b[1], b[2], p>>>>, !.per = r] /\ old' = <<va, vb>> /\ UNCHANGED <<base, inc, new, fr, st>>
Fields == stage = 1 /\ stage' = 2 /\ \E b1, b2, d1, d2, d3 \in Vals : base' = <<b1, b2, b2, b1>> /\ inc' = <<d1, d2, d3, d1>> /\ UNCHANGED <<s, old, new, fr, st>>
Do == stage = 2 /\ stage' = 3 /\ \E f \in Fr : fr' = f /\ new' = Relaxed(s, 1, st, old, base, inc, <<f, f>>, 4, Tags) /\ UNCHANGED <<s, old, base, inc, st>>
Next == Cloud \/ Fields \/ Do
Spec == Init /\ [][Next]_vars
Pos0 == {<<0, 0>>, <<3, 6>>, <<8, 5>>}
Vals0 == {-40, 0, 80}
Act == {k \in 1..2 : s.m[k][3] # -1}
Untouched == stage = 3 => \A k \in 1..2 \ Act : new[k] = old[k]
NoRelax == stage = 3 /\ fr = 0 => new = Plain(s, 1, old, inc, Tags)
Even == stage = 3 /\ fr = 0 /\ Most({inc[c] : c \in 1..4}) = Least({inc[c] : c \in 1..4}) => \A k \in Act : new[k] = old[k] + inc[1]
Within == stage = 3 /\ fr = 0 => \A k \in Act : new[k] - old[k] >= Least({inc[c] : c \in 1..4}) /\ new[k] - old[k] <= Most({inc[c] : c \in 1..4})
(* markers that agree with the grid do not relax *)
Agree == stage = 3 /\ (\A k \in Act : old[k] = Seen(s, 1, base, Tags)[k]) => new = Plain(s, 1, old, inc, Tags)
(* a rotation keeps the trace exactly and the size up to the rounding; half a turn of the angle is undone by the opposite one *)
Rot == stage = 1 => \A a \in {-300, -100, 0, 250} : LET T == <<old[1] * 8, -old[1] * 8 + old[2], old[2] * 16>>  R == Turn(T, a, 1024)  B == Turn(R, -a, 1024) IN
        Near(R[1] + R[2], T[1] + T[2], 3) /\ \A c \in 1..3 : Near(B[c], T[c], 10)
=============================================================================
