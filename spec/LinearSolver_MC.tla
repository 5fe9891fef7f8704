-------------------------- MODULE LinearSolver_MC ---------------------------
(* (1) Control of the iteration: whatever residuals the iterations produce, a returned correction has small mass residuals. *)
(* (2) The iteration itself on one velocity and one pressure, with an exact contraction by halves.                            *)
(* (3) Diagonal scaling: a solution of the scaled equations, scaled back, solves the original ones.                           *)
EXTENDS LinearSolver
CONSTANTS R, MaxIt, SignedMax
Res == [1..2 -> (0 - R)..R]
Size(r) == IF SignedMax THEN Signed(r) ELSE Mag(r)
Tol == 1
VARIABLES st, k, rp, m0, g0, e, part
vars == <<st, k, rp, m0, g0, e, part>>
Control == part = "control"
Init == \/ part = "control" /\ st = "run" /\ k = 0 /\ rp \in Res /\ m0 = Size(rp) /\ g0 = Mag(rp) /\ e = <<0, 0>>
        \/ part = "scalar"  /\ st = "run" /\ k = 0 /\ rp = <<0, 0>> /\ m0 = 0 /\ g0 = 0 /\ \E p \in {-64, -8, 0, 16, 64} : \E net \in {-4, 0, 4} : e = <<p, net>>
Small == SmallAbs(Abs(Size(rp)), Tol) \/ SmallRel(Size(rp), m0, 1, 4)
Iterate == Control /\ st = "run" /\ k + 1 < MaxIt /\ ~(k > 1 /\ Small) /\ rp' \in Res /\ k' = k + 1 /\ UNCHANGED <<st, m0, g0, e, part>>
Finish == Control /\ st = "run" /\ (k + 1 >= MaxIt \/ (k > 1 /\ Small)) /\ st' = (IF Small THEN "returned" ELSE "stopped") /\ UNCHANGED <<k, rp, m0, g0, e, part>>
(* scalar: a u - c p = f, c u = g; the pressure error halves at each iteration; with c = 0 (no freedom left) the mass residual stays *)
Halve == ~Control /\ st = "run" /\ k < 8 /\ (e[1] # 0 \/ e[2] # 0)
         /\ e' = (IF e[2] = 0 THEN <<e[1] \div 2 + (IF e[1] < 0 /\ e[1] % 2 # 0 THEN 1 ELSE 0), 0>> ELSE e) /\ k' = k + 1 /\ UNCHANGED <<st, rp, m0, g0, part>>
Done == ~Control /\ st = "run" /\ (k = 8 \/ (e[1] = 0 /\ e[2] = 0)) /\ st' = (IF e = <<0, 0>> THEN "returned" ELSE "stopped") /\ UNCHANGED <<k, rp, m0, g0, e, part>>
Next == Iterate \/ Finish \/ Halve \/ Done
Spec == Init /\ [][Next]_vars
ReturnedMeansSolved == Control /\ st = "returned" => Mag(rp) <= Tol \/ Mag(rp) * 4 <= g0
StopsOnlyWhenNotSolved == ~Control => (st = "returned" => e[2] = 0) /\ (st = "stopped" => e[2] # 0)
(* all small 2x2 systems with integer solutions *)
D == {1, 2, 3}
K2 == {0, 1, 2, -1}
Scaling == \A a \in K2, b \in K2, c \in K2, d \in K2, s \in D, t \in D, y \in {<<1, 0>>, <<-1, 2>>, <<3, 1>>} :
  LET sa == s * a * s sb == s * b * t sc == t * c * s sd == t * d * t      \* scaled rows
      F == <<s * 0 + (sa * y[1] + sb * y[2]), sc * y[1] + sd * y[2]>>          \* scaled right-hand side of scaled solution y
      x == <<s * y[1], t * y[2]>>
  IN s * (a * x[1] + b * x[2]) = F[1] /\ t * (c * x[1] + d * x[2]) = F[2]
ASSUME Scaling
=============================================================================
