------------------------- MODULE LinearSolver_Trace -------------------------
(* Recorded linear steps.  Rows in integer units, right-hand sides likewise, corrections as x2*2^2 + x1*2^-10 + x0*2^-22; a negative tolerance: not judged. *)
EXTENDS LinearSolver, TraceLib
VARIABLE i
e == Trace[i]
Solve == /\ e.e = "Solve"
         /\ ChkV("the correction is finite", e.fin = 1, e.opt)
         /\ ChkV("the equations have one row per unknown", Len(e.K) = Len(e.F) /\ Len(e.x0) = Len(e.F) /\ e.mom <= Len(e.F), e.opt)
         /\ e.tolm >= 0 => \A r \in 1..e.mom : ChkV("momentum equations are solved", RowSolved(e.K[r], e.F[r], e.x2, e.x1, e.x0, e.tolm), <<r, RowRes(e.K[r], e.F[r], e.x2, e.x1, e.x0), e.tolm, e.opt>>)
         /\ e.tolc >= 0 => \A r \in (e.mom + 1)..Len(e.F) : ChkV("mass equations are solved", RowSolved(e.K[r], e.F[r], e.x2, e.x1, e.x0, e.tolc), <<r - e.mom, RowRes(e.K[r], e.F[r], e.x2, e.x1, e.x0), e.tolc, e.opt>>)
         /\ ChkV("only unknowns are corrected", e.kept = 1, e.opt)
Stopped == e.e = "Stopped" /\ ChkV("equations with a unique solution are solved", e.must = 0, e.opt)
Detect == e.e = "Detect" /\ \A k \in 1..Len(e.flags) : ChkV("compressible cells", e.flags[k] = Compressible(e.tp[k], e.b[k]), <<k, e.flags[k], Compressible(e.tp[k], e.b[k])>>)
(* the same step by another solver: velocities agree, pressures up to a constant when the rock is closed and incompressible *)
Close(a, b, tol, s) == \A k \in DOMAIN a : Abs(a[k] - b[k] - s) <= tol
Agree == /\ e.e = "Agree"
         /\ ChkV("velocities do not depend on the solver", Close(e.ua, e.ub, e.tol, 0) /\ Close(e.va, e.vb, e.tol, 0), e.opt)
         /\ ChkV("pressures do not depend on the solver", Close(e.pa, e.pb, e.tol, IF e.closed = 1 THEN e.pa[1] - e.pb[1] ELSE 0), e.opt)
Init == i = 1
Next == i <= Len(Trace) /\ ((Solve \/ Stopped \/ Detect \/ Agree) = TRUE) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
