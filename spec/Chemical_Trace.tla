-------------------------- MODULE Chemical_Trace --------------------------
(* Recorded steps of chemical diffusion against the composition balance. *)
EXTENDS Chemical, TraceLib
VARIABLE i
e == Trace[i]
Tol(k, l) == e.C[Cell(e, k, l)] + Weight(e, k, l) + 1
Bounds(X0, X1, slack) ==
   \A p \in {Pool(e, X0)} : \A d \in Cells(e) : LET t == X1[Cell(e, d[1], d[2])] IN
      ChkV("composition stays within the old field and the held values", t <= Highest(p) + slack /\ t >= Lowest(p) - slack, <<d, t>>)
AllCells == (0..(e.ncx-1)) \X (0..(e.ncz-1))
Balance(extra) == \A d \in Cells(e) : ChkV("composition balance", Near(Imbalance(e, e.X0, e.X1, e.S, d[1], d[2]), 0, Tol(d[1], d[2]) + extra), <<d, Imbalance(e, e.X0, e.X1, e.S, d[1], d[2]), Tol(d[1], d[2]) + extra>>)
Step == /\ e.e = "Step"
        /\ Balance(0)
        /\ \A d \in AllCells \ Cells(e) : ChkV("air has no composition", e.X1[Cell(e, d[1], d[2])] = AirX, d)
        /\ ~Flowing(e) => Bounds(e.X0, e.X1, 1)
        /\ Closed(e) /\ Symmetric(e) => ChkV("composition is conserved", Near(Amount(e, e.X0), Amount(e, e.X1), SeqSum(e.C)), <<Amount(e, e.X0), Amount(e, e.X1)>>)
(* a step of a run: coefficients rounded to a common unit *)
Run == /\ e.e = "Run"
       /\ ChkV("rock and air are told apart as for heat", e.air = e.airT, 0)
       /\ Balance(3 * e.rng)
       /\ ~Flowing(e) => Bounds(e.X0, e.X1, 2)
       /\ Closed(e) => ChkV("composition is conserved in the run", Near(Amount(e, e.X0), Amount(e, e.X1), SeqSum(e.C) + 3 * e.ncx * e.ncz), <<Amount(e, e.X0), Amount(e, e.X1)>>)
       /\ \A d \in Cells(e) : ChkV("the step starts from the composition carried by the markers", Near(e.X0[Cell(e, d[1], d[2])], e.Xm[Cell(e, d[1], d[2])], 1), d)
       /\ ChkV("compositions of markers lie between zero and one", e.mlo >= 0 /\ e.mhi <= e.one, <<e.mlo, e.mhi>>)
       /\ e.same = 1 /\ ~Flowing(e) => ChkV("a uniform composition stays on the markers", e.mhi - e.mlo <= 2, <<e.mlo, e.mhi>>)
Init == i = 1
Next == i <= Len(Trace) /\ (Step \/ Run) /\ i' = i + 1
Spec == Init /\ [][Next]_i
===========================================================================
