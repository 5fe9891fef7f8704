--------------------------- MODULE Thermal_Trace ---------------------------
(* Recorded thermal steps against the energy balance. *)
EXTENDS Thermal, TraceLib
VARIABLE i
e == Trace[i]
(* heat sources of a cell, in temperature units times r.C: Q scales the temperatures *)
Adiabatic(k, l) == LET c == Cell(e, k, l) IN
   CASE e.ad = 1 -> (e.T0[c] * e.alp[c] * e.gz * e.rho[c] * (e.vz[2 + k + l * (e.ncx + 2)] + e.vz[2 + k + (l + 1) * (e.ncx + 2)])) \div 2
     [] e.ad = 2 -> (e.T0[c] * e.alp[c] * (e.p[c] - e.p0[c])) \div e.dt
     [] OTHER -> 0
Source(k, l) == LET c == Cell(e, k, l) IN e.Q * (e.Qr[c] + (IF e.sh = 1 THEN e.W[c] ELSE 0)) + Adiabatic(k, l)
NoSource == \A d \in Cells(e) : Source(d[1], d[2]) = 0
Tol(k, l) == e.C[Cell(e, k, l)] + Weight(e, k, l) + 1
Bounds(T0, T1, slack) ==
   \A p \in {Pool(e, T0)} : \A d \in Cells(e) : LET t == T1[Cell(e, d[1], d[2])] IN
      ChkV("temperature stays within the old field and the held values", t <= Highest(p) + slack /\ t >= Lowest(p) - slack, <<d, t>>)
AllCells == (0..(e.ncx-1)) \X (0..(e.ncz-1))
Step == /\ e.e = "Step"
        /\ \A s \in {[c \in 1..(e.ncx*e.ncz) |-> LET k == (c-1) % e.ncx l == (c-1) \div e.ncx IN IF Ty(e, k, l) = Air THEN 0 ELSE Source(k, l)]} : \A d \in Cells(e) :
             ChkV("energy balance", Near(Imbalance(e, e.T0, e.T1, s, d[1], d[2]), 0, Tol(d[1], d[2])), <<d, Imbalance(e, e.T0, e.T1, s, d[1], d[2]), Tol(d[1], d[2])>>)
        /\ \A d \in AllCells \ Cells(e) : ChkV("air temperature", e.T1[Cell(e, d[1], d[2])] = e.tair, d)
        /\ NoSource /\ ~Flowing(e) => Bounds(e.T0, e.T1, 1)
        /\ NoSource /\ Closed(e) /\ Symmetric(e) => ChkV("heat is conserved", Near(Heat(e, e.T0), Heat(e, e.T1), SeqSum(e.C)), <<Heat(e, e.T0), Heat(e, e.T1)>>)
        /\ \A d \in Cells(e) : ChkV("several steps in one call", Near(e.Tn[Cell(e, d[1], d[2])], e.Ts[Cell(e, d[1], d[2])], 1), <<d, e.Tn[Cell(e, d[1], d[2])], e.Ts[Cell(e, d[1], d[2])]>>)
(* a step of a run: coefficients rounded to a common unit, temperatures counted from the coldest, sources S in the product unit *)
Run == /\ e.e = "Run"
       /\ \A d \in Cells(e) : ChkV("energy balance in the run", Near(Imbalance(e, e.T0, e.T1, e.S, d[1], d[2]), 0, Tol(d[1], d[2]) + 3 * e.rng), <<d, Imbalance(e, e.T0, e.T1, e.S, d[1], d[2]), Tol(d[1], d[2]) + 3 * e.rng>>)
       /\ e.src = 0 /\ ~Flowing(e) => Bounds(e.T0, e.T1, 2)
       /\ e.src = 0 /\ Closed(e) => ChkV("heat is conserved in the run", Near(Heat(e, e.T0), Heat(e, e.T1), SeqSum(e.C) + 3 * e.ncx * e.ncz), <<Heat(e, e.T0), Heat(e, e.T1)>>)
       /\ ChkV("the step starts from the temperature carried by the markers", \A d \in Cells(e) : Near(e.T0[Cell(e, d[1], d[2])], e.Tm[Cell(e, d[1], d[2])], 1), 0)
Init == i = 1
Next == i <= Len(Trace) /\ (Step \/ Run) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
