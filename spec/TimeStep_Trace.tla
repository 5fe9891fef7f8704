--------------------------- MODULE TimeStep_Trace ---------------------------
EXTENDS TimeStep, TraceLib
VARIABLE i
e == Trace[i]
Case == /\ e.e = "Case"
        /\ ChkV("dt follows the rule", e.dt = Dt(e), <<e.dt, Dt(e)>>)
        /\ Chk("limits", Positive(e) /\ BelowMax(e) /\ AboveMin(e) /\ BelowCourant(e) /\ GrowthOK(e))
(* a step of a whole run: dt and v scaled so that dt*v stays small; lim = C*dmin in the same product units *)
Run == /\ e.e = "Run"
       /\ ChkV("Courant limit in the run", e.v > 0 => (e.dt * e.v <= e.lim + e.lim \div 2000 + 2 * (e.dt + e.v) \/ e.dt <= e.min + 2), <<e.dt, e.v, e.lim>>)
       /\ ChkV("maximum step in the run", e.dt <= e.max + 2 \/ e.dt <= e.min + 2, e.dt)
       /\ ChkV("minimum step in the run", e.dt >= e.min - 2, e.dt)
       /\ ChkV("growth in the run", (e.v > 0 /\ e.dt > e.min + 2) => e.dt * 4 <= (IF e.elastic = 1 THEN 5 ELSE 8) * e.dt0 + 40, <<e.dt, e.dt0>>)
Const == e.e = "Const" /\ ChkV("constant step", Near(e.dt, e.start, 1), <<e.dt, e.start>>)
(* the advection of one step: n sub-steps of sizes subs, step size dt, advective limit after the solve lim *)
Subs == /\ e.e = "Subs"
        /\ ChkV("sub-steps cover the step", Near(SeqSum(e.subs), e.dt, 2 * Len(e.subs) + 2), <<SeqSum(e.subs), e.dt>>)
        /\ \A k \in 1..Len(e.subs) : ChkV("sub-step within its limit", e.subs[k] * 19 <= e.lim * 20 + 60, <<e.subs[k], e.lim>>)
        /\ \A k \in 1..Len(e.subs) : ChkV("equal sub-steps", Near(e.subs[k], e.subs[1], 2), e.subs)
Init == i = 1
Next == i <= Len(Trace) /\ (Case \/ Run \/ Const \/ Subs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
