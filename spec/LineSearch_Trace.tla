-------------------------- MODULE LineSearch_Trace --------------------------
EXTENDS LineSearch, TraceLib
VARIABLE i
e == Trace[i]
(* residuals given by the specification (integers) *)
Search == /\ e.e = "Search"
          /\ ChkV("trial lengths span the range", Len(e.T) = 6 /\ \A k \in 0..5 : \E j \in 1..6 : Near(e.T[j].a, Trials(e.newton, e.min)[k], 3), e.T)
          /\ Chk("whole correction by one length", e.spread = 0)
          /\ ChkV("result allowed", \E r \in Results(e.T, e.ref, e.grow, e.min) : Near(r[1], e.alpha, 1) /\ r[2] = e.stag, <<e.alpha, e.stag, Results(e.T, e.ref, e.grow, e.min)>>)
          /\ Chk("never grows", e.grow = 0 => Sound(e.T, e.ref, <<e.alpha, e.stag>>))
Plain == /\ e.e = "Plain"          \* line search off: the full correction, no stagnation reported
         /\ Chk("full correction", e.alpha = -1000000 /\ e.stag = e.stag0 /\ e.spread = 0 /\ e.T = <<>>)
(* a real correction in a run: residuals normalised to the reference (1000 = the total residual before) *)
Real == /\ e.e = "Real"
        /\ ChkV("accepted length is the best trial", e.stag = 0 => \E k \in DOMAIN e.T : Near(e.T[k].a, e.alpha, 1) /\ (\/ (Tot(e.T[k]) < Tot(e.ref) + 4000 /\ \A j \in DOMAIN e.T : Tot(e.T[k]) <= Tot(e.T[j]) + 4000)
                                                                                                   \/ e.T[k].x < e.ref.x + 2 \/ e.T[k].z < e.ref.z + 2), <<e.alpha, e.T>>)
        /\ Chk("stagnation leaves the solution alone", e.stag = 1 => e.alpha = 0)
        /\ ChkV("predicted residual is the one found next", (e.stag = 0 /\ e.predict = 1) => \E k \in DOMAIN e.T : Near(e.T[k].a, e.alpha, 1) /\ Near(e.T[k].x, e.nxt.x, 6) /\ Near(e.T[k].z, e.nxt.z, 6) /\ Near(e.T[k].p, e.nxt.p, 6), <<e.T, e.nxt>>)
Init == i = 1
Next == i <= Len(Trace) /\ (Search \/ Plain \/ Real) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
