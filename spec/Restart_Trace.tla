---------------------------- MODULE Restart_Trace ----------------------------
(* Two recorded runs of the same input, one uninterrupted and one resumed after step k.  Start: sw, k.  Field: one quantity q under the name it has in   *)
(* the code or the output file, step, a (uninterrupted) and b (resumed), tol.  Place: surface markers of the uninterrupted run.  End: step.              *)
EXTENDS Restart, TraceLib, Util
VARIABLES i, sw, seen, at
e == Trace[i]
Unseen == {"L0", "effvisc", "series"}     \* compared through the quantities they enter, or in the output files
ToSet(s) == {s[j] : j \in 1..Len(s)}
Init == i = 1 /\ sw = {} /\ seen = {} /\ at = 0
Start == sw' = ToSet(e.sw) /\ seen' = {} /\ at' = e.k /\ (ToSet(e.sw) \subseteq Switches) = TRUE
Field == /\ (ChkV("the resumed run continues as if it had not been stopped", Agree(e.a, e.b, e.tol), <<e.q, e.name, e.step>>)) = TRUE
         /\ (e.q = "file" \/ ChkV("a carried quantity", e.q \in State(sw), e.q)) = TRUE
         /\ seen' = seen \cup {e.q} /\ UNCHANGED <<sw, at>>
Place == (ChkV("the activity of a surface marker follows from its position", ActiveByPlace(e.x, e.ph, e.lo, e.hi), e.step)) = TRUE /\ UNCHANGED <<sw, seen, at>>
End == (ChkV("every carried quantity was compared", (State(sw) \ Unseen) \subseteq seen, (State(sw) \ Unseen) \ seen)) = TRUE
       /\ (ChkV("later steps in order", e.step = at + 1, <<at, e.step>>)) = TRUE /\ at' = e.step /\ seen' = {} /\ UNCHANGED sw
Next == i <= Len(Trace) /\ i' = i + 1 /\ (IF e.e = "Start" THEN Start ELSE IF e.e = "Field" THEN Field ELSE IF e.e = "Place" THEN Place ELSE End)
Spec == Init /\ [][Next]_<<i, sw, seen, at>>
=============================================================================
