---------------------------- MODULE Lifecycle_MC ----------------------------
EXTENDS Lifecycle
Configs == {[Nt |-> n, ws |-> w, writer |-> wr, wm |-> m, restart |-> 0, istep |-> 0, del |-> dl, safe |-> sf, adv |-> a] :
             n \in {1, 3, 5}, w \in {1, 2}, wr \in {0, 1}, m \in {0, 1}, dl \in {-1, 0, 1}, sf \in {0, 1}, a \in {0, 1}}
Init == \E c \in Configs : Init0(c)
(* the code's clean-up rule: the file of two outputs ago *)
OldFiles == {f \in disk : f.name = step - 2 * cfg.ws /\ f.name > 1}
Next == \/ StartFresh \/ InitialOutput \/ InitialMarkers \/ \E f \in disk : StartFrom(f)
        \/ \E d \in {1, 2} : SelectDt(d) \/ ReduceDt(d) \/ Sub(d)
        \/ GiveUp \/ EndSolve \/ Clean(OldFiles) \/ BpBegin(FALSE) \/ (cfg.del # -1 /\ BpBegin(TRUE)) \/ WriteBp \/ Output \/ Markers \/ Finish
        \/ Crash \/ \E s \in 1..cfg.Nt : Resume(s)
Spec == Init /\ [][Next]_vars
=============================================================================
