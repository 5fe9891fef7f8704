---------------------------- MODULE Lifecycle_Mut ----------------------------
(* Designs that must be rejected: they show that the invariants of Lifecycle bite.  Both were the code's behaviour   *)
(* before the repairs recorded in known_findings.txt.                                                                *)
EXTENDS Lifecycle_MC
(* safe mode shortens the step but not the time *)
BadReduce(d) == /\ pc = "solve" /\ cfg.safe = 1 /\ d < dt /\ dt' = d
                /\ UNCHANGED <<cfg, pc, step, time, applied, hist, disk, outs, marks, crashes, done_bp>>
NextTime == Next \/ \E d \in {1, 2} : BadReduce(d)
SpecTime == Init /\ [][NextTime]_vars
(* clean-up renames the old file to the name of the step about to be written *)
BadClean == /\ pc = "clean" /\ \E f \in OldFiles : disk' = (disk \ {f}) \cup {[f EXCEPT !.name = step]}
            /\ pc' = "bp" /\ UNCHANGED <<cfg, step, time, dt, applied, hist, outs, marks, crashes, done_bp>>
NextMv == Next \/ BadClean
SpecMv == Init /\ [][NextMv]_vars
(* the single rotating file is written in place *)
BadBegin == /\ pc = "bp" /\ disk' = OthersOnDisk \cup {File(FALSE)} /\ pc' = "bp_open"
            /\ UNCHANGED <<cfg, step, time, dt, applied, hist, outs, marks, crashes, done_bp>>
NextInPlace == Next \/ BadBegin
SpecInPlace == Init /\ [][NextInPlace]_vars
=============================================================================
