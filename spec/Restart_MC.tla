----------------------------- MODULE Restart_MC -----------------------------
EXTENDS Restart, TLC
CONSTANTS Lost, MaxSteps    \* Lost: quantities a broken writer or reader drops
VARIABLES sw, pc, ops, tainted, nstep, life
vars == <<sw, pc, ops, tainted, nstep, life>>
Init == sw \in SUBSET Switches /\ pc = "run" /\ ops = <<>> /\ tainted = {} /\ nstep = 0 /\ life = 0
(* a step of the uninterrupted or resumed run, one assignment at a time *)
Begin == pc = "run" /\ ops = <<>> /\ nstep < MaxSteps /\ ops' = Step /\ UNCHANGED <<sw, pc, tainted, nstep, life>>
Do == ops # <<>> /\ tainted' = Assign(sw, Head(ops), tainted) /\ ops' = Tail(ops) /\ nstep' = nstep + (IF Len(ops) = 1 THEN 1 ELSE 0) /\ UNCHANGED <<sw, pc, life>>
(* the process dies anywhere; it is resumed from the file of the last completed step *)
Crash == pc = "run" /\ life < 2 /\ nstep > 0 /\ pc' = "down" /\ ops' = <<>> /\ UNCHANGED <<sw, tainted, nstep, life>>
Resume == pc = "down" /\ pc' = "run" /\ life' = life + 1 /\ tainted' = AfterLoad(sw, Stored(sw) \ Lost) /\ UNCHANGED <<sw, ops, nstep>>
Next == Begin \/ Do \/ Crash \/ Resume
Spec == Init /\ [][Next]_vars
Continues == ops = <<>> /\ pc = "run" => tainted \cap Observable(sw) = {}
(* everything stored is needed: losing any one quantity can be seen by the user (checked once) *)
Needed == \A s \in {Switches} : \A q \in Stored(s) : Through(s, Step, AfterLoad(s, Stored(s) \ {q})) \cap Observable(s) # {} \/ AfterLoad(s, Stored(s) \ {q}) # {}
ASSUME Needed
=============================================================================
