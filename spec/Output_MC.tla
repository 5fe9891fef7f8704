------------------------------ MODULE Output_MC ------------------------------
(* A run that writes every Every steps, may die at any point (also in the middle of a file) and be resumed from its last restart file. *)
EXTENDS Output, TLC
CONSTANTS Nt, Every, Late     \* Late: a broken program that advances a quantity between two datasets of one file
Bad == 99
Core == {"Vertices/rho_s", "Centers/P", "Centers/T0", "Topo/z_grid", "Model/Params", "TimeSeries/Time_time"}      \* stand-ins for their kinds
VARIABLES sw, step, stamp, files, cur, series, bp, lives
vars == <<sw, step, stamp, files, cur, series, bp, lives>>
Want == Names("model", sw) \cap Core
Init == sw \in SUBSET Switches /\ step = 0 /\ stamp = 0 /\ files = [s \in {} |-> {}] /\ cur = "write" /\ series = <<0>> /\ bp = -1 /\ lives = 0
Write == /\ cur = "write"
         /\ LET have == IF step \in DOMAIN files THEN files[step] ELSE {}
                old == IF \E d \in have : d[2] # step THEN {} ELSE have
                todo == Want \ {d[1] : d \in old}
            IN IF todo = {} THEN cur' = "step" /\ bp' = step /\ UNCHANGED <<files, stamp>>
               ELSE /\ \E d \in todo : files' = (step :> (old \cup {<<d, stamp>>})) @@ files
                    /\ stamp' = (IF Late /\ Cardinality(todo) = 2 THEN stamp + 1 ELSE stamp) /\ UNCHANGED <<cur, bp>>
         /\ UNCHANGED <<sw, step, series, lives>>
Step == /\ cur = "step" /\ step < Nt /\ step' = step + 1 /\ stamp' = step + 1 /\ series' = Append(SubSeq(series, 1, step + 1), step + 1)
        /\ cur' = (IF (step + 1) % Every = 0 THEN "write" ELSE "step") /\ UNCHANGED <<sw, files, bp, lives>>
Die == lives < 1 /\ bp >= 0 /\ lives' = lives + 1 /\ step' = bp /\ stamp' = bp /\ series' = SubSeq(series, 1, bp + 1) /\ cur' = "step" /\ UNCHANGED <<sw, files, bp>>
(* a file cut short by a crash is started again from scratch *)
Next == Write \/ Step \/ Die
Spec == Init /\ [][Next]_vars
Complete(s) == {d[1] : d \in files[s]} = Want
(* a complete file shows one state: the one of the step in its name *)
OneState == \A s \in DOMAIN files : Complete(s) => \A d \in files[s] : d[2] = s
(* when the run is past a step that is due, its file is there and complete *)
Due == \A s \in 0..Nt : (s % Every = 0 /\ s <= step /\ (cur = "step" \/ s < step)) => s \in DOMAIN files /\ Complete(s)
Logged == \A k \in 1..Len(series) : series[k] = k - 1
(* the table *)
Mul(a, b) == [k \in 1..4 |-> a[k] + b[k]]
Inv(a) == [k \in 1..4 |-> -a[k]]
Base == <<Visc, Len_, Vel, Temp>>
Back(x) == Mul(Mul([k \in 1..4 |-> x[1] * Visc[k]], [k \in 1..4 |-> x[2] * Len_[k]]), Mul([k \in 1..4 |-> x[3] * Vel[k]], [k \in 1..4 |-> x[4] * Temp[k]]))
ASSUME \A k \in 1..Len(Units) : Back(Expo(Units[k])) = Units[k]
ASSUME \A k \in 1..4 : Expo(Base[k]) = [j \in 1..4 |-> IF j = k THEN 1 ELSE 0]
ASSUME \A t \in {"model", "marks"} : \A f, g \in Table(t) : f.name = g.name => f = g
ASSUME \A t \in {"model", "marks"} : \A f \in Table(t) : f.sw \in Switches \cup {"always"} /\ Size(f.k, <<5, 7>>, 9, 11) > 0 /\ f.name \notin Extra
ASSUME \A s, u \in SUBSET Switches : s \subseteq u => Names("model", s) \subseteq Names("model", u)
ASSUME Stress = Mul(Visc, Rate) /\ Vel = Mul(Len_, Rate) /\ Rate = Inv(Time) /\ Dens = Mul(Mul(Visc, Time), Inv(Mul(Len_, Len_)))
=============================================================================
