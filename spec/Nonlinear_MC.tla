---------------------------- MODULE Nonlinear_MC ----------------------------
(* The solver as environment: every evaluation returns any of the listed levels, every correction may stagnate.     *)
(* Completed behaviours are printed and replayed into the real time loop (vf/checks/c06.py).                         *)
EXTENDS Nonlinear
CONSTANTS NSteps, Emit
VARIABLES hist, cid   \* residual levels and stagnation flags handed out so far; configuration number
mvars == <<vars, hist, cid>>
Levels == {[x |-> a, z |-> b, p |-> d] : a \in {0, 3000}, b \in {0, 3000, 9000}, d \in {0, 3000, 9000}} \cup
          {[x |-> 9000, z |-> 9000, p |-> 9000], [x |-> 9000, z |-> 9000, p |-> 0], [x |-> 9000, z |-> 0, p |-> 9000], [x |-> 5000, z |-> 5000, p |-> 5000], [x |-> 0, z |-> 0, p |-> 9000]}
Cfgs == << [nit_max |-> 2, safe |-> 0, elastic |-> 0, maxstag |-> 3, newton |-> 0, p2n |-> 0, maxpic |-> 10],
           [nit_max |-> 1, safe |-> 1, elastic |-> 1, maxstag |-> 2, newton |-> 0, p2n |-> 0, maxpic |-> 10],
           [nit_max |-> 2, safe |-> 1, elastic |-> 0, maxstag |-> 3, newton |-> 0, p2n |-> 0, maxpic |-> 10],
           [nit_max |-> 3, safe |-> 0, elastic |-> 1, maxstag |-> 3, newton |-> 1, p2n |-> 1, maxpic |-> 2],
           [nit_max |-> 2, safe |-> 1, elastic |-> 1, maxstag |-> 3, newton |-> 1, p2n |-> 1, maxpic |-> 10],
           [nit_max |-> 2, safe |-> 0, elastic |-> 0, maxstag |-> 3, newton |-> 1, p2n |-> 0, maxpic |-> 10],
           [nit_max |-> 0, safe |-> 0, elastic |-> 0, maxstag |-> 3, newton |-> 0, p2n |-> 0, maxpic |-> 10] >>
Tol(r) == [nit_max |-> r.nit_max, safe |-> r.safe, elastic |-> r.elastic, maxstag |-> r.maxstag, newton |-> r.newton, p2n |-> r.p2n, maxpic |-> r.maxpic,
           absm |-> 6500, absd |-> 5500, relm |-> 4500, reld |-> 3500, p2ntol |-> 2500]
Z == [x |-> 0, z |-> 0, p |-> 0]
Init == /\ \E k \in 1..Len(Cfgs) : cfg = Tol(Cfgs[k]) /\ cid = k
        /\ pc = "begin" /\ step = 0 /\ nit = 0 /\ nstag = 0 /\ newton = FALSE /\ res0 = Z /\ res = Z /\ start = 0 /\ sol = 0 /\ redo = 0 /\ ncorr = 0 /\ hist = <<>>
Next == \/ step < NSteps /\ Begin(sol) /\ UNCHANGED <<hist, cid>>
        \/ \E r \in Levels, nw \in BOOLEAN : Evaluate(r, nw) /\ hist' = Append(hist, <<r.x, r.z, r.p, 0>>) /\ UNCHANGED cid
        \/ Accept /\ UNCHANGED <<hist, cid>>
        \/ Correct(sol + 1) /\ UNCHANGED <<hist, cid>>
        \/ \E st \in BOOLEAN : After(st) /\ hist' = [hist EXCEPT ![Len(hist)][4] = IF st THEN 1 ELSE 0] /\ UNCHANGED cid
Spec == Init /\ [][Next]_mvars
Ended == pc = "aborted" \/ (pc = "accepted" /\ step = NSteps)
EmitHist == (Emit /\ Ended) => PrintT(<<"HIST", cid, hist>>)
Inv == BoundedRetries /\ NoAcceptUnconverged /\ RetryFromStart /\ PicardFirst
View == vars
=============================================================================
