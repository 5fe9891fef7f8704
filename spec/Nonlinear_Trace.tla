--------------------------- MODULE Nonlinear_Trace ---------------------------
(* Recorded residual evaluations and corrections of whole runs must be behaviours of Nonlinear. *)
EXTENDS Nonlinear, TraceLib
VARIABLES i, dt, uv
tvars == <<vars, i, dt, uv>>
e == Trace[i]
Ev(n) == i <= Len(Trace) /\ e.e = n /\ i' = i + 1
Z == [x |-> 0, z |-> 0, p |-> 0]
NoCfg == [nit_max |-> 0, safe |-> 0, elastic |-> 0, maxstag |-> 1, newton |-> 0, p2n |-> 0, maxpic |-> 1, absm |-> 0, absd |-> 0, relm |-> 0, reld |-> 0, p2ntol |-> 0, div |-> 1]
TInit == i = 1 /\ cfg = NoCfg /\ pc = "aborted" /\ step = 0 /\ nit = 0 /\ nstag = 0 /\ newton = FALSE /\ res0 = Z /\ res = Z /\ start = "" /\ sol = "" /\ redo = 0 /\ ncorr = 0 /\ dt = 0 /\ uv = ""
TCfg == /\ Ev("Cfg") /\ Chk("previous run ended", pc \in {"aborted", "accepted"})
        /\ cfg' = [k \in (DOMAIN e) \ {"e"} |-> e[k]] /\ pc' = "begin"
        /\ step' = 0 /\ nit' = 0 /\ nstag' = 0 /\ newton' = FALSE /\ res0' = Z /\ res' = Z /\ start' = "" /\ sol' = "" /\ redo' = 0 /\ ncorr' = 0 /\ dt' = 0 /\ uv' = ""
TBegin == Ev("Begin") /\ Chk("previous step accepted", pc \in {"begin", "accepted"}) /\ Begin(e.fields) /\ dt' = e.dt /\ uv' = ""
R == [x |-> e.x, z |-> e.z, p |-> e.p]
TEval == /\ Ev("Residual")
         /\ ChkV("an iteration is allowed here", pc = "eval", pc)
         /\ ChkV("iteration number", e.nit = nit, <<e.nit, nit>>)
         /\ Chk("iteration limits", nit <= cfg.nit_max /\ nstag < cfg.maxstag)
         /\ Chk("retry starts from the state at the beginning of the step", nit = 0 => e.fields = start)
         /\ ChkV("reference residual", LET q == IF nit = 0 THEN R ELSE res0 IN Near(e.x0, q.x, 2) /\ Near(e.z0, q.z, 2) /\ Near(e.p0, q.p, 2), <<e.x0, e.z0, e.p0>>)
         /\ ChkV("step size of this attempt", Near(e.dt, dt, 2), <<e.dt, dt>>)
         /\ ChkV("Picard/Newton", IF cfg.p2n = 1 THEN (e.newton = 1 => (newton \/ HandOver(Maybe, nit, res, res0))) /\ ((newton \/ HandOver(Met, nit, res, res0)) => e.newton = 1)
                                  ELSE e.newton = cfg.newton, <<e.newton, nit>>)
         /\ Evaluate(R, e.newton = 1) /\ uv' = e.uv /\ UNCHANGED dt
TCorrect == /\ Ev("Correct") /\ Chk("correction after a residual", pc = "test")
            /\ Chk("no correction once converged", ~Converged(res, res0))
            /\ Chk("Jacobian used exactly with Newton", e.jac = (IF newton THEN 1 ELSE 0) \/ e.aniso = 1)
            /\ Correct("corrected") /\ UNCHANGED <<dt, uv>>
TAfter == /\ Ev("After") /\ After(e.stag = 1)
          /\ dt' = IF e.stag = 1 /\ cfg.elastic = 1 /\ cfg.safe = 1 THEN dt \div cfg.div ELSE dt
          /\ uv' = ""
TConv == /\ Ev("Converged") /\ ChkV("stopped without a reason", pc = "test" /\ MayConverge(res, res0), <<pc, res, res0>>)
         /\ Accept /\ UNCHANGED <<dt, uv>>
(* the velocity handed to advection is the one that was tested; redundant line after convergence *)
TAdv == /\ Ev("Advance") /\ ChkV("an unaccepted step is advanced", pc = "accepted", pc)
        /\ Chk("velocity changed after the convergence test", uv = "" \/ uv = e.uv)
        /\ UNCHANGED <<vars, dt, uv>>
TEnd == /\ Ev("End") /\ ChkV("run ended regularly", IF e.finished = 1 THEN pc = "accepted" ELSE pc = "aborted", <<pc, e.finished>>)
        /\ pc' = "aborted" /\ UNCHANGED <<cfg, step, nit, nstag, newton, res0, res, start, sol, redo, ncorr, dt, uv>>
TNext == TCfg \/ TBegin \/ TEval \/ TCorrect \/ TAfter \/ TConv \/ TAdv \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
TInv == BoundedRetries
=============================================================================
