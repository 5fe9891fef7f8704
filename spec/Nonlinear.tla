----------------------------- MODULE Nonlinear -----------------------------
(* The nonlinear iterations of a mechanical step: residual evaluation, convergence test, correction, stagnation,    *)
(* safe-mode retries with a smaller step, hand-over from Picard to Newton, acceptance or abort.                     *)
(* A residual r is represented by its level -1000*log10(r): larger level = smaller residual.                        *)
EXTENDS Util
CONSTANT Slack          \* levels closer than this to a tolerance may count as met or not (rounding of the recording)

VARIABLES cfg,   \* nit_max, safe, elastic, maxstag, newton, p2n, maxpic, absm, absd, relm, reld, p2ntol, div
          pc,    \* "begin" (step starts) / "eval" / "test" (residual known) / "after" (correction done) / "accepted" / "aborted"
          step, nit, nstag,
          newton, \* Newton linearisation in force
          res0,  \* levels at the first iteration of this attempt
          res,   \* levels of the last evaluation
          start, \* solution at the start of the step (identity)
          sol,   \* current solution (identity)
          redo,  \* number of reductions in this step
          ncorr  \* corrections applied in this attempt
vars == <<cfg, pc, step, nit, nstag, newton, res0, res, start, sol, redo, ncorr>>

Met(level, tol) == level > tol + Slack          \* certainly met
Maybe(level, tol) == level > tol - Slack        \* possibly met
ConvWith(P(_, _), r, r0) ==
  /\ P(r.x, cfg.absm) \/ P(r.x - r0.x, cfg.relm)
  /\ P(r.z, cfg.absm) \/ P(r.z - r0.z, cfg.relm)
  /\ P(r.p, cfg.absd) \/ P(r.p - r0.p, cfg.reld)
Converged(r, r0)   == ConvWith(Met, r, r0)
MayConverge(r, r0) == ConvWith(Maybe, r, r0)
AbsWith(P(_, _), r) == P(r.x, cfg.absm) /\ P(r.z, cfg.absm) /\ P(r.p, cfg.absd)
HandOver(P(_, _), n, r, r0) == n > 0 /\ (P(r.x - r0.x, cfg.p2ntol) \/ P(r.z - r0.z, cfg.p2ntol) \/ P(r.p - r0.p, cfg.p2ntol) \/ n >= cfg.maxpic)

Begin(s) ==     \* a new step starts from solution s
  /\ pc \in {"begin", "accepted"}
  /\ step' = step + 1 /\ nit' = 0 /\ nstag' = 0 /\ redo' = 0 /\ ncorr' = 0 /\ start' = s /\ sol' = s
  /\ newton' = IF cfg.p2n = 1 THEN FALSE ELSE cfg.newton = 1
  /\ pc' = "eval" /\ UNCHANGED <<cfg, res0, res>>
Evaluate(r, nw) ==
  /\ pc = "eval" /\ nit <= cfg.nit_max /\ nstag < cfg.maxstag
  /\ res' = r /\ res0' = IF nit = 0 THEN r ELSE res0
  /\ newton' = nw
  /\ IF cfg.p2n = 1
     THEN /\ nw => (newton \/ HandOver(Maybe, nit, res, res0))
          /\ (newton \/ HandOver(Met, nit, res, res0)) => nw
     ELSE nw = (cfg.newton = 1)
  /\ pc' = "test" /\ UNCHANGED <<cfg, step, nit, nstag, start, sol, redo, ncorr>>
Accept ==       \* tolerances met: no further correction
  /\ pc = "test" /\ MayConverge(res, res0)
  /\ pc' = IF cfg.safe = 1 /\ nit >= cfg.nit_max /\ ~AbsWith(Maybe, res) THEN "aborted" ELSE "accepted"
  /\ UNCHANGED <<cfg, step, nit, nstag, newton, res0, res, start, sol, redo, ncorr>>
Correct(s) ==
  /\ pc = "test" /\ ~Converged(res, res0)
  /\ sol' = s /\ ncorr' = ncorr + 1 /\ pc' = "after"
  /\ UNCHANGED <<cfg, step, nit, nstag, newton, res0, res, start, redo>>
Stop == IF cfg.safe = 1 /\ nit >= cfg.nit_max /\ ~AbsWith(Maybe, res) THEN "aborted" ELSE "accepted"
GoOn ==         \* next iteration, or the limit is reached
  /\ nit' = nit + 1
  /\ pc' = IF nit + 1 <= cfg.nit_max THEN "eval" ELSE Stop
  /\ UNCHANGED <<cfg, step, nstag, newton, res0, res, start, sol, redo, ncorr>>
After(stag) ==
  /\ pc = "after"
  /\ IF stag /\ cfg.safe <= 0
     THEN pc' = "accepted" /\ UNCHANGED <<cfg, step, nit, nstag, newton, res0, res, start, sol, redo, ncorr>>
     ELSE IF stag /\ cfg.elastic = 1 /\ cfg.safe = 1
     THEN /\ nstag' = nstag + 1 /\ nit' = 0 /\ sol' = start /\ redo' = redo + 1 /\ ncorr' = 0
          /\ pc' = IF nstag + 1 >= cfg.maxstag THEN "aborted" ELSE "eval"
          /\ UNCHANGED <<cfg, step, newton, res0, res, start>>
     ELSE GoOn

(* ---- properties ---- *)
BoundedRetries == redo <= cfg.maxstag /\ nit <= cfg.nit_max + 1
NoAcceptUnconverged ==  \* safe mode, elastic: what is accepted has met the tolerances
  (pc = "accepted" /\ step > 0 /\ cfg.safe = 1 /\ cfg.elastic = 1) => (MayConverge(res, res0) \/ AbsWith(Maybe, res))
RetryFromStart == (pc = "eval" /\ nit = 0) => sol = start
AcceptedAsTested ==     \* converged: the accepted solution is the one whose residual was tested
  [][(pc = "test" /\ pc' = "accepted") => sol' = sol]_vars
PicardFirst == (cfg.p2n = 1 /\ pc = "test" /\ nit = 0 /\ redo = 0) => ~newton
=============================================================================
