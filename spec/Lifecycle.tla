----------------------------- MODULE Lifecycle -----------------------------
(* The life of a model run: start or restart, time steps, safe-mode step reductions, advection sub-steps,       *)
(* restart files ("breakpoints"), outputs, normal end, crash at any instant and restart from what is on disk.   *)
(* Time is an integer number of units; Tol is the rounding slack a recorded trace may have (0 in the model).    *)
EXTENDS Util

CONSTANTS TolUnit,      \* rounding slack per accumulated term
          CrashesMax    \* how many crashes a behaviour may contain (0: none)

VARIABLES cfg,     \* the run's settings (Nt, ws, writer, wm, restart, istep, del, safe, adv)
          pc,      \* where the run is
          step,    \* current step number
          time,    \* model time after this step's step size has been added
          dt,      \* step size in force
          applied, \* sum of advection sub-steps of the current step
          hist,    \* sequence of step sizes actually applied since the start of this history (ghost)
          disk,    \* restart files: set of [name, of, time, dt, ok]: name carries step `name`, holds the state of step `of`
          outs,    \* outputs written: set of [step, time]
          marks,   \* marker outputs written: set of steps
          crashes,
          done_bp  \* a restart file has been completed (ghost)
vars == <<cfg, pc, step, time, dt, applied, hist, disk, outs, marks, crashes, done_bp>>

Tol == TolUnit * (step + 3)
Single == -1                      \* the name of the one rotating file when del = -1
NameOf(s) == IF cfg.del = -1 THEN Single ELSE s
Due(s) == cfg.writer = 1 /\ s % cfg.ws = 0
Complete == {f \in disk : f.ok}
GoodName(f) == f.name \in {f.of, Single}

Init0(c) ==
  /\ cfg = c /\ pc = "start" /\ step = 0 /\ time = 0 /\ dt = 0 /\ applied = 0 /\ hist = <<>>
  /\ disk = {} /\ outs = {} /\ marks = {} /\ crashes = 0 /\ done_bp = FALSE

(* ---- start ---- *)
StartFresh ==
  /\ pc = "start" /\ cfg.restart = 0
  /\ step' = 0 /\ time' = 0 /\ pc' = IF cfg.writer = 1 THEN "init_out" ELSE "loop"
  /\ UNCHANGED <<cfg, dt, applied, hist, disk, outs, marks, crashes, done_bp>>
InitialOutput ==
  /\ pc = "init_out"
  /\ outs' = outs \cup {[step |-> 0, time |-> 0]}
  /\ pc' = IF cfg.wm = 1 THEN "init_mark" ELSE "loop"
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, disk, marks, crashes, done_bp>>
InitialMarkers ==
  /\ pc = "init_mark" /\ marks' = marks \cup {0} /\ pc' = "loop"
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, disk, outs, crashes, done_bp>>
StartFrom(f) ==     \* continue from restart file f
  /\ pc = "start" /\ cfg.restart = 1
  /\ f \in disk /\ f.name = NameOf(cfg.istep)
  /\ f.ok /\ f.of = cfg.istep       \* a torn or mislabelled file must never be what a restart reads
  /\ step' = cfg.istep /\ time' = f.time /\ dt' = f.dt /\ pc' = "loop"
  /\ UNCHANGED <<cfg, applied, hist, disk, outs, marks, crashes, done_bp>>

(* ---- one step ---- *)
SelectDt(d) ==
  /\ pc = "loop" /\ step < cfg.Nt /\ d > 0
  /\ step' = step + 1 /\ dt' = d /\ time' = time + d /\ applied' = 0 /\ pc' = "solve"
  /\ UNCHANGED <<cfg, hist, disk, outs, marks, crashes, done_bp>>
ReduceDt(d) ==      \* safe mode: the same step is tried again with a smaller step size; time follows
  /\ pc = "solve" /\ cfg.safe = 1 /\ d < dt /\ d > 0
  /\ time' = time - dt + d /\ dt' = d
  /\ UNCHANGED <<cfg, pc, step, applied, hist, disk, outs, marks, crashes, done_bp>>
GiveUp ==           \* safe mode: the run ends without accepting the step
  /\ pc = "solve" /\ cfg.safe = 1 /\ pc' = "aborted"
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, disk, outs, marks, crashes, done_bp>>
Sub(d) ==           \* one advection sub-step
  /\ pc \in {"solve", "advect"} /\ cfg.adv = 1 /\ d > 0
  /\ applied + d <= dt + Tol
  /\ applied' = applied + d /\ pc' = "advect"
  /\ UNCHANGED <<cfg, step, time, dt, hist, disk, outs, marks, crashes, done_bp>>
StepDone == IF cfg.adv = 1 THEN pc = "advect" /\ Near(applied, dt, Tol) ELSE pc = "solve"
EndSolve ==
  /\ StepDone /\ hist' = Append(hist, dt)
  /\ pc' = IF Due(step) THEN (IF cfg.del = 1 THEN "clean" ELSE "bp") ELSE "loop"
  /\ UNCHANGED <<cfg, step, time, dt, applied, disk, outs, marks, crashes, done_bp>>

(* ---- restart files ---- *)
MayGo(f, left) ==   \* f may disappear if a newer complete, correctly named file stays
  \E g \in left : g.ok /\ g.of > f.of /\ GoodName(g)
Clean(gone) ==      \* clean-up before the new restart file: only files older than the newest complete one may go
  /\ pc = "clean"
  /\ gone \subseteq disk /\ \A f \in gone : MayGo(f, disk \ gone)
  /\ disk' = disk \ gone /\ pc' = "bp"
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, outs, marks, crashes, done_bp>>
File(ok) == [name |-> NameOf(step), of |-> step, time |-> IF ok THEN time ELSE 0, dt |-> IF ok THEN dt ELSE 0, ok |-> ok]
OthersOnDisk == {f \in disk : f.name # NameOf(step)}
BpBegin(direct) ==  \* writing starts; direct: under its final name, allowed when that destroys no complete file
  /\ pc = "bp" /\ (direct => ~\E f \in disk : f.ok /\ f.name = NameOf(step))
  /\ disk' = IF direct THEN OthersOnDisk \cup {File(FALSE)} ELSE disk
  /\ pc' = "bp_open"
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, outs, marks, crashes, done_bp>>
WriteBp ==          \* the restart file of this step is complete
  /\ pc = "bp_open"
  /\ disk' = OthersOnDisk \cup {File(TRUE)}
  /\ pc' = "out" /\ done_bp' = TRUE
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, outs, marks, crashes>>
Output ==
  /\ pc = "out"
  /\ outs' = {o \in outs : o.step # step} \cup {[step |-> step, time |-> time]}
  /\ pc' = IF cfg.wm = 1 THEN "mark" ELSE "loop"
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, disk, marks, crashes, done_bp>>
Markers ==
  /\ pc = "mark" /\ marks' = marks \cup {step} /\ pc' = "loop"
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, disk, outs, crashes, done_bp>>
Finish ==
  /\ pc = "loop" /\ step >= cfg.Nt /\ pc' = "done"
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, disk, outs, marks, crashes, done_bp>>

(* ---- faults ---- *)
Crash ==
  /\ pc \notin {"crashed", "done", "aborted"} /\ crashes < CrashesMax
  /\ pc' = "crashed" /\ crashes' = crashes + 1
  /\ UNCHANGED <<cfg, step, time, dt, applied, hist, disk, outs, marks, done_bp>>
Resume(s) ==        \* the user restarts from a step for which a complete restart file exists
  /\ pc = "crashed" /\ \E f \in disk : f.ok /\ f.name = NameOf(s) /\ (cfg.del = -1 => f.of = s)
  /\ cfg' = [cfg EXCEPT !.restart = 1, !.istep = s] /\ pc' = "start"
  /\ hist' = SubSeq(hist, 1, Min2(s, Len(hist)))
  /\ outs' = {o \in outs : o.step <= s} /\ marks' = {m \in marks : m <= s}    \* later ones belong to the abandoned history
  /\ UNCHANGED <<step, time, dt, applied, disk, crashes, done_bp>>

(* ---- properties ---- *)
SelfLabelled == \A f \in disk : f.ok => GoodName(f)
AlwaysRestartable == done_bp => \E f \in Complete : GoodName(f)
NewestKept ==  \* after each output the restart file of that output step is there
  pc \in {"out", "mark"} => \E f \in Complete : f.of = step /\ f.name = NameOf(step)
CadenceOK ==
  /\ \A o \in outs : o.step % cfg.ws = 0
  /\ pc = "done" => \A s \in 1..cfg.Nt : (Due(s) /\ (cfg.restart = 1 => s > cfg.istep)) => \E o \in outs : o.step = s
  /\ (pc = "done" /\ cfg.writer = 1 /\ cfg.restart = 0) => \E o \in outs : o.step = 0
  /\ cfg.writer = 0 => (outs = {} /\ disk = {})
  /\ \A m \in marks : \E o \in outs : o.step = m
TimeIsSum ==
  pc \in {"out", "mark", "done"} => Near(time, SeqSum(hist), Tol)
OutputsTimed == \A o \in outs : o.step <= Len(hist) => Near(o.time, SumTo(hist, o.step), Tol)
RunComplete == pc = "done" => step = cfg.Nt
Monotone == [][(pc # "solve" /\ pc # "start" /\ pc' # "start") => time' >= time]_vars
=============================================================================
