--------------------------- MODULE Lifecycle_Trace ---------------------------
(* Accepts exactly the recorded runs (harness/sim.c) that are behaviours of Lifecycle.  A trace may contain several *)
(* runs in one directory (crash, restart); every line is one step.                                                  *)
EXTENDS Lifecycle, TraceLib
VARIABLE i
tvars == <<vars, i>>
e == Trace[i]
Ev(n) == i <= Len(Trace) /\ e.e = n /\ i' = i + 1

CfgOf(r) == [Nt |-> r.Nt, ws |-> r.ws, writer |-> r.writer, wm |-> r.wm, restart |-> r.restart, istep |-> r.istep,
             del |-> r.del, safe |-> r.safe, adv |-> r.adv]
FilesOf(r) == {[name |-> r[k].name, of |-> r[k].of, time |-> 0, dt |-> 0, ok |-> r[k].ok = 1] : k \in 1..Len(r)}

TInit == /\ i = 2 /\ Trace[1].e = "Config" /\ Trace[1].restart = 0
         /\ cfg = CfgOf(Trace[1]) /\ pc = (IF Trace[1].writer = 1 THEN "init_out" ELSE "loop")
         /\ step = 0 /\ time = 0 /\ dt = 0 /\ applied = 0 /\ hist = <<>>
         /\ disk = {} /\ outs = {} /\ marks = {} /\ crashes = 0 /\ done_bp = FALSE

(* a new run in a fresh directory *)
TFresh == /\ Ev("Config") /\ e.fresh = 1 /\ e.restart = 0
          /\ Chk("previous run ended", pc \in {"done", "crashed", "aborted"})
          /\ cfg' = CfgOf(e) /\ pc' = (IF e.writer = 1 THEN "init_out" ELSE "loop")
          /\ step' = 0 /\ time' = 0 /\ dt' = 0 /\ applied' = 0 /\ hist' = <<>>
          /\ disk' = {} /\ outs' = {} /\ marks' = {} /\ crashes' = 0 /\ done_bp' = FALSE
(* a restart in the same directory *)
TRestart == /\ Ev("Config") /\ e.fresh = 0 /\ e.restart = 1
            /\ pc \in {"done", "crashed", "aborted"}
            /\ LET s == e.istep IN
               /\ Chk("restart file present", \E f \in disk : f.ok /\ f.of = s /\ f.name \in {s, Single})
               /\ hist' = SubSeq(hist, 1, Min2(s, Len(hist)))
               /\ step' = s /\ time' = SumTo(hist, Min2(s, Len(hist))) /\ dt' = 0 /\ applied' = 0 /\ pc' = "loop"
               /\ outs' = {o \in outs : o.step <= s} /\ marks' = {m \in marks : m <= s}
            /\ cfg' = CfgOf(e)
            /\ UNCHANGED <<disk, crashes, done_bp>>
TSelect == /\ Ev("SelectDt") /\ Chk("step numbering", e.step = step + 1)
           /\ Chk("step follows", pc = "loop") /\ Chk("no step beyond Nt", step < cfg.Nt) /\ Chk("dt>0", e.dt > 0)
           /\ ChkV("time before step", Near(e.time, time, Tol), <<e.time, time>>)
           /\ SelectDt(e.dt)
TReduce == Ev("Reduce") /\ Chk("reduction", cfg.safe = 1 /\ e.dt < dt) /\ ReduceDt(e.dt)
TSub == /\ Ev("Sub") /\ ChkV("sub-steps within step", e.dt > 0 /\ applied + e.dt <= dt + Tol, <<applied, e.dt, dt>>) /\ Sub(e.dt)
TEnd == /\ Ev("EndStep") /\ ChkV("sub-steps cover the step", StepDone, <<pc, applied, dt>>) /\ EndSolve
(* a look at the restart files at an instant inside the writing protocol *)
Seen(obs) ==
  /\ \A f \in disk : (~\E g \in obs : g.name = f.name) =>
        ChkV("clean-up removed a needed restart file", (cfg.del = 1 /\ (MayGo(f, obs) \/ ~f.ok)), f.name)
  /\ \A g \in obs : (~\E f \in disk : f.name = g.name) => ChkV("unexpected restart file", g.name = NameOf(step), g.name)
  /\ \A g \in obs : (\E f \in disk : f.name = g.name /\ (f.of # g.of \/ f.ok # g.ok)) =>
        ChkV("restart file of another step replaced", g.name = NameOf(step), g.name)
  /\ \A g \in obs : ChkV("restart file holds another step", g.ok => GoodName(g), <<g.name, g.of>>)
  /\ Chk("no complete restart file left", done_bp => \E g \in obs : g.ok /\ GoodName(g))
TDisk == /\ Ev("Disk") /\ Chk("restart files change only at outputs", pc \in {"clean", "bp", "bp_open", "out"} \/ FilesOf(e.files) = disk)
         /\ Seen(FilesOf(e.files)) /\ disk' = FilesOf(e.files)
         /\ UNCHANGED <<cfg, pc, step, time, dt, applied, hist, outs, marks, crashes, done_bp>>
TBpBegin == /\ Ev("BpBegin") /\ Chk("restart file due", pc \in {"clean", "bp"} /\ e.step = step)
            /\ pc' = "bp_open"
            /\ UNCHANGED <<cfg, step, time, dt, applied, hist, disk, outs, marks, crashes, done_bp>>
TBp == /\ Ev("Bp") /\ Chk("restart file of this step", pc = "bp_open" /\ e.step = step)
       /\ ChkV("restart file time", Near(e.time, time, Tol), <<e.time, time>>)
       /\ IF Has(e, "files")
          THEN LET obs == FilesOf(e.files) IN
               /\ Seen(obs) /\ disk' = obs
               /\ Chk("newest restart file present", \E g \in obs : g.ok /\ g.of = step /\ g.name = NameOf(step))
               /\ pc' = "out" /\ done_bp' = TRUE
               /\ UNCHANGED <<cfg, step, time, dt, applied, hist, outs, marks, crashes>>
          ELSE WriteBp
TOut == /\ Ev("Out") /\ ChkV("output due", pc \in {"out", "init_out"} /\ e.step = step, <<pc, e.step, step>>)
        /\ ChkV("output time", (Near(e.time, time, Tol) /\ Near(e.dt, dt, Tol)) \/ (pc = "init_out" /\ e.time = 0), <<e.time, time, e.dt, dt>>)
        /\ IF pc = "out" THEN Output ELSE InitialOutput
TMarks == /\ Ev("Marks") /\ Chk("marker output due", pc \in {"mark", "init_mark"} /\ e.step = step)
          /\ IF pc = "mark" THEN Markers ELSE InitialMarkers
TCrash == /\ Ev("Crash") /\ pc' = "crashed" /\ crashes' = crashes + 1
          /\ IF Has(e, "files") THEN Seen(FilesOf(e.files)) /\ disk' = FilesOf(e.files) ELSE UNCHANGED disk
          /\ UNCHANGED <<cfg, step, time, dt, applied, hist, outs, marks, done_bp>>
TAbort == Ev("Abort") /\ Chk("only safe mode gives up", cfg.safe = 1 /\ pc = "solve") /\ GiveUp
(* the end of a run, with what an observer finds in the directory: names and header times of the files *)
TFinish ==
  /\ Ev("Finish") /\ ChkV("all steps done", pc = "loop" /\ step = cfg.Nt, <<pc, step>>)
  /\ LET fo == {e.outs[k].step : k \in 1..Len(e.outs)} IN
     ChkV("output files", fo = {o.step : o \in outs}, fo)
  /\ \A k \in 1..Len(e.outs) : \A o \in outs : o.step = e.outs[k].step =>
        ChkV("time in output file", Near(o.time, e.outs[k].time, Tol), e.outs[k])
  /\ LET fm == {e.marks[k] : k \in 1..Len(e.marks)} IN ChkV("marker files", fm = marks, fm)
  /\ Has(e, "bps") => LET fb == {e.bps[k] : k \in 1..Len(e.bps)} IN ChkV("restart files", IF cfg.del = 1 THEN fb \subseteq {f.name : f \in disk} /\ (\A f \in disk : f.of + cfg.ws > step => f.name \in fb)
                                                                                          ELSE fb = {f.name : f \in disk}, fb)
  /\ Finish
TNext == TFresh \/ TRestart \/ TSelect \/ TReduce \/ TSub \/ TEnd \/ TDisk \/ TBpBegin \/ TBp \/ TOut \/ TMarks \/ TCrash \/ TAbort \/ TFinish
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter IN IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
