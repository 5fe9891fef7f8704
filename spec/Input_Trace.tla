---- MODULE Input_Trace ----
(* One record per input file given to the real reader: sc = log2 of the four scales, f = the file as abstract lines, r = what the reader returned.
   Read: the file was accepted; Stop: the program ended with code/signal; Missing: there was no such file. *)
EXTENDS Input, Util, TraceLib
VARIABLES i
vars == <<i>>
e == Trace[i]
RunChk(f, sc, run) == Len(run) = Len(RunT) /\ \A j \in 1..Len(RunT) : LET r == RunT[j] v == RunValue(f, r.k, r.d) IN
   ChkV("a run parameter reaches the model", RowOK(r, v, run[j], sc, LAMBDA n : RunGet(f, n)), <<r.f, v, run[j], Unit(r.u, sc)>>)
MatChk(f, sc, p, mat) == Len(mat) = Len(MatT) /\ \A j \in 1..Len(MatT) : LET r == MatT[j] IN
   FromLaw(f, p, r.f) \/ (LET v == IF r.k = "-" THEN r.d ELSE PhaseValue(f, p, r.k, IF r.alias THEN (IF r.d = "ID" THEN p ELSE MatGet(f, p, r.d)) ELSE r.d) IN
   ChkV("a material constant reaches its phase", RowOK(r, v, mat[j], sc, LAMBDA n : 0), <<p, r.f, v, mat[j], Unit(r.u, sc)>>))
Read == (/\ ChkV("an input that contradicts itself is refused", ~Stops(e.f), {p \in 0..RunGet(e.f, "Nb_phases") - 1 : BadPhase(e.f, p)})
         /\ ChkV("units follow from the four scales", ScaleOK(e.sc, e.r.scale), <<e.sc, e.r.scale>>)
         /\ RunChk(e.f, e.sc, e.r.run)
         /\ ChkV("number of phases", Len(e.r.mat) = RunGet(e.f, "Nb_phases"), Len(e.r.mat))
         /\ \A p \in 1..Len(e.r.mat) : MatChk(e.f, e.sc, p - 1, e.r.mat[p]) /\ ChkV("a flow law is the published one", LawOK(e.f, e.sc, p - 1, e.r.law[p]), <<p - 1, e.r.law[p]>>)
         /\ ChkV("grid and marker numbers follow", DerivedOK(e.f, e.r.run, e.r.der, e.sc), e.r.der)) = TRUE
Stop == (ChkV("a valid input is accepted", Stops(e.f), <<e.code, e.sig>>) /\ ChkV("the program stops in good order", e.sig = 0, <<e.code, e.sig>>)) = TRUE
Missing == (ChkV("a missing file stops the program in good order", e.sig = 0 /\ e.code # 0, <<e.code, e.sig>>)) = TRUE
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ CASE e.e = "Read" -> Read [] e.e = "Stop" -> Stop [] e.e = "Missing" -> Missing
Spec == Init /\ [][Next]_vars
====
