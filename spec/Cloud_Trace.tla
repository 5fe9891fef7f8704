---------------------------- MODULE Cloud_Trace ----------------------------
(* Recorded clouds.  Cloud: s, X, Z, inside, values of every marker, stop (exit code, 0: went on), badphase (the set-up answered *)
(* a phase that does not exist);  Kept: values of whole runs before and after the rest of the initialisation.                  *)
EXTENDS Cloud, TraceLib
VARIABLE i
e == Trace[i]
SetOf(q) == {q[k] : k \in 1..Len(q)}
S == [nx |-> e.nx, nz |-> e.nz, px |-> e.px, fs |-> e.fs, top |-> e.top, nph |-> e.nph, def |-> SetOf(e.def), fin |-> e.fin, x0 |-> e.x0, z0 |-> e.z0, noise |-> e.noise]
Layout(s) ==
   LET N == Len(e.X)  site == [k \in 1..N |-> <<SiteOf(e.X[k]), SiteOf(e.Z[k])>>]  got == {site[k] : k \in 1..N} IN
   /\ ChkV("never more markers than room", N <= e.max, <<N, e.max>>)
   /\ ChkV("one marker per place", Cardinality(got) = N, N)
   /\ ChkV("every place below the surface has its marker", {q \in Sites(s) : Below(s, q)} \subseteq got, {q \in Sites(s) : Below(s, q)} \ got)
   /\ ChkV("no marker elsewhere", got \subseteq {q \in Sites(s) : Below(s, q) \/ Undecided(s, q)}, got \ {q \in Sites(s) : Below(s, q)})
   /\ \A k \in 1..N : LET t == IF s.noise = 1 THEN 101 ELSE 1 IN
         ChkV("in the middle of its place, inside the domain", Near(e.X[k], Middle(site[k][1]), t) /\ Near(e.Z[k], Middle(site[k][2]), t) /\ e.inside[k] = 1, <<k, e.X[k], e.Z[k]>>)
   /\ s.noise = 0 \/ N < 8 \/ ChkV("noise moves markers", \E k \in 1..N : ~Near(e.X[k], Middle(site[k][1]), 1) \/ ~Near(e.Z[k], Middle(site[k][2]), 1), N)
Answers(s) ==
   \A k \in 1..Len(e.X) : \A v \in {Values(s, e.X[k], e.Z[k])} :
      /\ ChkV("phase", e.v.phase[k] = v.phase, <<k, e.v.phase[k], v.phase>>)
      /\ ChkV("dual phase", e.v.dual[k] = v.dual, <<k, e.v.dual[k], v.dual>>)
      /\ \A f \in {"T", "d", "phi", "rho", "X", "P", "sxxd", "szzd", "sxz", "noise"} : ChkV(f, e.v[f][k] = v[f], <<k, e.v[f][k], v[f]>>)
      /\ 16 \notin s.def \/ ChkV("angle", e.v.ani[k] = v.ani, <<k, e.v.ani[k], v.ani>>)
      /\ s.fin = 0 \/ ChkV("deformation gradient", <<e.v.Fxx[k], e.v.Fxz[k], e.v.Fzx[k], e.v.Fzz[k]>> = v.F, <<k, v.F>>)
      /\ ChkV("velocity", Near(e.v.Vx[k], VelX(s, e.X[k], e.Z[k]), 1) /\ Near(e.v.Vz[k], VelZ(s, e.X[k], e.Z[k]), 1), <<k, e.v.Vx[k], e.v.Vz[k]>>)
CloudOK(s) == IF e.badphase = 1 THEN ChkV("a phase that does not exist stops the run", e.stop > 0, e.stop)
              ELSE ChkV("a valid set-up is accepted", e.stop = 0, e.stop) /\ Layout(s) /\ Answers(s) /\ ChkV("saved cloud is loaded again", e.loaded = 1, e.loaded)
Cloud == e.e = "Cloud" /\ (\A s \in {S} : CloudOK(s)) = TRUE
(* the rest of the initialisation: <<name, unchanged>> for every marker and field the set-up decides *)
Kept == e.e = "Kept" /\ (\A k \in 1..Len(e.f) : ChkV("set-up values survive the initialisation", e.f[k][2] = 1, e.f[k])
                         /\ ChkV("temperatures stay within those given", e.tmin >= e.tmin0 - 1 /\ e.tmax <= e.tmax0 + 1, <<e.tmin, e.tmax>>)
                         /\ ChkV("grain size of the phase", e.grain = 1, e.grain) /\ ChkV("only markers above the surface are dropped", e.dropped = 0, e.dropped)) = TRUE
Init == i = 1
Next == i <= Len(Trace) /\ (IF e.e = "Cloud" THEN Cloud ELSE Kept) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
