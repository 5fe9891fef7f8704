----------------------------- MODULE Update_Trace -----------------------------
(* Recorded updates.  Common: Nx, Nz, U, per, tc, tg, m.  Val: f, a sequence of updates [kind, where, st, old, base, inc, fr, lim, new, tol, name].   *)
(* Stress: f (three updates: xx, zz, xz), rot, ang (vertex angles times QA), n0, n1 (directors times QA), dir (1 if they turn), ux, uz, vx, vz (gradients times the step, QA), pu. *)
EXTENDS Update, TraceLib
VARIABLE i
e == Trace[i]
S == [Nx |-> e.Nx, Nz |-> e.Nz, U |-> e.U, per |-> e.per, m |-> e.m]
Tg(q) == IF q.where = 1 THEN e.tc ELSE e.tg
QF == 1024
Want(s, q) == IF q.kind = "keep" THEN q.old
              ELSE IF q.kind = "direct" THEN Seen(s, q.where, q.inc, Tg(q))
              ELSE IF q.kind = "plain" THEN Plain(s, q.where, q.old, q.inc, Tg(q))
              ELSE Relaxed(s, q.where, q.st, q.old, q.base, q.inc, q.fr, QF, Tg(q))
Expected(s, q) == IF q.lim > 0 THEN Limit(Want(s, q), q.lim) ELSE Want(s, q)
(* uncertainty from the recorded positions *)
Give(s, q, k) == IF e.pu = 0 THEN 0 ELSE LET by(f) == SpreadBy(LAMBDA x, z : Corner(s, q.where, x, z), s.m[k][1], s.m[k][2], f)
                 IN RDiv(2 * e.pu * (by(q.inc) + (IF q.kind = "relax" THEN by(q.base) ELSE 0)), s.U)
Got(s, q) == \A w \in {Expected(s, q)} : \A k \in 1..Len(q.old) :
   IF s.m[k][3] = -1 THEN q.kind = "direct" \/ q.lim > 0 \/ ChkV("an inactive marker keeps its values", q.new[k] = q.old[k], <<q.name, k>>)
   ELSE ChkV("the marker receives the change of the grid", Near(q.new[k], w[k], q.tol + Give(s, q, k)), <<q.name, k, s.m[k], q.old[k], q.new[k], w[k]>>)
Val == (\A s \in {S} : \A j \in 1..Len(e.f) : Got(s, e.f[j])) = TRUE
QA == 4096
Turned(s, w1, w2, w3, an) == \A k \in 1..Len(s.m) :
   IF s.m[k][3] = -1 THEN ChkV("an inactive marker keeps its stress", e.f[1].new[k] = e.f[1].old[k] /\ e.f[2].new[k] = e.f[2].old[k] /\ e.f[3].new[k] = e.f[3].old[k], k)
   ELSE \A T \in {<<w1[k], w2[k], w3[k]>>} : \A R \in {IF e.rot = 0 THEN T ELSE IF e.rot = 1 THEN Spin(T, an[k], QA) ELSE Turn(T, an[k], QA)} :
        \A g \in {IF e.pu = 0 THEN 0 ELSE Give(s, e.f[1], k) + Give(s, e.f[2], k) + Give(s, e.f[3], k)} :
        \A c \in 1..3 : ChkV("the stress of a marker follows the grid and turns with the material", Near(e.f[c].new[k], R[c], e.f[c].tol + g), <<k, s.m[k], c, e.f[c].old[k], e.f[c].new[k], T, R, an[k]>>)
Direct(s, gx, gz, hx, hz) == \A k \in 1..Len(s.m) :
   IF s.m[k][3] = -1 \/ e.dir = 0 THEN ChkV("the director is left alone", e.n1[k] = e.n0[k], k)
   ELSE \A d \in {Carried(e.n0[k], <<gx[k], gz[k], hx[k], hz[k]>>, QA)} :
        /\ ChkV("the director is a unit vector", Near(e.n1[k][1] * e.n1[k][1] + e.n1[k][2] * e.n1[k][2], QA * QA, 3 * QA), <<k, e.n1[k]>>)
        /\ ChkV("the director turns with the material", Near(e.n1[k][1] * d[2], e.n1[k][2] * d[1], e.dtol * QA) /\ e.n1[k][1] * d[1] + e.n1[k][2] * d[2] > 0, <<k, s.m[k], e.n0[k], e.n1[k], d>>)
Stress == (\A s \in {S} : /\ \A w1 \in {Want(s, e.f[1])} : \A w2 \in {Want(s, e.f[2])} : \A w3 \in {Want(s, e.f[3])} : \A an \in {Seen(s, 0, e.ang, e.tg)} : Turned(s, w1, w2, w3, an)
                          /\ \A gx \in {SeenKept(s, 1, e.ux, e.tc)} : \A gz \in {SeenKept(s, 0, e.uz, e.tg)} : \A hx \in {SeenKept(s, 0, e.vx, e.tg)} : \A hz \in {SeenKept(s, 1, e.vz, e.tc)} : Direct(s, gx, gz, hx, hz)) = TRUE
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ (IF e.e = "Val" THEN Val ELSE Stress)
Spec == Init /\ [][Next]_i
=============================================================================
