-------------------------- MODULE Advection_Trace --------------------------
EXTENDS Advection, TraceLib
VARIABLE i
e == Trace[i]
(* a marker record: x, z, phase before; x, z, phase after; velocity after (times the step); moved?; other properties kept? *)
Fuzz == e.tol
Safe(d) == Abs(d) > Fuzz                 \* clearly in or out
Inactive(m) == ChkV("a deactivated marker stays", m[6] = -1 /\ m[9] = 0 /\ m[10] = 1, m)
NearLine(p) == LET U == e.U f(x) == Min2(x % U, U - (x % U)) IN f(p[1]) <= 3 \/ f(p[2]) <= 3 \/ f(p[1] + U \div 2) <= 3 \/ f(p[2] + U \div 2) <= 3
ActiveH(m, h) ==
   LET far == Max2(Beyond(e, h.end[1], h.end[2]), Max2(Beyond(e, h.st[1][1], h.st[1][2]), Max2(Beyond(e, h.st[2][1], h.st[2][2]), Beyond(e, h.st[3][1], h.st[3][2]))))
       lost == far > 0
       edge == e.exact = 0 /\ Abs(far) <= Fuzz
       (* next to air the interpolation jumps at grid lines: not decided there *)
       skip == e.exact = 0 /\ e.air = 1 /\ (NearLine(<<m[1], m[2]>>) \/ \E k \in 1..3 : NearLine(h.st[k]))
       d == Abs(m[4] - h.end[1])
       dx == IF e.per = 1 THEN Min2(d, Abs(LX(e) - d)) ELSE d
   IN /\ ChkV("properties are carried along", m[10] = 1, m)
      /\ edge \/ ChkV("deactivated exactly when it left the domain", (m[6] = -1) = lost, <<m, h>>)
      /\ m[6] = -1 \/ ChkV("the phase is kept", m[6] = m[3], m)
      /\ m[6] = -1 \/ skip \/ ChkV("moved along the velocity field", dx <= Fuzz /\ Near(m[5], h.end[2], Fuzz), <<m, h>>)
      /\ m[6] = -1 \/ skip \/ ChkV("velocity of the marker", Near(m[7], h.v[1], Fuzz) /\ Near(m[8], h.v[2], Fuzz), <<m, h>>)
      /\ m[6] = -1 \/ edge \/ ChkV("stays in the domain", Beyond(e, m[4], m[5]) <= 0 /\ m[4] >= 0 /\ m[4] <= LX(e), m)
Active(m) == \A h \in {Path(e, m[1], m[2])} : ActiveH(m, h)
Adv == /\ e.e = "Adv"
       /\ (\A k \in 1..Len(e.m) : IF e.m[k][3] = -1 THEN Inactive(e.m[k]) ELSE Active(e.m[k])) = TRUE      \* (as a value: TLC would branch on every disjunction)
Init == i = 1
Next == i <= Len(Trace) /\ Adv /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
