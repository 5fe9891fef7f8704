------------------------------ MODULE TimeStep ------------------------------
(* Choice of the time step.  Lengths in 1/16, Courant number in 1/16, velocities integers dividing 120, times in     *)
(* units of 1/30720, so that every candidate step C*d/v = c*d*120/v units is an integer and the rule is exact.       *)
EXTENDS Util

MaxAbs(vs) == LET F[n \in 0..Len(vs)] == IF n = 0 THEN 0 ELSE Max2(Abs(vs[n]), F[n-1]) IN F[Len(vs)]
Vmax(r) == Max2(MaxAbs(r.vx), MaxAbs(r.vz))
Courant(r, v) == (r.C * Min2(r.dx, r.dz) * 120) \div v
GrowthLimit(r) == IF r.elastic = 1 THEN (r.dt0 * 5) \div 4 ELSE 2 * r.dt0
Variable(r) ==
  LET v == Vmax(r)
      adv  == Min2(Courant(r, v), GrowthLimit(r))
      surf == IF r.surf > 0 THEN Min2(adv, Courant(r, Abs(r.vinc))) ELSE adv
      chem == IF r.chem = 1 THEN Min2(surf, r.tau \div r.red) ELSE surf
      free == IF v = 0 THEN r.start ELSE chem
  IN Max2(Min2(free, r.max), r.min)
Dt(r) == IF r.const = 1 THEN r.start ELSE Variable(r)
(* number and size of the advection sub-steps for a step `dt` when the advective limit after the solve is `lim` *)
NSub(dt, lim) == IF lim * 20 < dt * 19 THEN CeilDiv(dt, lim) ELSE 1

(* ---- what a user relies on ---- *)
Positive(r) == Dt(r) > 0
BelowMax(r) == r.const = 0 => Dt(r) <= r.max
AboveMin(r) == r.const = 0 => Dt(r) >= r.min
BelowCourant(r) == (r.const = 0 /\ Vmax(r) > 0) => (Dt(r) <= Courant(r, Vmax(r)) \/ Dt(r) = r.min)
BelowSurface(r) == (r.const = 0 /\ r.surf > 0 /\ Vmax(r) > 0) => (Dt(r) <= Courant(r, Abs(r.vinc)) \/ Dt(r) = r.min)
GrowthOK(r) == (r.const = 0 /\ Vmax(r) > 0) => (Dt(r) <= GrowthLimit(r) \/ Dt(r) = r.min)
ConstantKept(r) == r.const = 1 => Dt(r) = r.start
SubStepsFit(dt, lim) == LET n == NSub(dt, lim) IN n >= 1 /\ 19 * dt <= 20 * n * lim
=============================================================================
