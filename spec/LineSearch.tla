----------------------------- MODULE LineSearch -----------------------------
(* Choice of the length of a nonlinear correction.  Residuals are small integers (sums of squares are exact), lengths *)
(* are in units of 1e-6.  The outcome of a search is a set of allowed results because ties may be broken either way.  *)
EXTENDS Util
Sq(x) == x * x
Tot(t) == Sq(t.x) + Sq(t.z) + Sq(t.p)
Mom(t) == Sq(t.x) + Sq(t.z)
MinOf(T, F(_)) == {k \in DOMAIN T : \A j \in DOMAIN T : F(T[k]) <= F(T[j])}
Rx(t) == t.x
Rz(t) == t.z
(* trials that may be accepted; ref is the residual before the correction *)
ByTot(T, ref) == {k \in MinOf(T, Tot) : Tot(T[k]) < Tot(ref)}
ByMom(T, ref) == {k \in MinOf(T, Mom) : T[k].x < ref.x /\ T[k].z < ref.z}
ByX(T, ref)   == {k \in MinOf(T, Rx) : T[k].x < ref.x}
ByZ(T, ref)   == {k \in MinOf(T, Rz) : T[k].z < ref.z}
(* momentum ties: if one of the tied minima fails both tests another rule may be reached *)
AllMomFit(T, ref) == \A k \in MinOf(T, Mom) : T[k].x < ref.x /\ T[k].z < ref.z
Accepted(T, ref) ==
  IF ByTot(T, ref) # {} THEN ByTot(T, ref)
  ELSE ByMom(T, ref) \cup
       (IF AllMomFit(T, ref) THEN {}
        ELSE IF ByX(T, ref) # {} THEN ByX(T, ref) ELSE ByZ(T, ref))
MayFail(T, ref) == ByTot(T, ref) = {} /\ ~AllMomFit(T, ref) /\ ByX(T, ref) = {} /\ ByZ(T, ref) = {}
Zero(a) == Abs(a) < 1
(* results <<length, stagnated>> *)
Results(T, ref, grow, min) ==
  LET fail == IF grow = 1 THEN {<<min, 0>>, <<-min, 0>>} ELSE {<<0, 1>>}
      acc  == {IF Zero(T[k].a) THEN <<0, 2>> ELSE <<T[k].a, 0>> : k \in Accepted(T, ref)}
  IN {r \in acc : r[2] # 2} \cup (IF MayFail(T, ref) \/ (\E r \in acc : r[2] = 2) THEN fail ELSE {})
(* ---- what a user relies on, for a result r of a search that was not allowed to let the residual grow ---- *)
Reduced(T, ref, r) == \E k \in DOMAIN T : T[k].a = r[1] /\ (Tot(T[k]) < Tot(ref) \/ T[k].x < ref.x \/ T[k].z < ref.z)
Best(T, ref, r) == (\E k \in DOMAIN T : Tot(T[k]) < Tot(ref) /\ \A j \in DOMAIN T : j # k => Tot(T[j]) > Tot(T[k]))
                   => \E k \in DOMAIN T : (~Zero(T[k].a) => T[k].a = r[1]) /\ \A j \in DOMAIN T : Tot(T[k]) <= Tot(T[j])
Sound(T, ref, r) == (r[2] = 0 => Reduced(T, ref, r)) /\ (r[2] = 1 => r[1] = 0) /\ (r[2] = 0 \/ r[2] = 1)
(* trial lengths: from (Picard) nothing or (Newton) the smallest length to the over-relaxed (Picard) or full (Newton) one *)
Trials(newton, min) == LET hi == IF newton = 0 THEN 0 ELSE -min lo == IF newton = 1 THEN -1000000 ELSE -2500000 IN [k \in 0..5 |-> hi - (k * (hi - lo)) \div 5]
=============================================================================
