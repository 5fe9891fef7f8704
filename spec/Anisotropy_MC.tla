--------------------------- MODULE Anisotropy_MC ----------------------------
(* One layered material point: its strain rate changes, its layers weaken, everything turns.  Law is what the point answers.  *)
EXTENDS Anisotropy
CONSTANTS M, Dirs, Sign, Wrong
DirSet == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<-1, 1>>, <<1, 3>>, <<-1, -2>>, <<2, -1>>} \cap {d \in (-3..3) \X (-3..3) : N2(d) <= Dirs}
Es == {<<a, b, c>> : a \in (0 - M)..M, b \in (0 - M)..M, c \in (0 - M)..M}
VARIABLES n, e, dn, dd, turned
vars == <<n, e, dn, dd, turned>>
Law(v, x) == Response(v, dn, IF Wrong THEN dn ELSE dd, x)
Init == n \in DirSet /\ e \in Es /\ dn = 1 /\ dd = 1 /\ turned = 0
Strain == turned = 0 /\ e' \in {x \in Es : Abs(x[1] - e[1]) + Abs(x[2] - e[2]) + Abs(x[3] - e[3]) = 1} /\ UNCHANGED <<n, dn, dd, turned>>
Weaken == turned = 0 /\ dn <= 2 * dd /\ dn' = dn + 1 /\ UNCHANGED <<n, e, dd, turned>>
Refine == turned = 0 /\ dd = 1 /\ dn > 1 /\ dd' = 2 /\ dn' = 2 * dn - 1 /\ UNCHANGED <<n, e, turned>>
TurnAll == turned = 0 /\ \E r \in {<<3, 4>>, <<4, -3>>, <<0, 5>>} : n' = Turn(n, r) /\ e' = Back(r, e) /\ turned' = 1 /\ UNCHANGED <<dn, dd>>
Next == Strain \/ Weaken \/ Refine \/ TurnAll
Spec == Init /\ [][Next]_vars
q == N2(n) * N2(n)
Isotropic == dn = dd => Response(n, dn, dd, e) = <<q * dn * e[1], q * dn * e[2], q * dn * e[3]>>
Deviatoric == e[1] + e[2] = 0 => Law(n, e)[1] + Law(n, e)[2] = 0
Pressureless == Law(n, e)[1] + Law(n, e)[2] = q * dn * (e[1] + e[2])          \* the law never changes the volumetric part
Dissipates == turned = 0 => /\ Power(Law(n, e), e) <= q * dn * Power(e, e)
              /\ Power(Law(n, e), e) >= q * dd * Power(e, e)
Symmetric == turned = 0 => \A a \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} : Power(Law(n, e), a) = Power(Law(n, a), e)
EitherNormal == Law(n, e) = Law(<<-n[1], -n[2]>>, e) /\ Law(n, e) = Law(Layer(n), e)
Weak == LET s == Back(Layer(n), <<0, 0, 1>>) p == Back(Layer(n), <<1, -1, 0>>) IN        \* shear along the layers, stretching along them
        turned = 0 => /\ Law(n, s) = <<q * dd * s[1], q * dd * s[2], q * dd * s[3]>>
                      /\ Law(n, p) = <<q * dn * p[1], q * dn * p[2], q * dn * p[3]>>
Closed == turned = 0 => Law(n, e) = ClosedForm(n, dn, dd, e, 1 - 2 * Sign)
Inverse == turned = 0 => LET t == Response(n, dn, dd, Compliance(n, dn, dd, e)) IN t = <<q * dn * q * dd * e[1], q * dn * q * dd * e[2], q * dn * q * dd * e[3]>>
Inv == Isotropic /\ Deviatoric /\ Pressureless /\ Dissipates /\ Symmetric /\ EitherNormal /\ Weak /\ Closed /\ Inverse
Frame == [][turned' = 1 => \E r \in {<<3, 4>>, <<4, -3>>, <<0, 5>>} : n' = Turn(n, r) /\ LET b == Back(r, Law(n, e)) IN Law(n', e') = <<625 * b[1], 625 * b[2], 625 * b[3]>>]_vars
Easier == [][(dn' = dn + 1 /\ dd' = dd) => Power(Response(n, dn', dd, e), e) * dn <= Power(Response(n, dn, dd, e), e) * dn']_vars
(* averages of factors lie between the phases', whatever the weights *)
Ws == {w \in (0..8) \X (0..8) \X (0..8) : w[1] + w[2] + w[3] = 8}
ASSUME \A w \in Ws, v \in {<<1, 2, 4>>, <<4, 8, 1>>, <<2, 2, 8>>}, mode \in 0..2 :
  LET m == Mean(mode, w, v) lo == Min2(Min2(IF w[1] > 0 THEN v[1] ELSE 8, IF w[2] > 0 THEN v[2] ELSE 8), IF w[3] > 0 THEN v[3] ELSE 8)
      hi == Max2(Max2(IF w[1] > 0 THEN v[1] ELSE 1, IF w[2] > 0 THEN v[2] ELSE 1), IF w[3] > 0 THEN v[3] ELSE 1) IN
  /\ m # <<0, 0>> => lo * m[2] <= m[1] /\ m[1] <= hi * m[2]
  /\ LET h == Mean(1, w, v) a == Mean(0, w, v) IN h[1] * a[2] <= a[1] * h[2]
  /\ Lg(lo) * 8 <= Exponent(w, v) /\ Exponent(w, v) <= Lg(hi) * 8
=============================================================================
