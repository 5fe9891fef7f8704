----------------------------- MODULE Balance_MC -----------------------------
(* Design facts of the discrete balance on a 4 x 4 box, over all pairs of elementary motions and several viscosity      *)
(* patterns: forces and mass telescope to the boundary, the viscous operator is symmetric and dissipative, rigid and    *)
(* uniformly strained states with uniform viscosity, and hydrostatic columns, are in balance; the residual with and     *)
(* without the compressible term agree on mass-conserving fields.                                                        *)
EXTENDS Balance
CONSTANTS Patterns, Values
Nx == 4
Nz == 4
n == Nx * (Nz + 1)
VARIABLES a, b, pat, comp, oop, amp
vars == <<a, b, pat, comp, oop, amp>>
Eta(c, q) == IF q = 0 THEN 3 ELSE 1 + ((c * q + q) % 5)
S(cmp, o, q) == [Nx |-> Nx, Nz |-> Nz, ix |-> 1, iz |-> 2, comp |-> cmp, oop |-> o, gx |-> 0, gz |-> 0, td |-> 0,
        tu |-> [c \in 1..n |-> -1], tv |-> [c \in 1..n |-> -1], tp |-> [c \in 1..9 |-> -1], tg |-> [c \in 1..16 |-> -1], vu |-> [c \in 1..n |-> 0], vv |-> [c \in 1..n |-> 0],
        en |-> [c \in 1..9 |-> Eta(c, q)], es |-> [c \in 1..16 |-> Eta(c + 3, q)], rn |-> [c \in 1..9 |-> 0], rs |-> [c \in 1..16 |-> 0],
        bt |-> [c \in 1..9 |-> 0], p0 |-> [c \in 1..9 |-> 0], q |-> [c \in 1..9 |-> 0], cc |-> [c \in 1..9 |-> 0]]
s == S(comp, oop, pat)
Zero == [u |-> [c \in 1..n |-> 0], v |-> [c \in 1..n |-> 0], p |-> [c \in 1..9 |-> 0]]
IntU == {<<k, l>> \in (1..(Nx-2)) \X (1..(Nz-1)) : TRUE}
IntV == {<<k, l>> \in (1..(Nx-1)) \X (1..(Nz-2)) : TRUE}
Dofs == {<<"u", d[1], d[2]>> : d \in IntU} \cup {<<"v", d[1], d[2]>> : d \in IntV}
Unit(d, x) == IF d[1] = "u" THEN [Zero EXCEPT !.u[Cu(s, d[2], d[3])] = x] ELSE [Zero EXCEPT !.v[Cv(s, d[2], d[3])] = x]
Force(w, d) == IF d[1] = "u" THEN FX6(s, w, d[2], d[3]) ELSE FZ6(s, w, d[2], d[3])
Init == a = <<>> /\ b = <<>> /\ pat \in Patterns /\ comp \in {0, 1} /\ oop \in {0, 1} /\ amp \in Values
Next == a = <<>> /\ a' \in Dofs /\ b' \in Dofs /\ UNCHANGED <<pat, comp, oop, amp>>
Spec == Init /\ [][Next]_vars
Plus(w1, w2) == [u |-> [c \in DOMAIN w1.u |-> w1.u[c] + w2.u[c]], v |-> [c \in DOMAIN w1.v |-> w1.v[c] + w2.v[c]], p |-> [c \in DOMAIN w1.p |-> w1.p[c] + w2.p[c]]]
Symmetric == Force(Unit(a, 1), b) = Force(Unit(b, 1), a)
Work(w) == SeqSum([i \in 1..n |-> LET k == (i-1) % Nx l == (i-1) \div Nx IN IF <<k, l>> \in IntU THEN w.u[i] * FX6(s, w, k, l) ELSE 0])
         + SeqSum([i \in 1..n |-> LET k == (i-1) % (Nx+1) l == (i-1) \div (Nx+1) IN IF <<k, l>> \in IntV THEN w.v[i] * FZ6(s, w, k, l) ELSE 0])
Dissipative == LET w == Plus(Unit(a, 1), Unit(b, amp)) IN Work(w) <= 0 /\ ((w.u # Zero.u \/ w.v # Zero.v) => Work(w) < 0)
MassTelescopes == LET w == Plus(Unit(a, 3), Unit(b, amp)) IN SeqSum([c \in 1..9 |-> Div2(s, w, (c-1) % 3, (c-1) \div 3)]) = 0
ForceTelescopes == LET w == Plus(Unit(a, 3), Unit(b, amp)) IN
   \A l \in 1..(Nz-1) : FX6(s, w, 1, l) + FX6(s, w, 2, l) = (Sxx6(s, w, 2, l-1) - Sxx6(s, w, 0, l-1)) * s.ix + (Sxz6(s, w, 1, l) - Sxz6(s, w, 1, l-1) + Sxz6(s, w, 2, l) - Sxz6(s, w, 2, l-1)) * s.iz
Uniform == pat = 0 => LET w == [u |-> [i \in 1..n |-> amp * ((i-1) % Nx) + 2 * ((i-1) \div Nx)], v |-> [i \in 1..n |-> -amp * ((i-1) \div (Nx+1)) + 5 * ((i-1) % (Nx+1))], p |-> [c \in 1..9 |-> 7]]
                      IN \A d \in Dofs : Force(w, d) = 0
Hydrostatic == LET w == [Zero EXCEPT !.p = [c \in 1..9 |-> -amp * ((c-1) \div 3)]]
                   h == [s EXCEPT !.gz = -2, !.rn = [c \in 1..9 |-> amp]]          \* dp/dz = rho g, 1/dz = 2
               IN \A d \in IntV : FZ6(h, w, d[1], d[2]) = 0
SameOnSolenoidal == LET w == Plus(Unit(a, 3), Unit(b, amp)) s0 == S(0, oop, pat) s1 == S(1, oop, pat) IN
   (\A c \in 1..9 : Div2(s, w, (c-1) % 3, (c-1) \div 3) = 0) => \A d \in IntU : FX6(s0, w, d[1], d[2]) = FX6(s1, w, d[1], d[2])
Inv == a # <<>> => Symmetric /\ Dissipative /\ MassTelescopes /\ ForceTelescopes /\ Uniform /\ Hydrostatic /\ SameOnSolenoidal
=============================================================================
