---------------------------- MODULE Boundary_MC ----------------------------
(* The x-velocity grid of a small box: SetBCs, then any sequence of solver updates (free nodes move arbitrarily), ghost updates and re-settings with other   *)
(* strain rates.  After a ghost update the field honours every prescribed value; the walls close at the requested rate.                                        *)
EXTENDS Boundary
CONSTANTS Nx, Nz
n == Nx
m == Nz + 1
Xc(c) == 2 * K(c, n) - (n - 1)            \* symmetric box, half cells as unit
VARIABLES t, v, u, bkg, style, fresh
vars == <<t, v, u, bkg, style, fresh>>
Lz == 2 * (Nz - 1)
SetAll(b, s) == /\ bkg' = b /\ style' = s
                /\ t' = [c \in 1..(n*m) |-> StockVx(s, Pos(c-1, n, m), Xc(c-1), b, Lz)[1]]
                /\ v' = [c \in 1..(n*m) |-> LET q == StockVx(s, Pos(c-1, n, m), Xc(c-1), b, Lz) IN Stored(q[1], q[2])]
                /\ u' = [c \in 1..(n*m) |-> IF t'[c] = 0 THEN v'[c] ELSE IF c \in DOMAIN u THEN u[c] ELSE 0] /\ fresh' = FALSE
Init == bkg = 0 /\ style = 0 /\ fresh = FALSE /\ t = [c \in 1..(n*m) |-> 30] /\ v = [c \in 1..(n*m) |-> 0] /\ u = [c \in 1..(n*m) |-> 0]
Free(c) == t[c] \in {-1, -2}
Solve == \E f \in {-1, 2} : \E par \in 0..1 : /\ u' = [c \in 1..(n*m) |-> IF Free(c) /\ K(c-1,n) % 2 = par THEN f + L(c-1, n) ELSE u[c]] /\ fresh' = FALSE /\ UNCHANGED <<t, v, bkg, style>>
Period(w) == [c \in 1..(n*m) |-> IF t[c] = -12 THEN w[L(c-1, n)*n+1] ELSE w[c]]
Ghosts == u' = ApplyU(Period(u), t, v, n, m) /\ fresh' = TRUE /\ UNCHANGED <<t, v, bkg, style>>
Next == (\E b \in {1, -3} : \E s \in {0, 1} : SetAll(b, s)) \/ (bkg # 0 /\ Solve) \/ (bkg # 0 /\ Ghosts)
Spec == Init /\ [][Next]_vars
Honoured == fresh => HonourU(u, t, v, n, m, 0)
Closing == (bkg # 0 /\ style = 0) => \A l \in 1..(m-2) : v[l*n + n] - v[l*n + 1] = -bkg * 2 * (n - 1)     \* u_E - u_W = -rate * width
Shearing == (bkg # 0 /\ style = 1) => \A k \in 1..n : v[(m-1)*n + k] - v[k] = 4 * bkg * Lz                   \* twice the wall velocities; du/dz = 2*rate
Bound == \A c \in DOMAIN u : u[c] \in -60..60
=============================================================================
