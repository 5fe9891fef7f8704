----------------------------- MODULE Numbering -----------------------------
(* Equation numbers of the staggered grid.  u: Nx x (Nz+1) nodes, v: (Nx+1) x Nz nodes, p: (Nx-1) x (Nz-1) cells.       *)
(* Types as in Boundary.  A node is an unknown iff it is free; -12 on the east side of the u grid is the same unknown   *)
(* as the west node of its row.                                                                                          *)
EXTENDS Boundary
FreeU(y) == y \in {-1, 2, -2}
FreeV(y) == y \in {-1, 2}
FreeP(y) == y = -1
Unk(t, F(_)) == {c \in DOMAIN t : F(t[c])}
Image(f, Q) == {f[c] : c \in Q}
(* numbers eu, ev, ep (sequences indexed by node+1), neq unknowns of which nmom are velocities and ncont pressures *)
Counts(tu, tv, tp, neq, nmom, ncont) == /\ nmom = Cardinality(Unk(tu, FreeU)) + Cardinality(Unk(tv, FreeV))
                                        /\ ncont = Cardinality(Unk(tp, FreeP)) /\ neq = nmom + ncont
OneToOne(tu, tv, tp, eu, ev, ep, neq, nmom) ==
   /\ Image(eu, Unk(tu, FreeU)) \cup Image(ev, Unk(tv, FreeV)) = 0..(nmom - 1)       \* with Counts: a bijection
   /\ Image(ep, Unk(tp, FreeP)) = nmom..(neq - 1)
Unnumbered(tu, tv, tp, eu, ev, ep, n) ==
   /\ \A c \in DOMAIN tu : ~FreeU(tu[c]) => eu[c] = (IF tu[c] = -12 THEN eu[c - n + 1] ELSE -1)
   /\ \A c \in DOMAIN tv : ~FreeV(tv[c]) => ev[c] = -1
   /\ \A c \in DOMAIN tp : ~FreeP(tp[c]) => ep[c] = -1
(* applying a correction d (indexed by equation number + 1) with length a, all in units such that values are integers;  *)
(* ghosts are what Boundary says                                                                                         *)
Moved(t, w0, w1, e, d, a, F(_), tol) == \A c \in DOMAIN t : F(t[c]) => Near(w1[c], w0[c] + a * d[e[c] + 1], tol)
Kept(t, w0, w1, Q) == \A c \in DOMAIN t : t[c] \in Q => w1[c] = w0[c]
=============================================================================
