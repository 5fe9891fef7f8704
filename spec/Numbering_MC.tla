---------------------------- MODULE Numbering_MC ----------------------------
(* Every assignment of types to the nodes of a small grid is numbered, then corrections of every sign are applied.  The numbers form a bijection, the correction  *)
(* reaches exactly the numbered nodes, and two unknowns never receive the same entry.                                                                               *)
EXTENDS Numbering
CONSTANTS Nx, Nz
n == Nx
nu == Nx * (Nz + 1)
nv == (Nx + 1) * Nz
np == (Nx - 1) * (Nz - 1)
VARIABLES tu, tv, tp, eu, ev, ep, inc, nmom, at, u, d
vars == <<tu, tv, tp, eu, ev, ep, inc, nmom, at, u, d>>
ColU(c) == (c - 1) % Nx
Sides == {<<0, 0>>, <<-2, -12>>, <<30, 30>>, <<-1, -1>>}
Init == /\ \E s \in [1..(Nz+1) -> Sides] : \E m \in [1..(Nz+1) -> {-1, 13}] : tu = [c \in 1..nu |-> LET l == ((c - 1) \div Nx) + 1 IN IF ColU(c) = 0 THEN s[l][1] ELSE IF ColU(c) = Nx - 1 THEN s[l][2] ELSE m[l]]
        /\ \E m \in [1..Nz -> {-1, 0, 30}] : tv = [c \in 1..nv |-> IF (c - 1) % (Nx + 1) \in {0, Nx} THEN -12 ELSE m[((c - 1) \div (Nx + 1)) + 1]]
        /\ tp \in [1..np -> {-1, 30, 31}]
        /\ eu = [c \in 1..nu |-> -1] /\ ev = [c \in 1..nv |-> -1] /\ ep = [c \in 1..np |-> -1] /\ inc = 0 /\ nmom = -1 /\ at = 0 /\ u = [c \in 1..nu |-> 100 + c] /\ d = <<>>
Number == \/ /\ at < nu /\ at' = at + 1
             /\ LET c == at + 1 IN /\ inc' = IF FreeU(tu[c]) THEN inc + 1 ELSE inc
                                   /\ eu' = IF FreeU(tu[c]) THEN [eu EXCEPT ![c] = inc] ELSE IF tu[c] = -12 THEN [eu EXCEPT ![c] = eu[c - Nx + 1]] ELSE eu
             /\ UNCHANGED <<tu, tv, tp, ev, ep, nmom, u, d>>
          \/ /\ at >= nu /\ at < nu + nv /\ at' = at + 1
             /\ LET c == at - nu + 1 IN /\ inc' = IF FreeV(tv[c]) THEN inc + 1 ELSE inc
                                        /\ ev' = IF FreeV(tv[c]) THEN [ev EXCEPT ![c] = inc] ELSE ev
             /\ UNCHANGED <<tu, tv, tp, eu, ep, nmom, u, d>>
          \/ /\ at >= nu + nv /\ at < nu + nv + np /\ at' = at + 1
             /\ nmom' = IF nmom = -1 THEN inc ELSE nmom
             /\ LET c == at - nu - nv + 1 IN /\ inc' = IF FreeP(tp[c]) THEN inc + 1 ELSE inc
                                             /\ ep' = IF FreeP(tp[c]) THEN [ep EXCEPT ![c] = inc] ELSE ep
             /\ UNCHANGED <<tu, tv, tp, eu, ev, u, d>>
Done == at = nu + nv + np
Apply == /\ Done /\ d = <<>> /\ d' = [q \in 1..inc |-> q * q] /\ u' = [c \in 1..nu |-> IF eu[c] >= 0 THEN u[c] + d'[eu[c] + 1] ELSE u[c]]
         /\ UNCHANGED <<tu, tv, tp, eu, ev, ep, inc, nmom, at>>
Next == Number \/ Apply
Spec == Init /\ [][Next]_vars
Bijection == Done => Counts(tu, tv, tp, inc, nmom, inc - nmom) /\ OneToOne(tu, tv, tp, eu, ev, ep, inc, nmom) /\ Unnumbered(tu, tv, tp, eu, ev, ep, n)
Exact == (Done /\ d # <<>>) => /\ Moved(tu, [c \in 1..nu |-> 100 + c], u, eu, d, 1, FreeU, 0)
                               /\ Kept(tu, [c \in 1..nu |-> 100 + c], u, {0, 11, 13, 30})
                               /\ \A c \in 1..nu : tu[c] = -12 => u[c] - (100 + c) = u[c - Nx + 1] - (100 + c - Nx + 1)
=============================================================================
