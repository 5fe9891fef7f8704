------------------------------ MODULE History ------------------------------
(* The memory of a marker: accumulated strains, largest temperature and pressure, deformation gradient, phase.          *)
EXTENDS Sampling
(* strain increment of one mechanism: a weighted mean of the increments of the rock cells around: <<sum, weight>> *)
Strained(s, x, z, inc, t) == Kept(s, Inner(s, x, z), inc, t)
Peak(old, now) == Max2(old, now)
(* phase change: rule -1 at or below the temperature, 1 at or above it *)
Due(rule, limit, T) == (rule = -1 /\ T <= limit) \/ (rule = 1 /\ T >= limit)
Become(mat, ph, T) == IF ph >= 0 /\ Due(mat[ph + 1][1], mat[ph + 1][2], T) THEN mat[ph + 1][3] ELSE ph
(* deformation gradient: F becomes (1 + L) F, entries <<xx, xz, zx, zz>> in units of 1/Q *)
Advance(F, L, Q) == <<F[1] + RDiv(L[1] * F[1] + L[2] * F[3], Q), F[2] + RDiv(L[1] * F[2] + L[2] * F[4], Q), F[3] + RDiv(L[3] * F[1] + L[4] * F[3], Q), F[4] + RDiv(L[3] * F[2] + L[4] * F[4], Q)>>
Det(F) == F[1] * F[4] - F[2] * F[3]
Size2(F) == F[1] * F[1] + F[2] * F[2] + F[3] * F[3] + F[4] * F[4]
(* velocity gradients on the grid (velocities already multiplied by the step) *)
UX(s, u, k, l) == u[k + 2 + (l + 1) * s.Nx] - u[k + 1 + (l + 1) * s.Nx]          \* at cell k, l
VZ(s, v, k, l) == v[k + 2 + (l + 1) * (s.Nx + 1)] - v[k + 2 + l * (s.Nx + 1)]
UZ(s, u, k, l) == u[k + 1 + (l + 1) * s.Nx] - u[k + 1 + l * s.Nx]                \* at vertex k, l
VX(s, v, k, l) == v[k + 2 + l * (s.Nx + 1)] - v[k + 1 + l * (s.Nx + 1)]
Grid(nx, nz, F(_, _)) == [c \in 1..nx * nz |-> F((c - 1) % nx, (c - 1) \div nx)]
=============================================================================
