---------------------------- MODULE LinearSolver ----------------------------
(* One linear step: the correction handed back solves the assembled equations, or the program stops. *)
EXTENDS Util
(* ---- sparse rows: <<column, value, column, value, ...>>, columns from 0; x in three limbs of 12 bits below the unit ---- *)
BASE == 4096
RowSum(row, x) == SeqSum([q \in 1..(Len(row) \div 2) |-> row[2 * q] * x[row[2 * q - 1] + 1]])
RowAbs(row) == SeqSum([q \in 1..(Len(row) \div 2) |-> Abs(row[2 * q])])
(* S2*B^2 + S1*B + S0 without leaving 32 bits: 0 when the leading part is already far from cancelling *)
Horner(s2, s1, s0) == LET r1 == s2 * BASE + s1 IN
  IF Abs(s2) > 200000 THEN <<FALSE, 0>> ELSE IF Abs(r1) > 400000 THEN <<FALSE, r1>> ELSE <<TRUE, r1 * BASE + s0>>
(* the residual of one row in units of 2^-22 of the right-hand side's, which is 2^-24 of the unit of the leading limb times 4 *)
RowRes(row, f, x2, x1, x0) == Horner(RowSum(row, x2), RowSum(row, x1) - 1024 * f, RowSum(row, x0))
RowSolved(row, f, x2, x1, x0, tol) == LET r == RowRes(row, f, x2, x1, x0) IN r[1] /\ Abs(r[2]) <= tol + RowAbs(row)
(* ---- compressible cells: those of rock whose material is compressible now, whatever they held before ---- *)
Compressible(tp, b) == [c \in 1..Len(tp) |-> IF tp[c] # 30 /\ b[c] >= 2 THEN 1 ELSE 0]
(* ---- the augmented (Powell-Hestenes) iteration on residuals ---- *)
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
Mag(r) == MaxS({Abs(r[k]) : k \in DOMAIN r})
Signed(r) == MaxS({r[k] : k \in DOMAIN r})
(* acceptance: the largest mass residual is below the absolute tolerance or below the relative one times that of the first iteration *)
SmallAbs(m, tol) == m <= tol
SmallRel(m, m0, num, den) == m * den <= m0 * num
=============================================================================
