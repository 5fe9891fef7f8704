------------------------------- MODULE Util -------------------------------
(* Helpers shared by all specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SeqSum(s) == SumTo(s, Len(s))
(* Named check: TRUE, or prints what failed (read by vf/core.py) and is FALSE. *)
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name>>) /\ FALSE
ChkV(name, cond, val) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, val>>) /\ FALSE
CeilDiv(a, b) == -((-a) \div b)
============================================================================
