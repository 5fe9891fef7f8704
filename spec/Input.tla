---- MODULE Input ----
(* What an input file means, independently of the program that reads it.
   A file is a sequence of lines [k: "set" (names a parameter n, value v) | "id" (starts the block of phase v) | "text", n, v].
   Values: integers, strings, or reals <<m, e>> = m * 2^(e-30) with 2^29 <= |m| < 2^30 (zero is <<0, 0>>). *)
EXTENDS Util, InputTable
(* ---------- meaning of a file ---------- *)
SetLines(f, n, lo, hi) == {i \in lo..hi : f[i].k = "set" /\ f[i].n = n}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
ValueIn(f, n, lo, hi, d) == LET S == SetLines(f, n, lo, hi) IN IF S = {} THEN d ELSE f[First(S)].v
RunValue(f, n, d) == ValueIn(f, n, 1, Len(f), d)                       \* a run parameter: first line of the whole file that names it
Starts(f, p) == {i \in 1..Len(f) : f[i].k = "id" /\ f[i].v = p}
HasPhase(f, p) == Starts(f, p) # {}
BlockEnd(f, s) == LET E == {i \in s + 1..Len(f) : f[i].k = "id"} IN IF E = {} THEN Len(f) ELSE First(E) - 1
PhaseValue(f, p, n, d) == LET s == First(Starts(f, p)) IN ValueIn(f, n, s + 1, BlockEnd(f, s), d)   \* a material constant: within the block of its own phase
(* ---------- reals and units ---------- *)
Sh(a, s) == IF a[1] = 0 THEN a ELSE <<a[1], a[2] + s>>
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF Abs(m) < 536870912 THEN Norm(2 * m, e - 1) ELSE <<m, e>>
CloseN(a, b, tol) == \/ a = b
                     \/ /\ a[1] # 0 /\ b[1] # 0
                        /\ \/ a[2] = b[2] /\ Abs(a[1] - b[1]) <= tol
                           \/ a[2] = b[2] + 1 /\ Abs(a[1] - b[1] \div 2) <= tol /\ (a[1] > 0 <=> b[1] > 0)
                           \/ b[2] = a[2] + 1 /\ Abs(b[1] - a[1] \div 2) <= tol /\ (a[1] > 0 <=> b[1] > 0)
Times(a, n) == Norm((a[1] \div 32768) * n, a[2] + 15)                 \* small integers only
IntOf(a) == IF a[1] = 0 THEN 0 ELSE IF a[2] > 29 \/ a[2] < 1 THEN 2000000000 ELSE (a[1] \div (2 ^ (30 - a[2])))
Less(a, b) == \/ a[1] < 0 /\ b[1] >= 0
              \/ a[1] <= 0 /\ b[1] > 0
              \/ a[1] > 0 /\ b[1] > 0 /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
(* the file fixes the units of viscosity, length, velocity and temperature; every other unit follows: log2 of the unit with SI dimension u = (kg, m, s, K) *)
Unit(u, sc) == LET l == sc[2] t == sc[2] - sc[3] m == sc[1] + l + t IN u[1] * m + u[2] * l + u[3] * t + u[4] * sc[4]
DPa == <<1, -1, -2, 0>>
DL == <<0, 1, 0, 0>>
DT == <<0, 0, 1, 0>>
DJ == <<1, 2, -2, 0>>
ScaleDims == << <<1, -1, -1, 0>>, DL, <<0, 1, -1, 0>>, <<0, 0, 0, 1>>, DT, <<0, 1, -2, 0>>, <<0, 0, -1, 0>>, DPa, <<1, 0, 0, 0>>, <<1, -3, 0, 0>>,
               <<1, 1, -2, 0>>, DJ, <<1, 2, -3, 0>>, <<0, 2, -2, -1>>, <<1, -1, -2, 0>>, <<1, 1, -3, -1>> >>
One == <<536870912, 1>>
(* ---------- switches that follow from others ---------- *)
Adjusted(n, v, Get(_)) ==
  CASE n = "irestart" -> IF Get("istep") = 0 THEN 0 ELSE v
    [] n = "periodic_x" -> IF Get("shear_style") = 1 THEN 1 ELSE IF Get("shear_style") = 0 THEN 0 ELSE v
    [] n = "finite_strain" -> IF Get("anisotropy") = 1 THEN 1 ELSE v
    [] n = "Picard2Newton" -> IF Get("Newton") = 0 THEN 0 ELSE v
    [] n = "line_search" -> IF Get("Newton") = 1 THEN 1 ELSE v
    [] n = "lin_solver" -> IF v = 0 \/ Get("Newton") = 1 \/ Get("anisotropy") = 1 THEN 2 ELSE v
    [] OTHER -> v
(* ---------- inputs that contradict themselves stop the run ---------- *)
RowOf(T, n) == T[CHOOSE i \in 1..Len(T) : T[i].k = n]
RunGet(f, n) == RunValue(f, n, RowOf(RunT, n).d)
RECURSIVE MatGet(_, _, _)
MatGet(f, p, n) == LET r == RowOf(MatT, n) IN PhaseValue(f, p, n, IF r.alias THEN (IF r.d = "ID" THEN p ELSE MatGet(f, p, r.d)) ELSE r.d)
Positive(a) == a[1] > 0
Known(kind, n) == Abs(n) \in (CASE kind = "pwlv" -> DOMAIN Law_pwlv \cup {1, 2} [] kind = "linv" -> DOMAIN Law_linv [] kind = "gbsv" -> DOMAIN Law_gbsv
                               [] kind = "expv" -> DOMAIN Law_expv [] kind = "gs" -> DOMAIN Law_gs [] kind = "kin" -> DOMAIN Law_kin \cup {1})
Laws == <<"pwlv", "linv", "gbsv", "expv", "gs", "kin">>
BadPhase(f, p) ==
  ~HasPhase(f, p) \/
  (LET G(n) == MatGet(f, p, n) IN
    \/ Positive(G("psi")) /\ RunGet(f, "compressible") = 0
    \/ Less(G("Slim"), G("C"))
    \/ Less(<<536924599, 1>>, G("n_vp"))
    \/ G("psi_soft") > 0 /\ RunGet(f, "compressible") = 0
    \/ G("coh_soft") = 1 /\ G("Ce") = G("C")
    \/ G("phi_soft") = 1 /\ G("phie") = G("phi")
    \/ G("psi_soft") = 1 /\ G("psie") = G("psi")
    \/ G("reac_soft") = 1 /\ G("reac_phase") >= RunGet(f, "Nb_phases")
    \/ \A i \in {"cstv", "pwlv", "linv", "gbsv", "expv"} : G(i) = 0
    \/ \E i \in 1..6 : G(Laws[i]) # 0 /\ ~Known(Laws[i], G(Laws[i]))
    \/ G("density_model") = 2 /\ G("phase_diagram") = -1)
Stops(f) == RunGet(f, "interp_stencil") \notin {1, 9} \/ \E p \in 0..RunGet(f, "Nb_phases") - 1 : BadPhase(f, p)
(* ---------- the configuration the model must receive ---------- *)
Pi180 == 18301                                                          \* pi/180 * 2^20
RowOK(r, raw, got, sc, Get(_)) ==
  CASE r.t = "int" -> got = Adjusted(r.f, raw, Get)
    [] r.t = "str" -> got = raw
    [] r.t = "real" -> CloseN(got, Sh(raw, -Unit(r.u, sc)), 4)
    [] r.t = "ang" -> CloseN(got, Norm((raw[1] \div 32768) * Pi180, raw[2] - 5), 100000)
    [] r.t = "degC" -> CloseN(Sh(Times(got, 20), Unit(r.u, sc)), Norm(20 * IntOf(raw) + 5463, 30), 100000)
RunOK(f, sc, run) == \A i \in 1..Len(RunT) : LET r == RunT[i] IN RowOK(r, RunValue(f, r.k, r.d), run[i], sc, LAMBDA n : RunGet(f, n))
FromLaw(f, p, n) == MatGet(f, p, "pwlv") # 0 /\ n \in {"npwl", "Qpwl"}   \* the flow law decides
MatOK(f, sc, p, mat) == \A i \in 1..Len(MatT) : LET r == MatT[i] IN
   \/ FromLaw(f, p, r.f)
   \/ RowOK(r, IF r.k = "-" THEN r.d ELSE PhaseValue(f, p, r.k, IF r.alias THEN (IF r.d = "ID" THEN p ELSE MatGet(f, p, r.d)) ELSE r.d), mat[i], sc, LAMBDA n : 0)
(* flow laws: dimension of each value, in ten-thousandths *)
H(u, c, sc) == c * Unit(u, sc)
CreepUnits(n, sc) == <<0, 0, 0, 0, H(DJ, 10000, sc), H(DL, 30000, sc), H(DPa, -(n[1] + n[3]), sc) + H(DL, n[2], sc) - H(DT, 10000, sc), H(DPa, 10000, sc), 0, 0>>
LawUnits(kind, num, n, sc) ==
  CASE kind \in {"pwlv", "linv", "gbsv"} -> CreepUnits(n, sc)
    [] kind = "expv" -> <<0, 0, 0, H(DPa, 10000, sc), H(DJ, 10000, sc), H(DL, 30000, sc), H(DPa, -n[1], sc) - H(DT, 10000, sc), 0>>
    [] kind = "gs" -> <<0, IF num \in {11, 12} THEN H(DL, 10000, sc) + H(DPa, n[1], sc) ELSE H(DL, n[1], sc) - H(DT, 10000, sc), H(DJ, 10000, sc), H(DJ, 10000, sc) - H(DL, 20000, sc), 0, 0>>
    [] kind = "kin" -> <<H(DL, -10000, sc), H(DL, 10000, sc) - H(DT, 10000, sc) - H(<<0, 0, 0, 1>>, 10000, sc), H(DJ, 10000, sc)>>
LawOf(kind, num) == CASE kind = "pwlv" -> Law_pwlv[num] [] kind = "linv" -> Law_linv[num] [] kind = "gbsv" -> Law_gbsv[num] [] kind = "expv" -> Law_expv[num] [] kind = "gs" -> Law_gs[num] [] kind = "kin" -> Law_kin[num]
Creep == {"pwlv", "linv", "gbsv"}
LawRef(f, kind, num, j) ==
  LET v == LawOf(kind, Abs(num)).v[j] IN
  CASE num < 0 /\ kind \in Creep /\ j = 10 -> One
    [] num < 0 /\ kind = "expv" /\ j = 1 -> <<0, 0>>
    [] kind = "pwlv" /\ j = 6 /\ Abs(num) = 40 /\ RunGet(f, "force_act_vol_ast") = 1 -> RunGet(f, "act_vol_dis_ast")
    [] kind = "linv" /\ j = 6 /\ Abs(num) = 40 /\ RunGet(f, "force_act_vol_ast") = 1 -> RunGet(f, "act_vol_dif_ast")
    [] kind = "pwlv" /\ j = 9 /\ RunGet(f, "force_melt_weak") = 1 -> RunGet(f, "melt_weak")
    [] OTHER -> v
LawOK(f, sc, p, law) == \A i \in 1..6 : \A num \in {MatGet(f, p, Laws[i])} :
   \/ num = 0 \/ (Laws[i] = "pwlv" /\ Abs(num) \in {1, 2}) \/ (Laws[i] = "kin" /\ Abs(num) = 1)
   \/ LET q == LawOf(Laws[i], Abs(num)) us == LawUnits(Laws[i], Abs(num), q.n, sc) IN
      \A j \in 1..Len(q.v) : us[j] % 10000 # 0 \/ CloseN(law[i][j], Sh(LawRef(f, Laws[i], num, j), -(us[j] \div 10000)), 100)
(* what follows from the domain and the grid *)
RowIx(T, n) == CHOOSE i \in 1..Len(T) : T[i].f = n
Span(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN <<-a[1], a[2]>> ELSE     \* b - a, to 2^-14
   LET e == IF a[2] > b[2] THEN a[2] ELSE b[2]
       S(x) == IF e - x[2] > 28 THEN 0 ELSE (x[1] \div 2) \div (2 ^ (e - x[2])) IN Norm(S(b) - S(a), e + 1)
DerivedOK(f, run, der, sc) ==
  LET R(n) == run[RowIx(RunT, n)]
      nx == R("Nx") nz == R("Nz") np == (nx - 1) * (nz - 1) * R("Nx_part") * R("Nz_part") IN
  /\ CloseN(Times(der[1], nx - 1), Span(R("xmin"), R("xmax")), 200000)
  /\ CloseN(Times(der[2], nz - 1), Span(R("zmin"), R("zmax")), 200000)
  /\ der[3] = np /\ Abs(10 * der[4] - 41 * np) <= 10
  /\ der[5] = RunGet(f, "Nb_phases")
  /\ CloseN(der[6], Sh(<<557977321, 4>>, -Unit(<<1, 2, -2, -1>>, sc)), 4)
ScaleOK(sc, s) == \A i \in 1..Len(ScaleDims) : s[i] = Sh(One, Unit(ScaleDims[i], sc))
ReadOK(f, sc, r) ==
  /\ ScaleOK(sc, r.scale) /\ RunOK(f, sc, r.run) /\ DerivedOK(f, r.run, r.der, sc)
  /\ Len(r.mat) = RunGet(f, "Nb_phases")
  /\ \A p \in 1..Len(r.mat) : MatOK(f, sc, p - 1, r.mat[p]) /\ LawOK(f, sc, p - 1, r.law[p])
====
