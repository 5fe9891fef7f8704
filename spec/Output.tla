------------------------------- MODULE Output -------------------------------
(* What the output files of a step must contain.  Every dataset has a source quantity of the model state, a set of nodes it lives on, a physical   *)
(* dimension and the switch it depends on.  The model works in units of a characteristic viscosity, length, velocity and temperature; a value in    *)
(* the file is the model's value times the monomial of those four that its dimension demands.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Switches == {"surface", "finite", "aniso", "track"}
(* dimensions: kg, m, s, K *)
One == <<0,0,0,0>>   Len_ == <<0,1,0,0>>   Vel == <<0,1,-1,0>>   Time == <<0,0,1,0>>   Rate == <<0,0,-1,0>>   Stress == <<1,-1,-2,0>>   Visc == <<1,-1,-1,0>>   Dens == <<1,-3,0,0>>   Temp == <<0,0,0,1>>
(* exponents of (eta, L, V, T) that give a dimension *)
Expo(d) == <<d[1], d[2] + d[3] + 2 * d[1], -d[3] - d[1], d[4]>>
Shift(d, sc) == LET x == Expo(d) IN x[1] * sc[1] + x[2] * sc[2] + x[3] * sc[3] + x[4] * sc[4]     \* as a power of two, when the four scales are 2^sc
(* the derived characteristic values, by dimension *)
Units == <<Visc, Len_, Vel, Temp, Time, Rate, Stress, <<1,0,0,0>>, Dens, <<1,1,-2,0>>, <<1,2,-2,0>>, <<1,2,-3,0>>, <<0,2,-2,-1>>, <<1,1,-3,-1>>, <<1,-1,-2,0>>, <<0,1,-2,0>>>>
(* node sets *)
Size(k, n, np, nc) == LET a == n[1]  b == n[2] IN
  IF k = "cell" THEN (a-1)*(b-1) ELSE IF k = "vertex" THEN a*b ELSE IF k = "vx" THEN a*(b+1) ELSE IF k = "vz" THEN (a+1)*b ELSE IF k = "fine" THEN 4*(a-1)*(b-1)
  ELSE IF k = "x" THEN a ELSE IF k = "z" THEN b ELSE IF k = "xc" THEN a-1 ELSE IF k = "zc" THEN b-1 ELSE IF k = "xe" THEN a+1 ELSE IF k = "ze" THEN b+1 ELSE IF k = "xf" THEN 2*a-1 ELSE IF k = "zf" THEN 2*b-1 ELSE IF k = "xfc" THEN 2*a-2
  ELSE IF k = "marker" THEN np ELSE IF k = "surface marker" THEN nc ELSE -1
On(sw, c) == c = "always" \/ c \in sw
D(name, src, k, d, c) == [name |-> name, src |-> src, k |-> k, d |-> d, sw |-> c]
A == "always"
Fields == {
  D("Vertices/rho_s", "rho_s", "vertex", Dens, A), D("Centers/rho_n", "rho_n", "cell", Dens, A), D("Vertices/eta_s", "eta_phys_s", "vertex", Visc, A), D("Centers/eta_n", "eta_phys_n", "cell", Visc, A),
  D("VxNodes/Vx", "u_in", "vx", Vel, A), D("VzNodes/Vz", "v_in", "vz", Vel, A), D("Centers/P", "p_in", "cell", Stress, A),
  D("Centers/sxxd", "sxxd", "cell", Stress, A), D("Centers/szzd", "szzd", "cell", Stress, A), D("Vertices/sxz", "sxz", "vertex", Stress, A),
  D("Centers/exxd", "exxd", "cell", Rate, A), D("Centers/ezzd", "ezzd", "cell", Rate, A), D("Vertices/exz", "exz", "vertex", Rate, A),
  D("Centers/divu", "div_u", "cell", Rate, A), D("Centers/divu_el", "div_u_el", "cell", Rate, A), D("Centers/divu_pl", "div_u_pl", "cell", Rate, A), D("Centers/divu_th", "divth0_n", "cell", Rate, A), D("Centers/divu_r", "div_u_r", "cell", Rate, A),
  D("Centers/eII_el", "eII_el", "cell", Rate, A), D("Centers/eII_pl", "eII_pl", "cell", Rate, A), D("Centers/eII_pwl", "eII_pwl", "cell", Rate, A), D("Centers/eII_exp", "eII_exp", "cell", Rate, A), D("Centers/eII_lin", "eII_lin", "cell", Rate, A), D("Centers/eII_gbs", "eII_gbs", "cell", Rate, A),
  D("Centers/T", "T", "cell", Temp, A), D("Centers/d", "d_n", "cell", Len_, A), D("Centers/X", "X_n", "cell", One, A), D("Centers/phi", "phi_n", "cell", One, A), D("Centers/OverS", "OverS_n", "cell", Stress, A),
  D("Centers/friction", "fric_n", "cell", One, A), D("Centers/cohesion", "C_n", "cell", Stress, A),
  D("Centers/strain", "avg_strain", "cell", One, A), D("Centers/strain_el", "avg_strain_el", "cell", One, A), D("Centers/strain_pl", "avg_strain_pl", "cell", One, A), D("Centers/strain_pwl", "avg_strain_pwl", "cell", One, A),
  D("Centers/strain_exp", "avg_strain_exp", "cell", One, A), D("Centers/strain_lin", "avg_strain_lin", "cell", One, A), D("Centers/strain_gbs", "avg_strain_gbs", "cell", One, A),
  D("Centers/Fxx", "avg_Fxx", "cell", One, "finite"), D("Centers/Fxz", "avg_Fxz", "cell", One, "finite"), D("Centers/Fzx", "avg_Fzx", "cell", One, "finite"), D("Centers/Fzz", "avg_Fzz", "cell", One, "finite"),
  D("Centers/nx", "avg_nx", "cell", One, "aniso"), D("Centers/nz", "avg_nz", "cell", One, "aniso"), D("Centers/ani_fac", "aniso_factor_n", "cell", One, "aniso"),
  D("Centers/T0", "avg_T0", "cell", Temp, "track"), D("Centers/Tmax", "avg_Tmax", "cell", Temp, "track"), D("Centers/P0", "avg_P0", "cell", Stress, "track"), D("Centers/Pmax", "avg_Pmax", "cell", Stress, "track"),
  D("Centers/x0", "avg_x0", "cell", Len_, "track"), D("Centers/z0", "avg_z0", "cell", Len_, "track"),
  D("Centers/BCp", "BCp.type", "cell", One, A), D("Flags/tag_n", "BCp.type", "cell", One, A), D("Flags/tag_s", "BCg.type", "vertex", One, A), D("Flags/tag_u", "BCu.type", "vx", One, A), D("Flags/tag_v", "BCv.type", "vz", One, A), D("Flags/tag_t_fine", "BCt_fine.type", "fine", One, A),
  D("Model/xg_coord", "xg_coord", "x", Len_, A), D("Model/zg_coord", "zg_coord", "z", Len_, A), D("Model/xc_coord", "xc_coord", "xc", Len_, A), D("Model/zc_coord", "zc_coord", "zc", Len_, A), D("Model/xvz_coord", "xvz_coord", "xe", Len_, A), D("Model/zvx_coord", "zvx_coord", "ze", Len_, A),
  D("Topo/z_grid", "height", "x", Len_, "surface"), D("Topo/z_finer_cent", "topo_fine", "xfc", Len_, "surface"), D("Topo/Vx_grid", "topo_vx", "x", Vel, "surface"), D("Topo/Vz_grid", "topo_vz", "xe", Vel, "surface"),
  D("Topo/x_mark", "chain_x", "surface marker", Len_, "surface"), D("Topo/z_mark", "chain_z", "surface marker", Len_, "surface"), D("Topo/Vx_mark", "chain_Vx", "surface marker", Vel, "surface"), D("Topo/Vz_mark", "chain_Vz", "surface marker", Vel, "surface"), D("Topo/phase_mark", "chain_phase", "surface marker", One, "surface") }
Series == {"Time_time", "Short_time", "Work_time", "Uthermal_time", "Uelastic_time", "T_mean_time", "P_mean_time", "sxxd_mean_time", "szzd_mean_time", "sxz_mean_time", "Tii_mean_time", "exxd_mean_time", "ezzd_mean_time", "exz_mean_time", "Eii_mean_time"}
Extra == {"Model/Params", "Model/Description", "VizGrid/xviz", "VizGrid/zviz", "VizGrid/xviz_hr", "VizGrid/zviz_hr", "VizGrid/compo", "VizGrid/compo_hr", "VizGrid/compo_dual_hr",
          "Iterations/rx_abs", "Iterations/rz_abs", "Iterations/rp_abs", "Iterations/LogIsNewtonStep", "Iterations/NumberSteps"} \cup {"TimeSeries/" \o s : s \in Series}
Marks == {
  D("Particles/x", "m_x", "marker", Len_, A), D("Particles/z", "m_z", "marker", Len_, A), D("Particles/Vx", "m_Vx", "marker", Vel, A), D("Particles/Vz", "m_Vz", "marker", Vel, A), D("Particles/T", "m_T", "marker", Temp, A), D("Particles/P", "m_P", "marker", Stress, A),
  D("Particles/sxxd", "m_sxxd", "marker", Stress, A), D("Particles/sxz", "m_sxz", "marker", Stress, A), D("Particles/phase", "m_phase", "marker", One, A), D("Particles/generation", "m_generation", "marker", One, A), D("Particles/index", "index", "marker", One, A),
  D("Particles/nx", "m_nx", "marker", One, "aniso"), D("Particles/nz", "m_nz", "marker", One, "aniso") }
  \cup UNION {{ D(t[1] \o "/height", t[2] \o "height", "x", Len_, "surface"), D(t[1] \o "/vxsurf", t[2] \o "topo_vx", "x", Vel, "surface"), D(t[1] \o "/vzsurf", t[2] \o "topo_vz", "xe", Vel, "surface"),
        D(t[1] \o "/x", t[2] \o "chain_x", "surface marker", Len_, "surface"), D(t[1] \o "/z", t[2] \o "chain_z", "surface marker", Len_, "surface"), D(t[1] \o "/vx", t[2] \o "chain_Vx", "surface marker", Vel, "surface"),
        D(t[1] \o "/vz", t[2] \o "chain_Vz", "surface marker", Vel, "surface"), D(t[1] \o "/phase", t[2] \o "chain_phase", "surface marker", One, "surface") } : t \in {<<"Topo", "">>, <<"Topo_ini", "ini_">>}}
Table(file) == IF file = "model" THEN Fields ELSE Marks
Active(file, sw) == {f \in Table(file) : On(sw, f.sw)}
Names(file, sw) == {f.name : f \in Active(file, sw)} \cup (IF file = "model" THEN Extra ELSE {"Model/Params"})
Entry(file, name) == CHOOSE f \in Table(file) : f.name = name
(* header: time, width, height, Nx, Nz, cell sizes, step size *)
Params == <<Time, Len_, Len_, One, One, Len_, Len_, Time>>
(* numbers are mantissa and binary exponent *)
Infinite == {98, 99}     \* infinity, not a number
Scaled(v, k) == IF v[1] = 0 \/ v[1] \in Infinite THEN v ELSE <<v[1], v[2] + k>>
SameScaled(file, src, k) == Len(file) = Len(src) /\ \A i \in 1..Len(src) : file[i] = Scaled(src[i], k)
(* the history of the markers means nothing in the air: zero degrees Celsius and no pressure there *)
Celsius0 == <<8950579, -15>>
AirValue == [x \in {"Centers/T0", "Centers/Tmax", "Centers/P0", "Centers/Pmax"} |-> IF x \in {"Centers/T0", "Centers/Tmax"} THEN Celsius0 ELSE <<0, 0>>]
(* pictures: the marker that stands closest to the middle of a picture cell colours it, markers standing in air excepted; -1 without one *)
Weight(x, z, i, j, f) == LET a == 2 * x * f - 1000 * (2 * i + 1)  b == 2 * z * f - 1000 * (2 * j + 1)      \* x, z in thousandths of a grid cell from the corner
                         IN (2000 - (IF a < 0 THEN -a ELSE a)) * (2000 - (IF b < 0 THEN -b ELSE b))
=============================================================================
