---- MODULE InputTable ----
(* Generated by tools/gen_input_table.py from input_table.txt: do not edit. Reals are <<m, e>>, the value being m * 2^(e-30). *)
EXTENDS Integers
RunT == <<
  [f |-> "istep", k |-> "istep", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "irestart", k |-> "irestart", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "writer", k |-> "writer", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "writer_step", k |-> "writer_step", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "writer_markers", k |-> "writer_markers", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "writer_debug", k |-> "writer_debug", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "writer_subfolder", k |-> "writer_subfolder", t |-> "str", alias |-> FALSE, d |-> "./", u |-> <<0, 0, 0, 0>>],
  [f |-> "noisy", k |-> "noisy", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "track_T_P_x_z", k |-> "track_T_P_x_z", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "delete_breakpoints", k |-> "delete_breakpoints", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "gnuplot_log_res", k |-> "gnuplot_log_res", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "import_files_dir", k |-> "import_files_dir", t |-> "str", alias |-> FALSE, d |-> "../../IMPORT", u |-> <<0, 0, 0, 0>>],
  [f |-> "import_file", k |-> "import_file", t |-> "str", alias |-> FALSE, d |-> "blah.bin", u |-> <<0, 0, 0, 0>>],
  [f |-> "save_initial_markers", k |-> "save_initial_markers", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "load_initial_markers", k |-> "load_initial_markers", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "initial_markers_file", k |-> "initial_markers_file", t |-> "str", alias |-> FALSE, d |-> "markers.bin", u |-> <<0, 0, 0, 0>>],
  [f |-> "Nx", k |-> "Nx", t |-> "int", alias |-> FALSE, d |-> 10, u |-> <<0, 0, 0, 0>>],
  [f |-> "Nz", k |-> "Nz", t |-> "int", alias |-> FALSE, d |-> 10, u |-> <<0, 0, 0, 0>>],
  [f |-> "xmin", k |-> "xmin", t |-> "real", alias |-> FALSE, d |-> <<-536870912, 1>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "xmax", k |-> "xmax", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "zmin", k |-> "zmin", t |-> "real", alias |-> FALSE, d |-> <<-536870912, 1>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "zmax", k |-> "zmax", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "balance_boundaries", k |-> "balance_boundaries", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "zero_mean_topo", k |-> "zero_mean_topo", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "Nt", k |-> "Nt", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "dt", k |-> "dt", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 1, 0>>],
  [f |-> "Courant", k |-> "Courant", t |-> "real", alias |-> FALSE, d |-> <<536870912, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "RK", k |-> "RK", t |-> "int", alias |-> FALSE, d |-> 4, u |-> <<0, 0, 0, 0>>],
  [f |-> "constant_dt", k |-> "constant_dt", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "stress_rotation", k |-> "stress_rotation", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "dt_max", k |-> "dt_max", t |-> "real", alias |-> FALSE, d |-> <<727595761, 67>>, u |-> <<0, 0, 1, 0>>],
  [f |-> "dt_min", k |-> "dt_min", t |-> "real", alias |-> FALSE, d |-> <<-727595761, 67>>, u |-> <<0, 0, 1, 0>>],
  [f |-> "dt_reduction_factor", k |-> "dt_reduction_factor", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "mechanical", k |-> "mechanical", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "advection", k |-> "advection", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "elastic", k |-> "elastic", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "thermal", k |-> "thermal", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "anisotropy", k |-> "anisotropy", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "polar", k |-> "polar", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "finite_strain", k |-> "finite_strain", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "compressible", k |-> "compressible", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "density_variations", k |-> "density_variations", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "kinetics", k |-> "kinetics", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "out_of_plane", k |-> "out_of_plane", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "melting", k |-> "melting", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "penalty", k |-> "penalty", t |-> "real", alias |-> FALSE, d |-> <<1048576000, 10>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "auto_penalty", k |-> "auto_penalty", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "diag_scaling", k |-> "diag_scaling", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "preconditioner", k |-> "preconditioner", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "lin_abs_div", k |-> "lin_abs_div", t |-> "real", alias |-> FALSE, d |-> <<576460752, -29>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "lin_rel_div", k |-> "lin_rel_div", t |-> "real", alias |-> FALSE, d |-> <<703687442, -16>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "lin_abs_mom", k |-> "lin_abs_mom", t |-> "real", alias |-> FALSE, d |-> <<576460752, -29>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "lin_rel_mom", k |-> "lin_rel_mom", t |-> "real", alias |-> FALSE, d |-> <<703687442, -16>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "lin_solver", k |-> "lin_solver", t |-> "int", alias |-> FALSE, d |-> 2, u |-> <<0, 0, 0, 0>>],
  [f |-> "max_its_PH", k |-> "max_its_PH", t |-> "int", alias |-> FALSE, d |-> 10, u |-> <<0, 0, 0, 0>>],
  [f |-> "nit_max", k |-> "nit_max", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "Newton", k |-> "Newton", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "Picard2Newton", k |-> "Picard2Newton", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "Picard2Newton_tol", k |-> "Picard2Newton_tol", t |-> "real", alias |-> FALSE, d |-> <<858993459, -3>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "max_its_Pic", k |-> "max_its_Pic", t |-> "int", alias |-> FALSE, d |-> 10, u |-> <<0, 0, 0, 0>>],
  [f |-> "let_res_grow", k |-> "let_res_grow", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "max_its_KSP", k |-> "max_its_KSP", t |-> "int", alias |-> FALSE, d |-> 100, u |-> <<0, 0, 0, 0>>],
  [f |-> "rel_tol_KSP", k |-> "rel_tol_KSP", t |-> "real", alias |-> FALSE, d |-> <<879609302, -13>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "nonlin_abs_mom", k |-> "nonlin_abs_mom", t |-> "real", alias |-> FALSE, d |-> <<562949953, -19>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "nonlin_abs_div", k |-> "nonlin_abs_div", t |-> "real", alias |-> FALSE, d |-> <<562949953, -19>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "nonlin_rel_mom", k |-> "nonlin_rel_mom", t |-> "real", alias |-> FALSE, d |-> <<562949953, -19>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "nonlin_rel_div", k |-> "nonlin_rel_div", t |-> "real", alias |-> FALSE, d |-> <<562949953, -19>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "min_eta", k |-> "min_eta", t |-> "real", alias |-> FALSE, d |-> <<931322575, 60>>, u |-> <<1, -1, -1, 0>>],
  [f |-> "max_eta", k |-> "max_eta", t |-> "real", alias |-> FALSE, d |-> <<888178420, 80>>, u |-> <<1, -1, -1, 0>>],
  [f |-> "eta_tol", k |-> "eta_tol", t |-> "real", alias |-> FALSE, d |-> <<781250000, 37>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "safe_mode", k |-> "safe_mode", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "safe_dt_div", k |-> "safe_dt_div", t |-> "real", alias |-> FALSE, d |-> <<671088640, 3>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "max_num_stag", k |-> "max_num_stag", t |-> "int", alias |-> FALSE, d |-> 3, u |-> <<0, 0, 0, 0>>],
  [f |-> "line_search", k |-> "line_search", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "line_search_min", k |-> "line_search_min", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "residual_form", k |-> "residual_form", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "ani_average", k |-> "ani_average", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "eta_average", k |-> "eta_average", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "interp_stencil", k |-> "interp_stencil", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "subgrid_diffusion", k |-> "subgrid_diffusion", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "conserv_interp", k |-> "conserv_interp", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "direct_neighbour", k |-> "direct_neighbour", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "initial_noise", k |-> "initial_noise", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "marker_noise", k |-> "marker_noise", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "reseed_markers", k |-> "reseed_markers", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "reseed_mode", k |-> "reseed_mode", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "Nx_part", k |-> "Nx_part", t |-> "int", alias |-> FALSE, d |-> 4, u |-> <<0, 0, 0, 0>>],
  [f |-> "Nz_part", k |-> "Nz_part", t |-> "int", alias |-> FALSE, d |-> 4, u |-> <<0, 0, 0, 0>>],
  [f |-> "min_part_cell", k |-> "min_part_cell", t |-> "int", alias |-> FALSE, d |-> 16, u |-> <<0, 0, 0, 0>>],
  [f |-> "shear_style", k |-> "shear_style", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "periodic_x", k |-> "periodic_x", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "pure_shear_ALE", k |-> "pure_shear_ALE", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "free_surface", k |-> "free_surface", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "free_surface_stab", k |-> "free_surface_stab", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "topo_update", k |-> "topo_update", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "initial_cooling", k |-> "initial_cooling", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "cooling_duration", k |-> "cooling_duration", t |-> "real", alias |-> FALSE, d |-> <<940489769, 55>>, u |-> <<0, 0, 1, 0>>],
  [f |-> "shear_heating", k |-> "shear_heating", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "adiab_heating", k |-> "adiab_heating", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "surface_processes", k |-> "surface_processes", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "marker_aniso_angle", k |-> "marker_aniso_angle", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "layering", k |-> "layering", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "chemical_diffusion", k |-> "chemical_diffusion", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "chemical_production", k |-> "chemical_production", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "smooth_softening", k |-> "smooth_softening", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "bkg_strain_rate", k |-> "bkg_strain_rate", t |-> "real", alias |-> FALSE, d |-> <<680564734, -99>>, u |-> <<0, 0, -1, 0>>],
  [f |-> "bkg_div_rate", k |-> "bkg_div_rate", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, -1, 0>>],
  [f |-> "bkg_pressure", k |-> "bkg_pressure", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "bkg_temperature", k |-> "bkg_temperature", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 1>>],
  [f |-> "fix_temperature", k |-> "fix_temperature", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "surf_diff", k |-> "surf_diff", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 2, -1, 0>>],
  [f |-> "surf_ised1", k |-> "surf_ised1", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "surf_ised2", k |-> "surf_ised2", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "surf_sedirate", k |-> "surf_sedirate", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, -1, 0>>],
  [f |-> "surf_baselev", k |-> "surf_baselev", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "surf_Winc", k |-> "surf_Winc", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "surf_Vinc", k |-> "surf_Vinc", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, -1, 0>>],
  [f |-> "preload", k |-> "preload", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "preload_sxxd", k |-> "preload_sxxd", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "preload_szzd", k |-> "preload_szzd", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "preload_sxz", k |-> "preload_sxz", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "therm_perturb", k |-> "therm_perturb", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "therm_perturb_x0", k |-> "therm_perturb_x0", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "therm_perturb_z0", k |-> "therm_perturb_z0", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "therm_perturb_rad_x", k |-> "therm_perturb_rad_x", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "therm_perturb_rad_z", k |-> "therm_perturb_rad_z", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "therm_perturb_dT", k |-> "therm_perturb_dT", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 1>>],
  [f |-> "force_act_vol_ast", k |-> "force_act_vol_ast", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "act_vol_dis_ast", k |-> "act_vol_dis_ast", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "act_vol_dif_ast", k |-> "act_vol_dif_ast", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "force_melt_weak", k |-> "force_melt_weak", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "melt_weak", k |-> "melt_weak", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user0", k |-> "user0", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user1", k |-> "user1", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user2", k |-> "user2", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user3", k |-> "user3", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user4", k |-> "user4", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user5", k |-> "user5", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user6", k |-> "user6", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user7", k |-> "user7", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user8", k |-> "user8", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "user9", k |-> "user9", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "diffuse_X", k |-> "diffuse_X", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "diffuse_avg", k |-> "diffuse_avg", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "diffusion_length", k |-> "diffusion_length", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "gx", k |-> "gx", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, -2, 0>>],
  [f |-> "gz", k |-> "gz", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 1, -2, 0>>],
  [f |-> "deformation_maps", k |-> "deformation_maps", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "nT", k |-> "nT", t |-> "int", alias |-> FALSE, d |-> 11, u |-> <<0, 0, 0, 0>>],
  [f |-> "nE", k |-> "nE", t |-> "int", alias |-> FALSE, d |-> 11, u |-> <<0, 0, 0, 0>>],
  [f |-> "nd", k |-> "nd", t |-> "int", alias |-> FALSE, d |-> 11, u |-> <<0, 0, 0, 0>>],
  [f |-> "Tmin", k |-> "Tmin", t |-> "degC", alias |-> FALSE, d |-> <<838860800, 7>>, u |-> <<0, 0, 0, 1>>],
  [f |-> "Tmax", k |-> "Tmax", t |-> "degC", alias |-> FALSE, d |-> <<1048576000, 10>>, u |-> <<0, 0, 0, 1>>],
  [f |-> "Emin", k |-> "Emin", t |-> "real", alias |-> FALSE, d |-> <<-1006632960, 5>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "Emax", k |-> "Emax", t |-> "real", alias |-> FALSE, d |-> <<-536870912, 3>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "dmin", k |-> "dmin", t |-> "real", alias |-> FALSE, d |-> <<-939524096, 3>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "dmax", k |-> "dmax", t |-> "real", alias |-> FALSE, d |-> <<-536870912, 2>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "Pn", k |-> "Pn", t |-> "real", alias |-> FALSE, d |-> <<1000000000, 29>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "Nb_phases", k |-> "Nb_phases", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "dt0", k |-> "dt", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 1, 0>>],
  [f |-> "dt_start", k |-> "dt", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 1, 0>>],
  [f |-> "xmin0", k |-> "xmin", t |-> "real", alias |-> FALSE, d |-> <<-536870912, 1>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "xmax0", k |-> "xmax", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "zmin0", k |-> "zmin", t |-> "real", alias |-> FALSE, d |-> <<-536870912, 1>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "zmax0", k |-> "zmax", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "stagnated", k |-> "-", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>] >>
MatT == <<
  [f |-> "rho", k |-> "rho", t |-> "real", alias |-> FALSE, d |-> <<707788800, 12>>, u |-> <<1, -3, 0, 0>>],
  [f |-> "G", k |-> "G", t |-> "real", alias |-> FALSE, d |-> <<625000000, 34>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "Cp", k |-> "Cp", t |-> "real", alias |-> FALSE, d |-> <<1048576000, 10>>, u |-> <<0, 2, -2, -1>>],
  [f |-> "k", k |-> "k", t |-> "real", alias |-> FALSE, d |-> <<562949953, -19>>, u |-> <<1, 1, -3, -1>>],
  [f |-> "Qr", k |-> "Qr", t |-> "real", alias |-> FALSE, d |-> <<680564734, -99>>, u |-> <<1, -1, -3, 0>>],
  [f |-> "alp", k |-> "alp", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, -1>>],
  [f |-> "bet", k |-> "bet", t |-> "real", alias |-> FALSE, d |-> <<584600655, -132>>, u |-> <<-1, 1, 2, 0>>],
  [f |-> "drho", k |-> "drho", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<1, -3, 0, 0>>],
  [f |-> "melt", k |-> "melt", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "plast", k |-> "plast", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "yield", k |-> "yield", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "sig_tens", k |-> "sig_tens", t |-> "real", alias |-> FALSE, d |-> <<640000000, 24>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "sig1", k |-> "sig1", t |-> "real", alias |-> FALSE, d |-> <<640000000, 24>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "dsig1", k |-> "dsig1", t |-> "real", alias |-> FALSE, d |-> <<640000000, 24>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "C", k |-> "C", t |-> "real", alias |-> FALSE, d |-> <<640000000, 24>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "phi", k |-> "phi", t |-> "ang", alias |-> FALSE, d |-> <<1006632960, 5>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "psi", k |-> "psi", t |-> "ang", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "Slim", k |-> "Slim", t |-> "real", alias |-> FALSE, d |-> <<1054219794, 299>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "n_vp", k |-> "n_vp", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "eta_vp", k |-> "eta_vp", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<1, -1, -1, 0>>],
  [f |-> "coh_soft", k |-> "coh_soft", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "phi_soft", k |-> "phi_soft", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "psi_soft", k |-> "psi_soft", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "C_end", k |-> "Ce", t |-> "real", alias |-> TRUE, d |-> "C", u |-> <<1, -1, -2, 0>>],
  [f |-> "phi_end", k |-> "phie", t |-> "ang", alias |-> TRUE, d |-> "phi", u |-> <<0, 0, 0, 0>>],
  [f |-> "psi_end", k |-> "psie", t |-> "ang", alias |-> TRUE, d |-> "psi", u |-> <<0, 0, 0, 0>>],
  [f |-> "pls_start", k |-> "plss", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "pls_end", k |-> "plse", t |-> "real", alias |-> FALSE, d |-> <<536870912, 2>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "cstv", k |-> "cstv", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "pwlv", k |-> "pwlv", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "linv", k |-> "linv", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "gbsv", k |-> "gbsv", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "expv", k |-> "expv", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "eps0", k |-> "eps0", t |-> "real", alias |-> FALSE, d |-> <<755578637, -46>>, u |-> <<0, 0, -1, 0>>],
  [f |-> "tau0", k |-> "tau0", t |-> "real", alias |-> FALSE, d |-> <<1024000000, 21>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "eta0", k |-> "eta0", t |-> "real", alias |-> FALSE, d |-> <<727595761, 67>>, u |-> <<1, -1, -1, 0>>],
  [f |-> "npwl", k |-> "npwl", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "Qpwl", k |-> "Qpwl", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "pref_pwl", k |-> "pref_pwl", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "gs", k |-> "gs", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "gs_ref", k |-> "gs_ref", t |-> "real", alias |-> FALSE, d |-> <<549755814, -8>>, u |-> <<0, 1, 0, 0>>],
  [f |-> "kin", k |-> "kin", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "reac_soft", k |-> "reac_soft", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "reac_phase", k |-> "reac_phase", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "Pr", k |-> "Pr", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "dPr", k |-> "dPr", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "tau_kin", k |-> "tau_kin", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 0, 1, 0>>],
  [f |-> "k_chem", k |-> "k_chem", t |-> "real", alias |-> FALSE, d |-> <<0, 0>>, u |-> <<0, 2, -1, 0>>],
  [f |-> "density_model", k |-> "density_model", t |-> "int", alias |-> FALSE, d |-> 3, u |-> <<0, 0, 0, 0>>],
  [f |-> "phase_diagram", k |-> "phase_diagram", t |-> "int", alias |-> FALSE, d |-> -1, u |-> <<0, 0, 0, 0>>],
  [f |-> "phase_mix", k |-> "phase_mix", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "phase_two", k |-> "phase_mix", t |-> "int", alias |-> TRUE, d |-> "ID", u |-> <<0, 0, 0, 0>>],
  [f |-> "aniso_angle", k |-> "aniso_angle", t |-> "ang", alias |-> FALSE, d |-> <<754974720, 7>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "aniso_factor", k |-> "aniso_factor", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "ani_fac_max", k |-> "ani_fac_max", t |-> "real", alias |-> FALSE, d |-> <<1048576000, 10>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "ani_fstrain", k |-> "ani_fstrain", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "axx", k |-> "axx", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "azz", k |-> "azz", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "ayy", k |-> "ayy", t |-> "real", alias |-> FALSE, d |-> <<536870912, 1>>, u |-> <<0, 0, 0, 0>>],
  [f |-> "transmutation", k |-> "transmutation", t |-> "int", alias |-> FALSE, d |-> 0, u |-> <<0, 0, 0, 0>>],
  [f |-> "transmutation_phase", k |-> "transmutation_phase", t |-> "int", alias |-> FALSE, d |-> 1, u |-> <<0, 0, 0, 0>>],
  [f |-> "transmutation_temperature", k |-> "transmutation_temperature", t |-> "real", alias |-> FALSE, d |-> <<681574400, 11>>, u |-> <<0, 0, 0, 1>>],
  [f |-> "T0", k |-> "-", t |-> "real", alias |-> FALSE, d |-> <<572837069, 9>>, u |-> <<0, 0, 0, 1>>],
  [f |-> "P0", k |-> "-", t |-> "real", alias |-> FALSE, d |-> <<819200000, 17>>, u |-> <<1, -1, -2, 0>>],
  [f |-> "k_eff", k |-> "k", t |-> "real", alias |-> FALSE, d |-> <<562949953, -19>>, u |-> <<1, 1, -3, -1>>] >>
(* n: hundredths of the stress, grain-size and fugacity exponents *)
Law_pwlv == [i \in {10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 40, 41, 42, 43, 44, 45, 46} |-> CASE i = 10 -> [n |-> <<33000, 0, 0>>, v |-> <<<<536870912, 1>>, <<885837005, 2>>, <<0, 0>>, <<0, 0>>, <<763904000, 18>>, <<0, 0>>, <<656784014, -84>>, <<0, 0>>, <<0, 0>>, <<647544102, -1>>>>]
  [] i = 11 -> [n |-> <<47000, 0, 0>>, v |-> <<<<536870912, 1>>, <<630823322, 3>>, <<0, 0>>, <<0, 0>>, <<993280000, 19>>, <<0, 0>>, <<670954415, -90>>, <<0, 0>>, <<0, 0>>, <<639190927, -1>>>>]
  [] i = 12 -> [n |-> <<30000, 0, 0>>, v |-> <<<<536870912, 1>>, <<805306368, 2>>, <<0, 0>>, <<0, 0>>, <<565248000, 19>>, <<0, 0>>, <<633825300, -64>>, <<0, 0>>, <<0, 0>>, <<650372789, -1>>>>]
  [] i = 13 -> [n |-> <<23000, 0, 0>>, v |-> <<<<536870912, 1>>, <<617401549, 2>>, <<0, 0>>, <<0, 0>>, <<630784000, 18>>, <<0, 0>>, <<784807562, -57>>, <<0, 0>>, <<0, 0>>, <<659932978, -1>>>>]
  [] i = 14 -> [n |-> <<53000, 0, 0>>, v |-> <<<<536870912, 1>>, <<711353958, 3>>, <<0, 0>>, <<0, 0>>, <<835584000, 17>>, <<0, 0>>, <<543624220, -102>>, <<0, 0>>, <<0, 0>>, <<636980179, -1>>>>]
  [] i = 15 -> [n |-> <<47000, 0, 0>>, v |-> <<<<536870912, 1>>, <<630823322, 3>>, <<0, 0>>, <<0, 0>>, <<608256000, 19>>, <<0, 0>>, <<822927129, -82>>, <<0, 0>>, <<0, 0>>, <<639190927, -1>>>>]
  [] i = 16 -> [n |-> <<31000, 0, 0>>, v |-> <<<<536870912, 1>>, <<832149914, 2>>, <<0, 0>>, <<0, 0>>, <<995328000, 18>>, <<0, 0>>, <<636835970, -68>>, <<0, 0>>, <<0, 0>>, <<649367659, -1>>>>]
  [] i = 17 -> [n |-> <<42000, 0, 0>>, v |-> <<<<536870912, 1>>, <<563714458, 3>>, <<0, 0>>, <<0, 0>>, <<911360000, 19>>, <<0, 0>>, <<559883241, -69>>, <<0, 0>>, <<0, 0>>, <<641523996, -1>>>>]
  [] i = 18 -> [n |-> <<47000, 0, 0>>, v |-> <<<<536870912, 1>>, <<630823322, 3>>, <<0, 0>>, <<0, 0>>, <<608256000, 19>>, <<0, 0>>, <<822927129, -82>>, <<0, 0>>, <<0, 0>>, <<639190927, -1>>>>]
  [] i = 19 -> [n |-> <<30000, 0, 0>>, v |-> <<<<536870912, 1>>, <<805306368, 2>>, <<0, 0>>, <<0, 0>>, <<729088000, 19>>, <<0, 0>>, <<962570916, -51>>, <<0, 0>>, <<0, 0>>, <<650372789, -1>>>>]
  [] i = 20 -> [n |-> <<22200, 0, 0>>, v |-> <<<<536870912, 1>>, <<595926712, 2>>, <<0, 0>>, <<0, 0>>, <<993280000, 19>>, <<0, 0>>, <<629423084, -21>>, <<0, 0>>, <<0, 0>>, <<661421936, -1>>>>]
  [] i = 21 -> [n |-> <<35000, 0, 0>>, v |-> <<<<536870912, 1>>, <<939524096, 2>>, <<0, 0>>, <<0, 0>>, <<634880000, 19>>, <<0, 0>>, <<811296384, -76>>, <<0, 0>>, <<0, 0>>, <<645933231, -1>>>>]
  [] i = 22 -> [n |-> <<27200, 0, 0>>, v |-> <<<<536870912, 1>>, <<730144440, 2>>, <<0, 0>>, <<0, 0>>, <<548864000, 18>>, <<0, 0>>, <<593795937, -76>>, <<0, 0>>, <<0, 0>>, <<653590793, -1>>>>]
  [] i = 23 -> [n |-> <<32000, 0, 0>>, v |-> <<<<536870912, 1>>, <<858993459, 2>>, <<0, 0>>, <<0, 0>>, <<974848000, 18>>, <<0, 0>>, <<836933350, -75>>, <<0, 0>>, <<0, 0>>, <<648426739, -1>>>>]
  [] i = 24 -> [n |-> <<180000, 0, 0>>, v |-> <<<<536870912, 1>>, <<603979776, 5>>, <<0, 0>>, <<0, 0>>, <<835584000, 16>>, <<0, 0>>, <<799167629, -458>>, <<0, 0>>, <<0, 0>>, <<624898908, -1>>>>]
  [] i = 25 -> [n |-> <<40000, 0, 0>>, v |-> <<<<536870912, 1>>, <<536870912, 3>>, <<0, 0>>, <<0, 0>>, <<882688000, 19>>, <<0, 0>>, <<644437057, -76>>, <<0, 0>>, <<0, 0>>, <<642623465, -1>>>>]
  [] i = 26 -> [n |-> <<24000, 0, 0>>, v |-> <<<<536870912, 1>>, <<644245094, 2>>, <<0, 0>>, <<0, 0>>, <<655360000, 18>>, <<0, 0>>, <<985647859, -61>>, <<0, 0>>, <<0, 0>>, <<658215571, -1>>>>]
  [] i = 27 -> [n |-> <<24000, 0, 0>>, v |-> <<<<536870912, 1>>, <<644245094, 2>>, <<0, 0>>, <<0, 0>>, <<638976000, 18>>, <<0, 0>>, <<1056507547, -65>>, <<0, 0>>, <<0, 0>>, <<658215571, -1>>>>]
  [] i = 28 -> [n |-> <<40000, 0, 0>>, v |-> <<<<536870912, 1>>, <<536870912, 3>>, <<0, 0>>, <<0, 0>>, <<552960000, 18>>, <<0, 0>>, <<562835128, -116>>, <<0, 0>>, <<0, 0>>, <<642623465, -1>>>>]
  [] i = 29 -> [n |-> <<37000, 0, 0>>, v |-> <<<<0, 0>>, <<993211187, 2>>, <<0, 0>>, <<0, 0>>, <<999424000, 18>>, <<0, 0>>, <<576594182, -86>>, <<0, 0>>, <<0, 0>>, <<536870912, 1>>>>]
  [] i = 30 -> [n |-> <<30000, 0, 0>>, v |-> <<<<536870912, 1>>, <<805306368, 2>>, <<0, 0>>, <<0, 0>>, <<663552000, 20>>, <<0, 0>>, <<705362218, -17>>, <<0, 0>>, <<0, 0>>, <<650372789, -1>>>>]
  [] i = 31 -> [n |-> <<47000, 0, 0>>, v |-> <<<<536870912, 1>>, <<630823322, 3>>, <<0, 0>>, <<0, 0>>, <<778240000, 20>>, <<0, 0>>, <<985672618, -61>>, <<0, 0>>, <<0, 0>>, <<639190927, -1>>>>]
  [] i = 32 -> [n |-> <<30000, 0, 0>>, v |-> <<<<536870912, 1>>, <<805306368, 2>>, <<0, 0>>, <<0, 0>>, <<962560000, 18>>, <<0, 0>>, <<626354084, -64>>, <<0, 0>>, <<0, 0>>, <<650372789, -1>>>>]
  [] i = 33 -> [n |-> <<22200, 0, 0>>, v |-> <<<<536870912, 1>>, <<595926712, 2>>, <<0, 0>>, <<0, 0>>, <<993280000, 19>>, <<703687442, -16>>, <<629423084, -21>>, <<0, 0>>, <<0, 0>>, <<661421936, -1>>>>]
  [] i = 34 -> [n |-> <<33000, 0, 0>>, v |-> <<<<536870912, 1>>, <<885837005, 2>>, <<0, 0>>, <<0, 0>>, <<763904000, 18>>, <<0, 0>>, <<656784014, -84>>, <<0, 0>>, <<838860800, 6>>, <<647544102, -1>>>>]
  [] i = 40 -> [n |-> <<35000, 0, 0>>, v |-> <<<<536870912, 1>>, <<939524096, 2>>, <<0, 0>>, <<0, 0>>, <<542720000, 20>>, <<774056186, -16>>, <<1063854721, -53>>, <<0, 0>>, <<0, 0>>, <<645933231, -1>>>>]
  [] i = 41 -> [n |-> <<35000, 0, 12000>>, v |-> <<<<536870912, 1>>, <<939524096, 2>>, <<0, 0>>, <<644245094, 1>>, <<983040000, 19>>, <<774056186, -16>>, <<943519262, -87>>, <<1000000000, 30>>, <<0, 0>>, <<645933231, -1>>>>]
  [] i = 42 -> [n |-> <<35000, 0, 0>>, v |-> <<<<536870912, 1>>, <<939524096, 2>>, <<0, 0>>, <<0, 0>>, <<544768000, 20>>, <<0, 0>>, <<971744245, -55>>, <<0, 0>>, <<0, 0>>, <<645933231, -1>>>>]
  [] i = 43 -> [n |-> <<40000, 0, 0>>, v |-> <<<<536870912, 1>>, <<536870912, 3>>, <<0, 0>>, <<0, 0>>, <<964608000, 19>>, <<0, 0>>, <<632335811, -68>>, <<0, 0>>, <<0, 0>>, <<642623465, -1>>>>]
  [] i = 44 -> [n |-> <<30000, 0, 0>>, v |-> <<<<536870912, 1>>, <<805306368, 2>>, <<0, 0>>, <<0, 0>>, <<1064960000, 19>>, <<0, 0>>, <<755578637, -46>>, <<0, 0>>, <<0, 0>>, <<650372789, -1>>>>]
  [] i = 45 -> [n |-> <<35000, 0, 0>>, v |-> <<<<536870912, 1>>, <<939524096, 2>>, <<0, 0>>, <<0, 0>>, <<1064960000, 19>>, <<0, 0>>, <<990352031, -59>>, <<0, 0>>, <<0, 0>>, <<645933231, -1>>>>]
  [] i = 46 -> [n |-> <<58000, 0, 0>>, v |-> <<<<536870912, 1>>, <<778462822, 3>>, <<0, 0>>, <<0, 0>>, <<576716800, 15>>, <<0, 0>>, <<624856256, -133>>, <<0, 0>>, <<0, 0>>, <<635491607, -1>>>>]]
Law_linv == [i \in {1, 15, 19, 25, 40, 41} |-> CASE i = 1 -> [n |-> <<33000, 0, 0>>, v |-> <<<<536870912, 1>>, <<885837005, 2>>, <<0, 0>>, <<0, 0>>, <<763904000, 18>>, <<0, 0>>, <<656784014, -84>>, <<0, 0>>, <<0, 0>>, <<647544102, -1>>>>]
  [] i = 15 -> [n |-> <<11000, 33000, 0>>, v |-> <<<<536870912, 1>>, <<590558003, 1>>, <<885837005, 2>>, <<0, 0>>, <<819200000, 18>>, <<0, 0>>, <<847691821, -62>>, <<0, 0>>, <<0, 0>>, <<706528326, -1>>>>]
  [] i = 19 -> [n |-> <<10000, 30000, 0>>, v |-> <<<<536870912, 1>>, <<536870912, 1>>, <<805306368, 2>>, <<0, 0>>, <<696320000, 18>>, <<0, 0>>, <<1016534087, -74>>, <<0, 0>>, <<0, 0>>, <<715827876, -1>>>>]
  [] i = 25 -> [n |-> <<10000, 30000, 0>>, v |-> <<<<536870912, 1>>, <<536870912, 1>>, <<805306368, 2>>, <<0, 0>>, <<548864000, 19>>, <<0, 0>>, <<623377086, -62>>, <<0, 0>>, <<0, 0>>, <<715827876, -1>>>>]
  [] i = 40 -> [n |-> <<10000, 30000, 0>>, v |-> <<<<536870912, 1>>, <<536870912, 1>>, <<805306368, 2>>, <<0, 0>>, <<768000000, 19>>, <<562949953, -17>>, <<906694365, -49>>, <<0, 0>>, <<0, 0>>, <<715827876, -1>>>>]
  [] i = 41 -> [n |-> <<10000, 30000, 10000>>, v |-> <<<<536870912, 1>>, <<536870912, 1>>, <<805306368, 2>>, <<536870912, 1>>, <<768000000, 19>>, <<985162418, -17>>, <<1014120480, -75>>, <<1000000000, 30>>, <<0, 0>>, <<715827876, -1>>>>]]
Law_gbsv == [i \in {40, 41} |-> CASE i = 40 -> [n |-> <<35000, 20000, 0>>, v |-> <<<<536870912, 1>>, <<939524096, 2>>, <<536870912, 2>>, <<0, 0>>, <<819200000, 19>>, <<0, 0>>, <<552958846, -96>>, <<0, 0>>, <<0, 0>>, <<645933231, -1>>>>]
  [] i = 41 -> [n |-> <<35000, 20000, 0>>, v |-> <<<<536870912, 1>>, <<939524096, 2>>, <<536870912, 2>>, <<0, 0>>, <<614400000, 20>>, <<0, 0>>, <<953273251, -74>>, <<0, 0>>, <<0, 0>>, <<645933231, -1>>>>]]
Law_expv == [i \in {25, 40} |-> CASE i = 25 -> [n |-> <<20000, 0, 0>>, v |-> <<<<536870912, 1>>, <<536870912, 2>>, <<858993459, -2>>, <<614437500, 34>>, <<882688000, 19>>, <<0, 0>>, <<870455736, -28>>, <<536870912, 2>>>>]
  [] i = 40 -> [n |-> <<0, 0, 0>>, v |-> <<<<536870912, 1>>, <<536870912, 2>>, <<858993459, -3>>, <<1062500000, 33>>, <<552960000, 20>>, <<0, 0>>, <<556640625, 40>>, <<0, 0>>>>]]
Law_gs == [i \in {9, 10, 11, 12, 40, 41, 42} |-> CASE i = 9 -> [n |-> <<30000, 30000, 0>>, v |-> <<<<805306368, 2>>, <<720575940, -28>>, <<716800000, 18>>, <<536870912, 1>>, <<843314869, 2>>, <<687194767, -6>>>>]
  [] i = 10 -> [n |-> <<30000, 30000, 0>>, v |-> <<<<805306368, 2>>, <<720575940, -28>>, <<716800000, 18>>, <<536870912, 1>>, <<843314869, 2>>, <<858993459, -3>>>>]
  [] i = 11 -> [n |-> <<11400, 11400, 0>>, v |-> <<<<612032840, 1>>, <<925720576, 14>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>]
  [] i = 12 -> [n |-> <<9767, 9767, 0>>, v |-> <<<<1048723640, 0>>, <<648380447, 9>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>]
  [] i = 40 -> [n |-> <<20000, 20000, 0>>, v |-> <<<<536870912, 2>>, <<699823353, -30>>, <<819200000, 18>>, <<858993459, -3>>, <<654821451, 1>>, <<858993459, -3>>>>]
  [] i = 41 -> [n |-> <<40000, 40000, 0>>, v |-> <<<<536870912, 3>>, <<615349045, -60>>, <<614400000, 19>>, <<858993459, -3>>, <<654821451, 1>>, <<858993459, -3>>>>]
  [] i = 42 -> [n |-> <<32000, 32000, 0>>, v |-> <<<<858993459, 2>>, <<549202040, -52>>, <<634880000, 20>>, <<751619277, 1>>, <<843289985, 2>>, <<687194767, -6>>>>]]
Law_kin == [i \in {9} |-> CASE i = 9 -> [n |-> <<0, 0, 0>>, v |-> <<<<548864000, 16>>, <<794568950, -2>>, <<995328000, 18>>>>]]
====
