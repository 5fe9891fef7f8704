/* generated by tools/gen_input_table.py */
#define RUN_FIELDS \
  I(model.istep) \
  I(model.irestart) \
  I(model.writer) \
  I(model.writer_step) \
  I(model.writer_markers) \
  I(model.writer_debug) \
  S(model.writer_subfolder) \
  I(model.noisy) \
  I(model.track_T_P_x_z) \
  I(model.delete_breakpoints) \
  I(model.gnuplot_log_res) \
  S(model.import_files_dir) \
  S(model.import_file) \
  I(model.save_initial_markers) \
  I(model.load_initial_markers) \
  S(model.initial_markers_file) \
  I(model.Nx) \
  I(model.Nz) \
  R(model.xmin) \
  R(model.xmax) \
  R(model.zmin) \
  R(model.zmax) \
  I(model.balance_boundaries) \
  I(model.zero_mean_topo) \
  I(model.Nt) \
  R(model.dt) \
  R(model.Courant) \
  I(model.RK) \
  I(model.constant_dt) \
  I(model.stress_rotation) \
  R(model.dt_max) \
  R(model.dt_min) \
  R(model.dt_reduction_factor) \
  I(model.mechanical) \
  I(model.advection) \
  I(model.elastic) \
  I(model.thermal) \
  I(model.anisotropy) \
  I(model.polar) \
  I(model.finite_strain) \
  I(model.compressible) \
  I(model.density_variations) \
  I(model.kinetics) \
  I(model.out_of_plane) \
  I(model.melting) \
  R(model.penalty) \
  R(model.auto_penalty) \
  I(model.diag_scaling) \
  I(model.preconditioner) \
  R(model.lin_abs_div) \
  R(model.lin_rel_div) \
  R(model.lin_abs_mom) \
  R(model.lin_rel_mom) \
  I(model.lin_solver) \
  I(model.max_its_PH) \
  I(Nmodel.nit_max) \
  I(model.Newton) \
  I(Nmodel.Picard2Newton) \
  R(Nmodel.Picard2Newton_tol) \
  I(Nmodel.max_its_Pic) \
  I(Nmodel.let_res_grow) \
  I(model.max_its_KSP) \
  R(model.rel_tol_KSP) \
  R(Nmodel.nonlin_abs_mom) \
  R(Nmodel.nonlin_abs_div) \
  R(Nmodel.nonlin_rel_mom) \
  R(Nmodel.nonlin_rel_div) \
  R(model.min_eta) \
  R(model.max_eta) \
  R(model.eta_tol) \
  I(model.safe_mode) \
  R(model.safe_dt_div) \
  I(model.max_num_stag) \
  I(model.line_search) \
  R(model.line_search_min) \
  I(model.residual_form) \
  I(model.ani_average) \
  I(model.eta_average) \
  I(model.interp_stencil) \
  I(model.subgrid_diffusion) \
  I(model.conserv_interp) \
  I(model.direct_neighbour) \
  I(model.initial_noise) \
  I(model.marker_noise) \
  I(model.reseed_markers) \
  I(model.reseed_mode) \
  I(particles.Nx_part) \
  I(particles.Nz_part) \
  I(particles.min_part_cell) \
  I(model.shear_style) \
  I(model.periodic_x) \
  I(model.pure_shear_ALE) \
  I(model.free_surface) \
  R(model.free_surface_stab) \
  I(model.topo_update) \
  I(model.initial_cooling) \
  R(model.cooling_duration) \
  I(model.shear_heating) \
  I(model.adiab_heating) \
  I(model.surface_processes) \
  I(model.marker_aniso_angle) \
  I(model.layering) \
  I(model.chemical_diffusion) \
  I(model.chemical_production) \
  I(model.smooth_softening) \
  R(model.bkg_strain_rate) \
  R(model.bkg_div_rate) \
  R(model.bkg_pressure) \
  R(model.bkg_temperature) \
  I(model.fix_temperature) \
  R(model.surf_diff) \
  I(model.surf_ised1) \
  I(model.surf_ised2) \
  R(model.surf_sedirate) \
  R(model.surf_baselev) \
  R(model.surf_Winc) \
  R(model.surf_Vinc) \
  I(model.preload) \
  R(model.preload_sxxd) \
  R(model.preload_szzd) \
  R(model.preload_sxz) \
  I(model.therm_perturb) \
  R(model.therm_perturb_x0) \
  R(model.therm_perturb_z0) \
  R(model.therm_perturb_rad_x) \
  R(model.therm_perturb_rad_z) \
  R(model.therm_perturb_dT) \
  I(model.force_act_vol_ast) \
  R(model.act_vol_dis_ast) \
  R(model.act_vol_dif_ast) \
  I(model.force_melt_weak) \
  R(model.melt_weak) \
  R(model.user0) \
  R(model.user1) \
  R(model.user2) \
  R(model.user3) \
  R(model.user4) \
  R(model.user5) \
  R(model.user6) \
  R(model.user7) \
  R(model.user8) \
  R(model.user9) \
  I(model.diffuse_X) \
  I(model.diffuse_avg) \
  R(model.diffusion_length) \
  R(model.gx) \
  R(model.gz) \
  I(model.deformation_maps) \
  I(model.nT) \
  I(model.nE) \
  I(model.nd) \
  R(model.Tmin) \
  R(model.Tmax) \
  R(model.Emin) \
  R(model.Emax) \
  R(model.dmin) \
  R(model.dmax) \
  R(model.Pn) \
  I(model.Nb_phases) \
  R(model.dt0) \
  R(model.dt_start) \
  R(model.xmin0) \
  R(model.xmax0) \
  R(model.zmin0) \
  R(model.zmax0) \
  I(Nmodel.stagnated)
#define MAT_FIELDS \
  R(materials.rho[k]) \
  R(materials.G[k]) \
  R(materials.Cp[k]) \
  R(materials.k[k]) \
  R(materials.Qr[k]) \
  R(materials.alp[k]) \
  R(materials.bet[k]) \
  R(materials.drho[k]) \
  I(materials.melt[k]) \
  I(materials.plast[k]) \
  I(materials.yield[k]) \
  R(materials.sig_tens[k]) \
  R(materials.sig1[k]) \
  R(materials.dsig1[k]) \
  R(materials.C[k]) \
  R(materials.phi[k]) \
  R(materials.psi[k]) \
  R(materials.Slim[k]) \
  R(materials.n_vp[k]) \
  R(materials.eta_vp[k]) \
  I(materials.coh_soft[k]) \
  I(materials.phi_soft[k]) \
  I(materials.psi_soft[k]) \
  R(materials.C_end[k]) \
  R(materials.phi_end[k]) \
  R(materials.psi_end[k]) \
  R(materials.pls_start[k]) \
  R(materials.pls_end[k]) \
  I(materials.cstv[k]) \
  I(materials.pwlv[k]) \
  I(materials.linv[k]) \
  I(materials.gbsv[k]) \
  I(materials.expv[k]) \
  R(materials.eps0[k]) \
  R(materials.tau0[k]) \
  R(materials.eta0[k]) \
  R(materials.npwl[k]) \
  R(materials.Qpwl[k]) \
  R(materials.pref_pwl[k]) \
  I(materials.gs[k]) \
  R(materials.gs_ref[k]) \
  I(materials.kin[k]) \
  I(materials.reac_soft[k]) \
  I(materials.reac_phase[k]) \
  R(materials.Pr[k]) \
  R(materials.dPr[k]) \
  R(materials.tau_kin[k]) \
  R(materials.k_chem[k]) \
  I(materials.density_model[k]) \
  I(materials.phase_diagram[k]) \
  I(materials.phase_mix[k]) \
  I(materials.phase_two[k]) \
  R(materials.aniso_angle[k]) \
  R(materials.aniso_factor[k]) \
  R(materials.ani_fac_max[k]) \
  I(materials.ani_fstrain[k]) \
  R(materials.axx[k]) \
  R(materials.azz[k]) \
  R(materials.ayy[k]) \
  I(materials.transmutation[k]) \
  I(materials.transmutation_phase[k]) \
  R(materials.transmutation_temperature[k]) \
  R(materials.T0[k]) \
  R(materials.P0[k]) \
  R(materials.k_eff[k])
