/* Material state of a small grid.  A case is a list of settings, calls and one "end":
     grid|layered Nx Nz | p NAME value (model) | s NAME value (scales) | m NAME n values (materials, per phase) | f NAME values (mesh field, by name) | c cell types, vertex types
     w n then per phase cell fractions, vertex fractions | k n: x z strain of each marker | t phase-diagram tables | call NAME | get field,field,.. | val (point functions) */
#include "h.h"
#include "dump.h"
#define R(f) {#f, offsetof(mat_prop, f), 'd'}
#define Z(f) {#f, offsetof(mat_prop, f), 'i'}
#include <stddef.h>
typedef struct { const char *n; size_t o; char t; } mem;
static mem MAT[] = { R(eta0), R(rho), R(G), R(Cp), R(C), R(phi), R(psi), R(Slim), R(alp), R(bet), R(T0), R(P0), R(drho), R(tpwl), R(Qpwl), R(Vpwl), R(npwl), R(mpwl), R(Apwl), R(apwl), R(fpwl), R(rpwl), R(Fpwl), R(pref_pwl),
  R(Qexp), R(Sexp), R(Eexp), R(Gexp), R(nexp), R(Qlin), R(Vlin), R(nlin), R(mlin), R(Alin), R(alin), R(flin), R(rlin), R(Flin), R(Qgbs), R(Vgbs), R(ngbs), R(mgbs), R(Agbs), R(agbs), R(fgbs), R(rgbs), R(Fgbs), R(gs_ref),
  R(C_end), R(phi_end), R(psi_end), R(pls_start), R(pls_end), R(eta_vp), R(n_vp), R(Pr), R(tau_kin), R(dPr), Z(kin), Z(gs), Z(cstv), Z(pwlv), Z(linv), Z(expv), Z(gbsv), Z(phase_diagram), Z(density_model), Z(plast), Z(phi_soft), Z(psi_soft), Z(coh_soft),
  R(Kpzm), R(Qpzm), R(Gpzm), R(Lpzm), R(cpzm), R(ppzm), Z(reac_soft), Z(reac_phase), Z(phase_mix), Z(phase_two), Z(melt), R(aniso_factor), R(ani_fac_max), R(aniso_angle), Z(ani_fstrain), {0} };
#undef R
#undef Z
#define R(f) {#f, offsetof(params, f), 'd'}
#define Z(f) {#f, offsetof(params, f), 'i'}
static mem PAR[] = { Z(step), Z(elastic), Z(eta_average), Z(periodic_x), Z(smooth_softening), Z(marker_noise), Z(melting), Z(density_variations), Z(chemical_production), Z(diffuse_X), Z(diffuse_avg), Z(interp_stencil), Z(anisotropy), Z(ani_average), Z(marker_aniso_angle), Z(polar), {"compressible", offsetof(params, compressible), 'd'}, R(dt), R(min_eta), R(max_eta), R(eta_tol), {0} };
#undef R
#define R(f) {#f, offsetof(scale, f), 'd'}
static mem SCA[] = { R(eta), R(L), R(V), R(T), R(t), R(S), R(E), R(J), R(m), R(rho), {0} };
static void *at(mem *t, void *base, const char *n, char *ty) { for (; t->n; t++) if (!strcmp(t->n, n)) { *ty = t->t; return (char *)base + t->o; } fprintf(stderr, "no field %s\n", n); exit(74); }
static double *field(grid *g, const char *n, int *len) {
  int k; fld *f = mesh_fields(g, &k); for (int i = 0; i < k; i++) if (!strcmp(f[i].n, n)) { *len = fld_len(g, f[i].k); return f[i].p; }
  struct { const char *n; double *p; int v; } X[] = { {"exxd_s", g->exxd_s, 1}, {"ezzd_s", g->ezzd_s, 1}, {"exz_n", g->exz_n, 0}, {"sxxd0_s", g->sxxd0_s, 1}, {"szzd0_s", g->szzd0_s, 1}, {"sxz0_n", g->sxz0_n, 0}, {"sxz_n", g->sxz_n, 0}, {"div_u_s", g->div_u_s, 1},
    {"sxxd_s", g->sxxd_s, 1}, {"szzd_s", g->szzd_s, 1}, {"FS_AR_n", g->FS_AR_n, 0}, {"FS_AR_s", g->FS_AR_s, 1}, {"D11_n", g->D11_n, 0}, {"D12_n", g->D12_n, 0}, {"D13_n", g->D13_n, 0}, {"D14_n", g->D14_n, 0}, {"D21_n", g->D21_n, 0}, {"D22_n", g->D22_n, 0},
    {"D23_n", g->D23_n, 0}, {"D24_n", g->D24_n, 0}, {"D31_s", g->D31_s, 1}, {"D32_s", g->D32_s, 1}, {"D33_s", g->D33_s, 1}, {"D34_s", g->D34_s, 1}, {"eta_phys_s", g->eta_phys_s, 1} };
  for (size_t i = 0; i < sizeof X / sizeof *X; i++) if (!strcmp(X[i].n, n)) { *len = X[i].v ? g->Nx * g->Nz : (g->Nx - 1) * (g->Nz - 1); return X[i].p; }
  fprintf(stderr, "no mesh field %s\n", n); exit(74);
}
int main(void) {
  h_init(); char w[256], b[256], ty; params m; mat_prop mt; scale s; grid g; markers p; int n = 0, nv, nc;
  while (h_word(w)) {
    if (!strcmp(w, "grid") || !strcmp(w, "layered")) {
      memset(&m, 0, sizeof m); m.anisotropy = w[0] == 'l'; m.marker_aniso_angle = m.anisotropy; memset(&mt, 0, sizeof mt); s = h_unit_scale(); mt.R = 1.0; m.Nx = h_int(); m.Nz = h_int(); m.Nb_phases = h_int(); mt.Nb_phases = m.Nb_phases; m.dx = m.dz = 1.0; m.xmin = m.xmin0 = m.zmin = m.zmin0 = 0.0; m.xmax = m.xmax0 = m.Nx - 1; m.zmax = m.zmax0 = m.Nz - 1;
      m.Nt = 1; m.interp_stencil = 1; m.track_T_P_x_z = 1; m.finite_strain = 1; m.eta_tol = 1e-8; m.min_eta = 1e-30; m.max_eta = 1e30; m.dt = 1.0;
      g = GridAlloc(&m); SetGridCoordinates(&g, &m, m.Nx, m.Nz); GridIndices(&g); g.dx = g.dz = 1.0; nc = (m.Nx - 1) * (m.Nz - 1); nv = m.Nx * m.Nz; n = 0;
      for (int i = 0; i < nc; i++) { g.BCp.type[i] = -1; g.BCt.type[i] = -1; } for (int i = 0; i < nv; i++) g.BCg.type[i] = -1;
      for (int i = 0; i < 20; i++) { mt.n_vp[i] = 1.0; mt.Slim[i] = 1e90; mt.gs_ref[i] = 1.0; mt.pref_pwl[i] = mt.Fpwl[i] = mt.Flin[i] = mt.Fgbs[i] = 1.0; mt.fpwl[i] = mt.flin[i] = mt.fgbs[i] = 1.0; mt.bet[i] = 1e-3; mt.G[i] = 1.0; mt.Cp[i] = 1.0; }
    }
    else if (!strcmp(w, "p")) { h_word(b); void *q = at(PAR, &m, b, &ty); if (ty == 'd') *(double *)q = h_dbl(); else *(int *)q = h_int(); }
    else if (!strcmp(w, "s")) { h_word(b); *(double *)at(SCA, &s, b, &ty) = h_dbl(); }
    else if (!strcmp(w, "m")) { h_word(b); void *q = at(MAT, &mt, b, &ty); for (int i = 0; i < m.Nb_phases; i++) if (ty == 'd') ((double *)q)[i] = h_dbl(); else ((int *)q)[i] = h_int(); }
    else if (!strcmp(w, "f")) { h_word(b); int l; double *q = field(&g, b, &l); for (int i = 0; i < l; i++) q[i] = h_dbl(); }
    else if (!strcmp(w, "c")) { for (int i = 0; i < nc; i++) { g.BCp.type[i] = h_int(); g.BCt.type[i] = g.BCp.type[i] == 31 ? 30 : g.BCp.type[i]; } for (int i = 0; i < nv; i++) g.BCg.type[i] = h_int(); }
    else if (!strcmp(w, "w")) for (int q = 0; q < m.Nb_phases; q++) { for (int i = 0; i < nc; i++) g.phase_perc_n[q][i] = h_dbl(); for (int i = 0; i < nv; i++) g.phase_perc_s[q][i] = h_dbl(); }
    else if (!strcmp(w, "k")) {
      n = h_int(); ParticlesInput pi; memset(&pi, 0, sizeof pi); pi.Nx_part = pi.Nz_part = 2; pi.min_part_cell = 4; pi.Nb_part = n; pi.Nb_part_max = n + 5; p = PartAlloc(pi, &m);
      for (int i = 0; i < n; i++) { p.x[i] = h_dbl(); p.z[i] = h_dbl(); p.strain_pl[i] = h_dbl(); p.phase[i] = 0; }
    }
    else if (!strcmp(w, "t")) {       /* one 2-D table and one 1-D table, kept in buffers of exactly their size */
      static double *PT[4], **D2, *B1[2], **D1; static int *nT, *nP, *n1; int i, j, N; double v;
      for (i = 0; i < 4; i++) { PT[i] = calloc(20, 8); v = h_dbl(); for (j = 0; j < 20; j++) PT[i][j] = v; }
      nT = calloc(20, 4); nP = calloc(20, 4); n1 = calloc(20, 4); D2 = calloc(20, sizeof *D2); D1 = calloc(20, sizeof *D1);
      nT[0] = h_int(); nP[0] = h_int(); N = nT[0] * nP[0]; D2[0] = malloc(8 * N); for (i = 0; i < N; i++) D2[0][i] = h_dbl(); for (j = 1; j < 20; j++) { nT[j] = nT[0]; nP[j] = nP[0]; D2[j] = D2[0]; }
      m.PDMTmin = PT[0]; m.PDMTmax = PT[1]; m.PDMPmin = PT[2]; m.PDMPmax = PT[3]; m.PDMnT = nT; m.PDMnP = nP; m.PDMrho = D2;
      for (i = 0; i < 2; i++) { B1[i] = calloc(20, 8); v = h_dbl(); for (j = 0; j < 20; j++) B1[i][j] = v; }
      n1[0] = h_int(); D1[0] = malloc(8 * n1[0]); for (i = 0; i < n1[0]; i++) D1[0][i] = h_dbl(); for (j = 1; j < 20; j++) { n1[j] = n1[0]; D1[j] = D1[0]; }
      m.PD1Dmin = B1[0]; m.PD1Dmax = B1[1]; m.PD1DnP = n1; m.PD1Drho = D1;
    }
    else if (!strcmp(w, "call")) {
      h_word(b);
      if (!strcmp(b, "soften")) CohesionFrictionDilationGrid(&g, &p, mt, m, s);
      else if (!strcmp(b, "viscosity")) { Nparams N; memset(&N, 0, sizeof N); NonNewtonianViscosityGrid(&g, &mt, &m, N, &s, h_int()); }
      else if (!strcmp(b, "density")) UpdateDensity(&g, NULL, &mt, &m, &s);
      else if (!strcmp(b, "melt")) MeltFractionGrid(&g, NULL, &mt, &m, &s);
      else if (!strcmp(b, "source")) MassSourceTerm(&g, NULL, &mt, &m, &s);
      else if (!strcmp(b, "heat")) UpdateAlphaCp(&g, NULL, &mt, &m, &s);
      else if (!strcmp(b, "moduli")) ShearModCompExpGrid(&g, &mt, &m, s);
      else if (!strcmp(b, "anifactor")) UpdateAnisoFactor(&g, &mt, &m, &s);
      else if (!strcmp(b, "layered")) { Nparams N; memset(&N, 0, sizeof N); NonNewtonianViscosityGridAniso(&g, &mt, &m, N, &s, h_int()); }
      else if (!strcmp(b, "operators")) { int jac = h_int(); RheologicalOperators(&g, &m, &mt, &s, jac, h_int()); }
      else if (!strcmp(b, "directors")) { for (int i = 0; i < n; i++) { p.phase[i] = h_int(); double a = h_dbl(); if (m.marker_aniso_angle) p.aniso_angle[i] = a; p.nx[i] = p.nz[i] = 7.0; } InitialiseDirectorVector(&g, &p, &m, &mt, 1.0); j_begin("State"); j_a("nx", p.nx, n); j_a("nz", p.nz, n); j_end(); }
      else { fprintf(stderr, "no call %s\n", b); exit(74); }
    }
    else if (!strcmp(w, "get")) { j_begin("State"); h_word(b); for (char *q = strtok(b, ","); q; q = strtok(NULL, ",")) { int l; double *a = field(&g, q, &l); j_a(q, a, l); } j_end(); }
    else { fprintf(stderr, "no command %s\n", w); exit(74); }
  }
  return 0;
}
