/* What happens to the memory of markers.  case: op Nx Nz xmin zmin dx dz per dt | cell types | vertex types | n | x z phase of each | data of the op
   S strain: 7 rates per cell (pl pwl exp lin gbs el cst); 7 initial values per marker     M largest P, T: T P Tmax Pmax per marker
   D deformation gradient: u v; Fxx Fxz Fzx Fzz per marker     A aspect ratio: F per marker     T transmutation: nph, rule, temperature, target of each; T dual per marker
   E temperature: subgrid nph Cp k; T T0 rho; T per marker     P pressure: subgrid nph bet; p p0 eta; P per marker
   G stress: subgrid rotation elastic aniso adv stencil nph G; sxx sxx0 szz szz0 | sxz sxz0 eta wxz | u v; sxx szz sxz nx nz per marker     I others: (new, old) of rho phi X divth, d; rho phi X divth d per marker */
#include "h.h"
#define IN(dst, n) do { double *a_ = h_arr(n); memcpy(dst, a_, 8 * (n)); free(a_); } while (0)
#define PM(k) for (int i = 0; i < n; i++)
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); m.Nx = h_int(); m.Nz = h_int(); m.xmin = h_dbl(); m.zmin = h_dbl(); double dx = h_dbl(), dz = h_dbl(); m.periodic_x = h_int(); m.dt = h_dbl();
    m.xmax = m.xmin + dx * (m.Nx - 1); m.zmax = m.zmin + dz * (m.Nz - 1); m.xmin0 = m.xmin; m.xmax0 = m.xmax; m.zmin0 = m.zmin; m.zmax0 = m.zmax; m.Nt = 1; m.dx = dx; m.dz = dz; m.Nb_phases = 4; m.interp_stencil = 1;
    m.finite_strain = 1; m.track_T_P_x_z = 1; m.anisotropy = 1; m.marker_aniso_angle = 1; m.elastic = 1;
    grid g = GridAlloc(&m); SetGridCoordinates(&g, &m, m.Nx, m.Nz); GridIndices(&g); g.dx = dx; g.dz = dz;
    int nc = (m.Nx - 1) * (m.Nz - 1), nv = m.Nx * m.Nz, nu = m.Nx * (m.Nz + 1), nw = (m.Nx + 1) * m.Nz;
    { char *a = h_carr(nc); for (int i = 0; i < nc; i++) { g.BCp.type[i] = a[i]; g.BCt.type[i] = a[i] == 31 ? 30 : a[i]; } free(a); } { char *a = h_carr(nv); memcpy(g.BCg.type, a, nv); free(a); }
    int n = h_int(); ParticlesInput pi; memset(&pi, 0, sizeof pi); pi.Nx_part = pi.Nz_part = 2; pi.min_part_cell = 4; pi.Nb_part = n; pi.Nb_part_max = n + 5;
    markers p = PartAlloc(pi, &m); scale s = h_unit_scale(); mat_prop mt; memset(&mt, 0, sizeof mt);
    PM() { p.x[i] = h_dbl(); p.z[i] = h_dbl(); p.phase[i] = h_int(); }
    switch (w[0]) {
    case 'S': {
      double *r[7] = {g.eII_pl, g.eII_pwl, g.eII_exp, g.eII_lin, g.eII_gbs, g.eII_el, g.eII_cst}, *q[7] = {p.strain_pl, p.strain_pwl, p.strain_exp, p.strain_lin, p.strain_gbs, p.strain_el, p.strain};
      for (int k = 0; k < 7; k++) IN(r[k], nc);
      PM() for (int k = 0; k < 7; k++) q[k][i] = h_dbl();
      AccumulatedStrainII(&g, s, m, &p, g.xc_coord, g.zc_coord, m.Nx - 1, m.Nz - 1, g.BCp.type);
      j_begin("Strain"); for (int k = 0; k < 7; k++) { char b[8]; sprintf(b, "s%d", k); j_a(b, q[k], n); } j_end(); break; }
    case 'M':
      PM() { p.T[i] = h_dbl(); p.P[i] = h_dbl(); p.Tmax[i] = h_dbl(); p.Pmax[i] = h_dbl(); }
      UpdateMaxPT(s, m, &p); j_begin("Max"); j_a("T", p.T, n); j_a("P", p.P, n); j_a("Tm", p.Tmax, n); j_a("Pm", p.Pmax, n); j_end(); break;
    case 'D': case 'A':
      if (w[0] == 'D') { IN(g.u_in, nu); IN(g.v_in, nw); }
      PM() { p.Fxx[i] = h_dbl(); p.Fxz[i] = h_dbl(); p.Fzx[i] = h_dbl(); p.Fzz[i] = h_dbl(); }
      if (w[0] == 'D') { DeformationGradient(g, s, m, &p); j_begin("Def"); j_a("xx", p.Fxx, n); j_a("xz", p.Fxz, n); j_a("zx", p.Fzx, n); j_a("zz", p.Fzz, n); j_end(); }
      else { FiniteStrainAspectRatio(&g, s, m, &p); j_begin("Asp"); j_a("r", g.FS_AR_n, nc); j_end(); } break;
    case 'T': {
      int nph = h_int(); for (int k = 0; k < nph; k++) { mt.transmutation[k] = h_int(); mt.transmutation_temperature[k] = h_dbl(); mt.transmutation_phase[k] = h_int(); }
      PM() { p.T[i] = h_dbl(); p.dual[i] = h_int(); }
      TransmutateMarkers(&p, &mt, 1.0); j_begin("Trans"); j_ia("ph", p.phase, n); j_ia("du", p.dual, n); j_a("T", p.T, n); j_end(); break; }
    case 'E': {
      m.subgrid_diffusion = h_int(); int nph = h_int(); for (int k = 0; k < nph; k++) { mt.Cp[k] = h_dbl(); mt.k[k] = h_dbl(); }
      IN(g.T, nc); IN(g.T0_n, nc); IN(g.rho_n, nc); PM() p.T[i] = h_dbl();
      UpdateParticleEnergy(&g, s, m, &p, &mt); j_begin("Val"); j_a("r0", p.T, n); j_end(); break; }
    case 'P': {
      m.subgrid_diffusion = h_int(); int nph = h_int(); for (int k = 0; k < nph; k++) mt.bet[k] = h_dbl();
      IN(g.p_in, nc); IN(g.p0_n, nc); IN(g.eta_phys_n, nc); PM() p.P[i] = h_dbl();
      UpdateParticlePressure(&g, s, m, &p, &mt); j_begin("Val"); j_a("r0", p.P, n); j_end(); break; }
    case 'G': {
      m.subgrid_diffusion = h_int(); m.stress_rotation = h_int(); m.elastic = h_int(); m.anisotropy = h_int(); m.advection = h_int(); m.interp_stencil = h_int(); int nph = h_int(); for (int k = 0; k < nph; k++) mt.G[k] = h_dbl();
      IN(g.sxxd, nc); IN(g.sxxd0, nc); IN(g.szzd, nc); IN(g.szzd0, nc); IN(g.sxz, nv); IN(g.sxz0, nv); IN(g.eta_phys_s, nv); IN(g.wxz, nv); IN(g.u_in, nu); IN(g.v_in, nw);
      PM() { p.sxxd[i] = h_dbl(); p.szzd[i] = h_dbl(); p.sxz[i] = h_dbl(); p.nx[i] = h_dbl(); p.nz[i] = h_dbl(); }
      UpdateParticleStress(&g, &p, &m, &mt, &s); j_begin("Stress"); j_a("r0", p.sxxd, n); j_a("r1", p.szzd, n); j_a("r2", p.sxz, n); j_a("nx", p.nx, n); j_a("nz", p.nz, n); j_end(); break; }
    case 'I': {
      IN(g.rho_n, nc); IN(g.rho0_n, nc); IN(g.phi_n, nc); IN(g.phi0_n, nc); IN(g.X_n, nc); IN(g.X0_n, nc); IN(g.divth_n, nc); IN(g.divth0_n, nc); IN(g.d_n, nc);
      PM() { p.rho[i] = h_dbl(); p.phi[i] = h_dbl(); p.X[i] = h_dbl(); p.divth[i] = h_dbl(); p.d[i] = h_dbl(); }
      UpdateParticleDensity(&g, s, m, &p, &mt); UpdateParticlePhi(&g, s, m, &p, &mt); UpdateParticleX(&g, s, m, &p, &mt); UpdateParticleDivThermal(&g, s, m, &p, &mt); UpdateParticleGrainSize(&g, s, m, &p, &mt);
      j_begin("Val"); j_a("r0", p.rho, n); j_a("r1", p.phi, n); j_a("r2", p.X, n); j_a("r3", p.divth, n); j_a("r4", p.d, n); j_end(); break; }
    }
  }
  return 0;
}
