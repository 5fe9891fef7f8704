#include "h.h"
/* case: Nx Nz dx dz C dt dt0 dtmin dtmax dtstart const elastic surf Vinc chem user1 red thermal | Vx[Nx*(Nz+1)] Vz[(Nx+1)*Nz] */
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); grid g; memset(&g, 0, sizeof g);
    m.Nx = h_int(); m.Nz = h_int(); m.dx = h_dbl(); m.dz = h_dbl(); m.Courant = h_dbl(); m.dt = h_dbl(); m.dt0 = h_dbl();
    m.dt_min = h_dbl(); m.dt_max = h_dbl(); m.dt_start = h_dbl(); m.constant_dt = h_int(); m.elastic = h_int();
    m.surface_processes = h_int(); m.surf_Vinc = h_dbl(); m.chemical_diffusion = h_int(); m.user1 = h_dbl(); m.dt_reduction_factor = h_dbl(); m.thermal = h_int();
    int nx = m.Nx * (m.Nz + 1), nz = (m.Nx + 1) * m.Nz;
    double *vx = h_arr(nx), *vz = h_arr(nz);
    int cap = (m.Nx - 1) * (m.Nz - 1);
    g.T = calloc(cap, 8); g.T0_n = calloc(cap, 8);
    for (int i = 0; i < cap; i++) g.T[i] = 1.0 + 0.1 * i;
    g.Nx = m.Nx; g.Nz = m.Nz;
    EvaluateCourantCriterion(vx, vz, &m, h_unit_scale(), &g, 0);
    j_begin("Dt"); j_d("dt", m.dt); j_end();
    free(vx); free(vz); free(g.T); free(g.T0_n);
  }
  return 0;
}
