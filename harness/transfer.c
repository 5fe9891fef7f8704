/* Marker-to-grid transfer on a given cloud.  case: kind(a|p) Nx Nz xmin zmin dx dz per stencil centroid flag avg nph preset inc | types[nodes] | values per phase[nph] | n | x z phase value nx nz of each
   kind a: an average into a field preset to preset + inc * node number;  kind p: phase fractions. */
#include "h.h"
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); m.Nx = h_int(); m.Nz = h_int(); m.xmin = h_dbl(); m.zmin = h_dbl(); double dx = h_dbl(), dz = h_dbl();
    m.periodic_x = h_int(); int st = h_int(), ce = h_int(), flag = h_int(), avg = h_int(); m.Nb_phases = h_int(); double pre = h_dbl(), inc = h_dbl(); m.interp_stencil = st;
    m.xmax = m.xmin + dx * (m.Nx - 1); m.zmax = m.zmin + dz * (m.Nz - 1); m.xmin0 = m.xmin; m.xmax0 = m.xmax; m.zmin0 = m.zmin; m.zmax0 = m.zmax; m.Nt = 1; m.dx = dx; m.dz = dz; m.anisotropy = 1;
    grid g = GridAlloc(&m); SetGridCoordinates(&g, &m, m.Nx, m.Nz); GridIndices(&g); g.dx = dx; g.dz = dz;
    int a = ce == 1 ? m.Nx - 1 : ce == -2 ? m.Nx + 1 : m.Nx, b = ce == 1 ? m.Nz - 1 : ce == -1 ? m.Nz + 1 : m.Nz, nn = a * b;
    char *ty = h_carr(nn); double *pv = h_arr(m.Nb_phases); int n = h_int();
    ParticlesInput pi; memset(&pi, 0, sizeof pi); pi.Nx_part = pi.Nz_part = 2; pi.min_part_cell = 4; pi.Nb_part = n; pi.Nb_part_max = n + 5;
    markers p = PartAlloc(pi, &m); double *val = calloc(n + 1, 8);
    for (int i = 0; i < n; i++) { p.x[i] = h_dbl(); p.z[i] = h_dbl(); p.phase[i] = h_int(); val[i] = h_dbl(); p.nx[i] = h_dbl(); p.nz[i] = h_dbl(); }
    double *f = calloc(nn + 1, 8); int *kp = calloc(nn + 1, 4); for (int i = 0; i < nn; i++) f[i] = pre + inc * i;
    if (w[0] == 'p') {
      for (int q = 0; q < m.Nb_phases; q++) for (int i = 0; i < nn; i++) (ce ? g.phase_perc_n : g.phase_perc_s)[q][i] = 7.0;
      P2Mastah(&m, p, NULL, &g, NULL, ty, 0, 0, 1, ce, st);
      j_begin("Perc"); for (int q = 0; q < m.Nb_phases; q++) { char k[32]; sprintf(k, "r%d", q); j_a(k, (ce ? g.phase_perc_n : g.phase_perc_s)[q], nn); } j_end();
    } else {
      P2Mastah(&m, p, flag == 0 ? pv : flag == 1 ? val : NULL, &g, f, ty, flag, avg, 0, ce, st);
      for (int i = 0; i < nn; i++) kp[i] = f[i] == pre + inc * i;
      j_begin("Avg"); j_a("r", f, nn); j_ia("kp", kp, nn); j_end();
    }
  }
  return 0;
}
