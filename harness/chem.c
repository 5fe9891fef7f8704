/* One implicit step of chemical diffusion on a given state.
   case: Nx Nz dx dz dt | ext types, ext vals | X kcx kcz */
#include "h.h"
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); m.Nx = h_int(); m.Nz = h_int(); double dx = h_dbl(), dz = h_dbl(); m.xmax = dx * (m.Nx - 1); m.zmax = dz * (m.Nz - 1);
    m.xmin0 = m.xmin; m.xmax0 = m.xmax; m.zmin0 = m.zmin; m.zmax0 = m.zmax; m.Nb_phases = 1; m.Nt = 1; m.chemical_diffusion = 1;
    grid g = GridAlloc(&m); SetGridCoordinates(&g, &m, m.Nx, m.Nz); GridIndices(&g); g.dx = dx; g.dz = dz; m.dx = dx; m.dz = dz;
    double dt = h_dbl(); m.dt = dt; int nu = m.Nx * (m.Nz + 1), nv = (m.Nx + 1) * m.Nz, nc = (m.Nx - 1) * (m.Nz - 1), ne = (m.Nx + 1) * (m.Nz + 1);
#define RC(f, n) { char *a = h_carr(n); memcpy(g.f, a, n); free(a); }
#define RD(f, n) { double *a = h_arr(n); memcpy(g.f, a, 8 * (n)); free(a); }
    RC(BCC_exp.type, ne) RD(BCC_exp.val, ne) RD(X_n, nc) RD(kc_x, nu) RD(kc_z, nv) memcpy(g.X0_n, g.X_n, 8 * nc);
    for (int l = 0; l < m.Nz - 1; l++) for (int k = 0; k < m.Nx - 1; k++) { char t = g.BCC_exp.type[k + 1 + (l + 1) * (m.Nx + 1)] == 30 ? 30 : -1; int c = k + l * (m.Nx - 1); g.BCc.type[c] = g.BCt.type[c] = t; g.BCp.type[c] = t == 30 ? 30 : -1; }
    markers P; memset(&P, 0, sizeof P); mat_prop mat; memset(&mat, 0, sizeof mat);
    j_begin("Chem"); j_a("X0", g.X_n, nc); ChemicalDirectSolve(&g, m, &P, &mat, dt, h_unit_scale()); j_a("X1", g.X_n, nc); j_end(); GridFree(&g, &m);
  }
  return 0;
}
