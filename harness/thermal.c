/* One implicit energy step on a given state.
   case: Nx Nz dx dz dt nit shear adiab gz | ext types, ext vals | T rho Cp kx kz Qr Wdiss alp vz p p0 */
#include "h.h"
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); m.Nx = h_int(); m.Nz = h_int(); double dx = h_dbl(), dz = h_dbl(); m.xmax = dx * (m.Nx - 1); m.zmax = dz * (m.Nz - 1);
    m.xmin0 = m.xmin; m.xmax0 = m.xmax; m.zmin0 = m.zmin; m.zmax0 = m.zmax; m.Nb_phases = 1; m.Nt = 1;
    grid g = GridAlloc(&m); SetGridCoordinates(&g, &m, m.Nx, m.Nz); GridIndices(&g); g.dx = dx; g.dz = dz; m.dx = dx; m.dz = dz;
    double dt = h_dbl(); m.dt = dt; int nit = h_int(), sh = h_int(), ad = h_int(); m.gz = h_dbl();
    int nu = m.Nx * (m.Nz + 1), nv = (m.Nx + 1) * m.Nz, nc = (m.Nx - 1) * (m.Nz - 1), ne = (m.Nx + 1) * (m.Nz + 1);
#define RC(f, n) { char *a = h_carr(n); memcpy(g.f, a, n); free(a); }
#define RD(f, n) { double *a = h_arr(n); memcpy(g.f, a, 8 * (n)); free(a); }
    RC(BCT_exp.type, ne) RD(BCT_exp.val, ne) RD(T, nc) RD(rho_n, nc) RD(Cp, nc) RD(kx, nu) RD(kz, nv) RD(Qr, nc) RD(Wdiss, nc) RD(alp, nc) RD(v_in, nv) RD(p_in, nc) RD(p0_n, nc)
    for (int l = 0; l < m.Nz - 1; l++) for (int k = 0; k < m.Nx - 1; k++) { char t = g.BCT_exp.type[k + 1 + (l + 1) * (m.Nx + 1)]; g.BCt.type[k + l * (m.Nx - 1)] = t == 30 ? 30 : -1; }
    markers P; memset(&P, 0, sizeof P); double *T0 = malloc(8 * nc); memcpy(T0, g.T, 8 * nc);
    j_begin("Heat"); j_a("T0", T0, nc);
    scale one = h_unit_scale();
    EnergyDirectSolve(&g, m, g.rhs_t, &P, dt, sh, ad, one, 1); j_a("T1", g.T, nc);
    for (int i = 1; i < nit; i++) EnergyDirectSolve(&g, m, g.rhs_t, &P, dt, sh, ad, one, 1);
    j_a("Ts", g.T, nc); memcpy(g.T, T0, 8 * nc);
    EnergyDirectSolve(&g, m, g.rhs_t, &P, dt, sh, ad, one, nit); j_a("Tn", g.T, nc);
    j_end(); free(T0); GridFree(&g, &m);
  }
  return 0;
}
