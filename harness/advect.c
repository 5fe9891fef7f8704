/* Marker advection on a given velocity grid.  case: Nx Nz xmin zmin dx dz per cons dt steps | tu u tv v | n | x z phase of each
   One event per step: positions, phases, velocities, and whether every other property of the marker was left alone. */
#include "h.h"
#include "dump.h"
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); m.Nx = h_int(); m.Nz = h_int(); m.xmin = h_dbl(); m.zmin = h_dbl(); double dx = h_dbl(), dz = h_dbl(); m.xmax = m.xmin + dx * (m.Nx - 1); m.zmax = m.zmin + dz * (m.Nz - 1);
    m.xmin0 = m.xmin; m.xmax0 = m.xmax; m.zmin0 = m.zmin; m.zmax0 = m.zmax; m.Nb_phases = 1; m.Nt = 1; m.periodic_x = h_int(); m.conserv_interp = h_int(); m.dt = h_dbl(); int steps = h_int();
    m.finite_strain = 1; m.track_T_P_x_z = 1; m.anisotropy = 1; m.marker_aniso_angle = 1;
    grid g = GridAlloc(&m); SetGridCoordinates(&g, &m, m.Nx, m.Nz); GridIndices(&g); g.dx = dx; g.dz = dz; m.dx = dx; m.dz = dz;
    int nu = m.Nx * (m.Nz + 1), nv = (m.Nx + 1) * m.Nz;
    { char *a = h_carr(nu); memcpy(g.BCu.type, a, nu); free(a); } { double *a = h_arr(nu); memcpy(g.u_in, a, 8 * nu); free(a); }
    { char *a = h_carr(nv); memcpy(g.BCv.type, a, nv); free(a); } { double *a = h_arr(nv); memcpy(g.v_in, a, 8 * nv); free(a); }
    int n = h_int(); ParticlesInput pi; memset(&pi, 0, sizeof pi); pi.Nx_part = pi.Nz_part = 2; pi.min_part_cell = 4; pi.Nb_part = n; pi.Nb_part_max = n + 5;
    markers p = PartAlloc(pi, &m); int nf; mfld *f = marker_fields(&p, &nf);
    for (int q = 0; q < nf; q++) if (f[q].p) for (int i = 0; i < n; i++) { if (f[q].t == 'd') ((double *)f[q].p)[i] = 1.25 * q + i * 0.37; else ((int *)f[q].p)[i] = q + i; }
    for (int i = 0; i < n; i++) { p.x[i] = h_dbl(); p.z[i] = h_dbl(); p.phase[i] = h_int(); }
    for (int s = 0; s < steps; s++) {
      double *x0 = calloc(n, 8), *z0 = calloc(n, 8); int *h0 = calloc(n, 4), *mv = calloc(n, 4), *kp = calloc(n, 4); memcpy(x0, p.x, 8 * n); memcpy(z0, p.z, 8 * n); memcpy(h0, p.phase, 4 * n);
      RogerGuntherII(&p, m, g, 1, h_unit_scale());
      for (int i = 0; i < n; i++) {
        mv[i] = p.x[i] != x0[i] || p.z[i] != z0[i]; kp[i] = 1;
        for (int q = 0; q < nf; q++) {
          if (!f[q].p || f[q].p == (void *)p.x || f[q].p == (void *)p.z || f[q].p == (void *)p.Vx || f[q].p == (void *)p.Vz || f[q].p == (void *)p.phase) continue;
          if (f[q].t == 'd' ? ((double *)f[q].p)[i] != 1.25 * q + i * 0.37 : ((int *)f[q].p)[i] != q + i) kp[i] = 0;
        }
      }
      j_begin("Adv"); j_a("x0", x0, n); j_a("z0", z0, n); j_ia("h0", h0, n); j_a("x1", p.x, n); j_a("z1", p.z, n); j_ia("h1", p.phase, n); j_a("vx", p.Vx, n); j_a("vz", p.Vz, n); j_ia("mv", mv, n); j_ia("kp", kp, n); j_i("np", p.Nb_part); j_end();
      free(x0); free(z0); free(h0); free(mv); free(kp);
    }
  }
  return 0;
}
