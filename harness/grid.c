/* Grid geometry, box motion, centre/vertex transfers and lithostatic pressure of the real code.
   C: Nx Nz xmin xmax zmin zmax xmin0 xmax0 zmin0 zmax0
   A: Nx Nz xmin xmax zmin zmax dt mode fs | tu u tv v vv(BC values) | nchain z Vz
   V: Nx Nz per | tc tg f        N: Nx Nz per | tc tg f(vertices) old(cells)        X: Nx Nz per | tc f
   P: Nx Nz gz dz bkg mode ref | tc rho                                                                          */
#include "h.h"
static void coords(grid *g, int nx, int nz) {
#define A(f, n) g->f = calloc((n), 8)
  A(xg_coord, nx); A(zg_coord, nz); A(xg_coord0, nx); A(zg_coord0, nz); A(xc_coord, nx - 1); A(zc_coord, nz - 1); A(xvz_coord, nx + 1); A(zvx_coord, nz + 1); A(xg_coord_ext, nx + 2); A(zg_coord_ext, nz + 2);
}
static void out(grid *g, params *m, int nx, int nz) {
  j_a("xg", g->xg_coord, nx); j_a("zg", g->zg_coord, nz); j_a("xg0", g->xg_coord0, nx); j_a("zg0", g->zg_coord0, nz); j_a("xc", g->xc_coord, nx - 1); j_a("zc", g->zc_coord, nz - 1); j_a("xv", g->xvz_coord, nx + 1); j_a("zv", g->zvx_coord, nz + 1);
  j_a("xe", g->xg_coord_ext, nx + 2); j_a("ze", g->zg_coord_ext, nz + 2);
  double q[8] = {g->dx, g->dz, m->dx, m->dz, m->xmin, m->xmax, m->zmin, m->zmax}; j_a("q", q, 8);
}
int main(void) {
  h_init(); char w[256]; scale s = h_unit_scale();
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); grid g; memset(&g, 0, sizeof g);
    int nx = g.Nx = m.Nx = h_int(), nz = g.Nz = m.Nz = h_int(), nc = (nx - 1) * (nz - 1), nu = nx * (nz + 1), nv = (nx + 1) * nz;
    if (*w == 'C') {
      coords(&g, nx, nz); m.xmin = h_dbl(); m.xmax = h_dbl(); m.zmin = h_dbl(); m.zmax = h_dbl(); m.xmin0 = h_dbl(); m.xmax0 = h_dbl(); m.zmin0 = h_dbl(); m.zmax0 = h_dbl();
      SetGridCoordinates(&g, &m, nx, nz); j_begin("C"); out(&g, &m, nx, nz); j_end();
    } else if (*w == 'A') {
      coords(&g, nx, nz); m.xmin = m.xmin0 = h_dbl(); m.xmax = m.xmax0 = h_dbl(); m.zmin = m.zmin0 = h_dbl(); m.zmax = m.zmax0 = h_dbl(); m.dt = h_dbl(); m.pure_shear_ALE = h_int(); m.free_surface = h_int();
      g.BCu.type = h_carr(nu); g.u_in = h_arr(nu); g.BCv.type = h_carr(nv); g.v_in = h_arr(nv); g.BCv.val = h_arr(nv); g.BCu.val = g.u_in;
      markers t; memset(&t, 0, sizeof t); t.Nb_part = h_int(); t.z = h_arr(t.Nb_part); t.Vz = h_arr(t.Nb_part); s.L = 10e3;
      SetGridCoordinates(&g, &m, nx, nz); PureShearALE(&m, &g, &t, s); s.L = 1.0; j_begin("A"); out(&g, &m, nx, nz); j_end();
    } else if (*w == 'V') {
      m.periodic_x = h_int(); g.BCp.type = h_carr(nc); g.BCg.type = h_carr(nx * nz); double *f = h_arr(nc), *r = calloc(nx * nz, 8); for (int i = 0; i < nx * nz; i++) r[i] = -77;
      InterpCentroidsToVerticesDouble(f, r, &g, &m); j_begin("V"); j_a("r", r, nx * nz); j_end(); free(r); free(f);
    } else if (*w == 'N') {
      m.periodic_x = h_int(); g.BCp.type = h_carr(nc); g.BCg.type = h_carr(nx * nz); double *f = h_arr(nx * nz), *r = h_arr(nc);
      InterpVerticesToCentroidsDouble(r, f, &g, &m); j_begin("N"); j_a("r", r, nc); j_end(); free(r); free(f);
    } else if (*w == 'X') {
      m.periodic_x = h_int(); g.BCp.type = h_carr(nc); double *f = h_arr(nc), *r = calloc((nx + 1) * (nz + 1), 8);
      ExpandCentroidArray(f, r, &g, &m); j_begin("X"); j_a("r", r, (nx + 1) * (nz + 1)); j_end(); free(r); free(f);
    } else {
      m.gz = h_dbl(); g.dz = m.dz = h_dbl(); m.bkg_pressure = h_dbl(); int mode = h_int(); double ref = h_dbl(); g.BCp.type = h_carr(nc); g.rho_n = h_arr(nc);
      g.p_lith = calloc(nc, 8); for (int i = 0; i < nc; i++) g.p_lith[i] = 1e3 + i; g.rho_s = calloc(nx * nz, 8); g.sxx_W = calloc(nz, 8); g.sxx_E = calloc(nz, 8);
      ComputeLithostaticPressure(&g, &m, ref, s, mode); j_begin("P"); j_a("p", g.p_lith, nc); j_end();
    }
  }
  return 0;
}
