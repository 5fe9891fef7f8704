/* Reseeding and inflow on given marker clouds.
   case: op(r|i) mode minpart Nx Nz xmin zmin dx dz per direct sp ised1 ised2 fs | air[cells] | hv[Nx] hini[Nx] | base[cells] bvert[vertices] | cap n | x z phase of each | (op i) x z phase of each after the motion
   Every case runs in a child: the code may stop the run. */
#include "h.h"
#include "dump.h"
#include <sys/wait.h>
static mfld *f; static int nf;
static const char *INTERP[] = {"d", "T", "P", "phi", "X", "noise", "sxxd", "szzd", "sxz"};
static int interp(const char *n) { for (int i = 0; i < 9; i++) if (!strcmp(n, INTERP[i])) return i; return -1; }
static double get(int q, int i) { return f[q].t == 'd' ? ((double *)f[q].p)[i] : ((int *)f[q].p)[i]; }
static int is(int q, const char *n) { return !strcmp(f[q].n, n); }
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); int mode = h_int(); double mp = h_int(); m.Nx = h_int(); m.Nz = h_int(); m.xmin = h_dbl(); m.zmin = h_dbl(); double dx = h_dbl(), dz = h_dbl();
    m.periodic_x = h_int(); m.direct_neighbour = h_int(); m.surface_processes = h_int(); m.surf_ised1 = h_int(); m.surf_ised2 = h_int(); m.free_surface = h_int();
    int nc = (m.Nx - 1) * (m.Nz - 1), nv = m.Nx * m.Nz; char *air = h_carr(nc); double *hv = h_arr(m.Nx), *hi = h_arr(m.Nx), *base = h_arr(nc), *bv = h_arr(nv); int cap = h_int(), n = h_int();
    double *x = calloc(n, 8), *z = calloc(n, 8), *x2 = calloc(n, 8), *z2 = calloc(n, 8); int *ph = calloc(n, 4), *ph2 = calloc(n, 4);
    for (int i = 0; i < n; i++) { x[i] = h_dbl(); z[i] = h_dbl(); ph[i] = h_int(); }
    if (w[0] == 'i') for (int i = 0; i < n; i++) { x2[i] = h_dbl(); z2[i] = h_dbl(); ph2[i] = h_int(); }
    fflush(J); pid_t pid = fork();
    if (pid == 0) {
      m.xmax = m.xmin + dx * (m.Nx - 1); m.zmax = m.zmin + dz * (m.Nz - 1); m.xmin0 = m.xmin; m.xmax0 = m.xmax; m.zmin0 = m.zmin; m.zmax0 = m.zmax; m.Nb_phases = 4; m.Nt = 1; m.dx = dx; m.dz = dz;
      m.finite_strain = 1; m.track_T_P_x_z = 1; m.anisotropy = 1; m.marker_aniso_angle = 1; m.interp_stencil = 1;
      grid g = GridAlloc(&m); SetGridCoordinates(&g, &m, m.Nx, m.Nz); GridIndices(&g); g.dx = dx; g.dz = dz;
      for (int c = 0; c < nc; c++) { g.BCt.type[c] = g.BCp.type[c] = air[c] ? 30 : -1; }
      for (int c = 0; c < nv; c++) g.BCg.type[c] = -1;
      double *fl[] = {g.d_n, g.T, g.p_in, g.phi_n, g.X_n, g.noise_n, g.sxxd, g.szzd};
      for (int q = 0; q < 8; q++) for (int c = 0; c < nc; c++) fl[q][c] = (q + 1) * base[c] + q;
      for (int c = 0; c < nv; c++) g.sxz[c] = 9 * bv[c] + 8;
      surface t, ti; memset(&t, 0, sizeof t); memset(&ti, 0, sizeof ti);
      t.a = calloc(m.Nx, 8); t.b = calloc(m.Nx, 8); ti.a = calloc(m.Nx, 8); ti.b = calloc(m.Nx, 8); t.height = hv; ti.height = hi; t.height_finer_c = calloc(2 * m.Nx, 8); ti.height_finer_c = calloc(2 * m.Nx, 8);
      for (int i = 0; i < m.Nx - 1; i++) {
        double xi = m.xmin + i * dx; t.a[i] = (hv[i + 1] - hv[i]) / dx; t.b[i] = hv[i] - t.a[i] * xi; ti.a[i] = (hi[i + 1] - hi[i]) / dx; ti.b[i] = hi[i] - ti.a[i] * xi;
        t.height_finer_c[2 * i] = 0.75 * hv[i] + 0.25 * hv[i + 1]; t.height_finer_c[2 * i + 1] = 0.25 * hv[i] + 0.75 * hv[i + 1];
      }
      ParticlesInput pi; memset(&pi, 0, sizeof pi); pi.Nx_part = pi.Nz_part = 2; pi.min_part_cell = mp; pi.Nb_part = n; pi.Nb_part_max = cap;
      markers p = PartAlloc(pi, &m); p.min_part_cell = mp; f = marker_fields(&p, &nf);
      for (int q = 0; q < nf; q++) if (f[q].p) for (int i = 0; i < n; i++) { if (f[q].t == 'd') ((double *)f[q].p)[i] = 1.25 * q + i * 0.5; else ((int *)f[q].p)[i] = q + i; }
      memset(p.intag, 0, sizeof(int) * cap);
      for (int i = 0; i < n; i++) { p.x[i] = x[i]; p.z[i] = z[i]; p.phase[i] = ph[i]; }
      MdoodzInput in; memset(&in, 0, sizeof in); in.scaling = h_unit_scale(); SetParticles_ff sp; memset(&sp, 0, sizeof sp); int *tag = calloc(n, 4);
      if (w[0] == 'i') {
        in.model = m; ParticleInflowCheck(&p, &g, &in, t, 0, sp);
        for (int i = 0; i < n; i++) { tag[i] = p.intag[i]; p.x[i] = x2[i]; p.z[i] = z2[i]; p.phase[i] = ph2[i]; }
      }
      double **old = calloc(nf, sizeof *old); for (int q = 0; q < nf; q++) if (f[q].p) { old[q] = calloc(n, 8); for (int i = 0; i < n; i++) old[q][i] = get(q, i); }
      int qs = 0, qp = 0; for (int q = 0; q < nf; q++) { if (is(q, "strain")) qs = q; if (is(q, "phase")) qp = q; }
      if (w[0] == 'i') ParticleInflowCheck(&p, &g, &in, t, 1, sp);
      else if (mode == 0) CountPartCell_OLD(&p, &g, m, t, ti, 1, in.scaling);
      else CountPartCell(&p, &g, m, t, ti, 1, in.scaling);
      int N = p.Nb_part, *kp = calloc(N, 4), *src = calloc(N, 4), *cp = calloc(N, 4), *fresh = calloc(N, 4);
      double *iv = calloc(9 * N, 8);
      for (int i = 0; i < N; i++) {
        fresh[i] = i >= n || (old[qp][i] == -1 && p.phase[i] != -1);
        kp[i] = !fresh[i]; src[i] = -1; cp[i] = 1;
        for (int q = 0; q < nf; q++) if (f[q].p && !fresh[i] && !is(q, "intag") && get(q, i) != old[q][i]) kp[i] = 0;
        if (!fresh[i]) continue;
        double s = (p.strain[i] - 1.25 * qs) / 0.5; src[i] = s >= 0 && s < n && s == floor(s) ? (int)s : -1;
        for (int q = 0; q < nf && src[i] >= 0; q++) {
          if (!f[q].p || is(q, "x") || is(q, "z") || is(q, "generation") || is(q, "intag") || is(q, "aniso_angle")) continue;
          int a = interp(f[q].n);
          if (a >= 0 && !m.direct_neighbour && w[0] == 'r') { iv[9 * i + a] = (get(q, i) - a) / (a + 1); continue; }
          if (get(q, i) != old[q][src[i]]) cp[i] = 0;
        }
      }
      j_begin("Pop"); j_i("n", n); j_a("x", p.x, N); j_a("z", p.z, N); j_ia("ph", p.phase, N); j_ia("fresh", fresh, N); j_ia("kp", kp, N); j_ia("src", src, N); j_ia("cp", cp, N); j_a("iv", iv, 9 * N); j_ia("tag", tag, n); j_end();
      _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { j_begin("Stop"); j_i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); j_end(); }
    free(air); free(hv); free(hi); free(base); free(bv); free(x); free(z); free(x2); free(z2); free(ph); free(ph2);
  }
  return 0;
}
