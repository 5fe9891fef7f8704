/* The initial marker cloud.  case: Nx Nz xmin zmin dx dz npx npz noise fs nph mask finite bad badcode bkg file(0 none 1 save then load) | heights[Nx]
   Callbacks answer A(q, X, Z, phase) with X, Z the position in 1/1000 of the marker spacing; bit q of mask: callback q is defined.
   bad >= 0: the phase callback answers badcode for marker number 'bad' of those asked. */
#include "h.h"
#include <sys/wait.h>
static params *M; static double dxp, dzp; static int nph, bad, badcode, asked;
static long PX(double x) { return lround((x - M->xmin) / dxp * 1000.0); }
static long PZ(double z) { return lround((z - M->zmin) / dzp * 1000.0); }
static double A(int q, Coordinates c, int ph) { return (double)((q * 13 + 3 * PX(c.x) + 5 * PZ(c.z) + 29 * (ph + 1)) % 97); }
static int fPhase(MdoodzInput *i, Coordinates c) { if (asked++ == bad) return badcode; return (int)((PX(c.x) + 2 * PZ(c.z)) / 7 % nph); }
static double fT(MdoodzInput *i, Coordinates c) { return A(1, c, 0); }
static int fAdj(MdoodzInput *i, Coordinates c, double T, int ph) { return ((int)T + ph) % nph; }
static int fDual(MdoodzInput *i, Coordinates c, int ph) { return (ph + 3 * PX(c.x)) % nph; }
static double fVx(MdoodzInput *i, Coordinates c) { return A(4, c, 0); }
static double fVz(MdoodzInput *i, Coordinates c) { return A(5, c, 0); }
#define F(n, q) static double n(MdoodzInput *i, Coordinates c, int ph) { return A(q, c, ph); }
F(fd, 6) F(fphi, 7) F(frho, 8) F(fX, 9) F(fP, 10) F(fxx, 11) F(fzz, 12) F(fxz, 13) F(fnoise, 14)
static Tensor2D fF(MdoodzInput *i, Coordinates c, int ph) { Tensor2D t; memset(&t, 0, sizeof t); t.xx = A(15, c, ph); t.xz = A(16, c, ph); t.zx = A(17, c, ph); t.zz = A(18, c, ph); return t; }
static double fAni(MdoodzInput *i, Coordinates c, int ph, double pre) { return A(19, c, ph); }
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    static MdoodzInput in; memset(&in, 0, sizeof in); params *m = M = &in.model; m->Nx = h_int(); m->Nz = h_int(); m->xmin = h_dbl(); m->zmin = h_dbl(); double dx = h_dbl(), dz = h_dbl();
    ParticlesInput pi; memset(&pi, 0, sizeof pi); pi.Nx_part = h_int(); pi.Nz_part = h_int(); m->initial_noise = h_int(); m->free_surface = h_int(); nph = m->Nb_phases = h_int(); long mask = h_int(); m->finite_strain = h_int(); bad = h_int(); badcode = h_int();
    m->bkg_strain_rate = h_dbl(); int file = h_int(); double *hv = h_arr(m->Nx);
    m->xmax = m->xmin + dx * (m->Nx - 1); m->zmax = m->zmin + dz * (m->Nz - 1); m->xmin0 = m->xmin; m->xmax0 = m->xmax; m->zmin0 = m->zmin; m->zmax0 = m->zmax; m->Nt = 1; m->dx = dx; m->dz = dz; m->anisotropy = 1; m->marker_aniso_angle = 1;
    pi.min_part_cell = 4; pi.Nb_part = (m->Nx - 1) * (m->Nz - 1) * pi.Nx_part * pi.Nz_part; pi.Nb_part_max = pi.Nb_part; dxp = dx / pi.Nx_part; dzp = dz / pi.Nz_part; asked = 0;
    fflush(J); pid_t pid = fork();
    if (pid == 0) {
      in.scaling = h_unit_scale(); in.scaling.T = zeroC / 64.0; for (int q = 0; q < 20; q++) in.materials.rho[q] = 50.0 + q;
      grid g = GridAlloc(m); SetGridCoordinates(&g, m, m->Nx, m->Nz); GridIndices(&g); g.dx = dx; g.dz = dz;
      surface t; memset(&t, 0, sizeof t); t.a = calloc(m->Nx, 8); t.b = calloc(m->Nx, 8); t.height = hv;
      for (int i = 0; i < m->Nx - 1; i++) { double xi = m->xmin + i * dx; t.a[i] = (hv[i + 1] - hv[i]) / dx; t.b[i] = hv[i] - t.a[i] * xi; }
      SetParticles_ff s; memset(&s, 0, sizeof s);
      if (mask >> 0 & 1) s.SetPhase = fPhase; if (mask >> 1 & 1) s.SetTemperature = fT; if (mask >> 2 & 1) s.AdjustPhaseToTemperature = fAdj; if (mask >> 3 & 1) s.SetDualPhase = fDual; if (mask >> 4 & 1) s.SetHorizontalVelocity = fVx; if (mask >> 5 & 1) s.SetVerticalVelocity = fVz;
      if (mask >> 6 & 1) s.SetGrainSize = fd; if (mask >> 7 & 1) s.SetPorosity = fphi; if (mask >> 8 & 1) s.SetDensity = frho; if (mask >> 9 & 1) s.SetXComponent = fX; if (mask >> 10 & 1) s.SetPressure = fP; if (mask >> 11 & 1) s.SetTxx = fxx; if (mask >> 12 & 1) s.SetTzz = fzz; if (mask >> 13 & 1) s.SetTxz = fxz;
      if (mask >> 14 & 1) s.SetNoise = fnoise; if (mask >> 15 & 1) s.SetDefGrad = fF; if (mask >> 16 & 1) s.SetAnisoAngle = fAni;
      char fn[512]; sprintf(fn, "%s/markers-%d.bin", getenv("SCRATCH") ? getenv("SCRATCH") : ".", (int)getpid()); m->initial_markers_file = fn;
      int loaded = 1;
      markers p = PartAlloc(pi, m); PartInit(&p, m); PutPartInBox(&p, &g, *m, t, in.scaling);
      m->save_initial_markers = file; SetParticles(s, &in, &p); m->save_initial_markers = 0;
      if (file) {
        markers p2 = PartAlloc(pi, m); PartInit(&p2, m); m->initial_noise = !m->initial_noise; PutPartInBox(&p2, &g, *m, t, in.scaling); m->load_initial_markers = 1; s.SetPhase = NULL; s.AdjustPhaseToTemperature = NULL; SetParticles(s, &in, &p2);
        for (int i = 0; i < p.Nb_part; i++) if (p2.x[i] != p.x[i] || p2.z[i] != p.z[i] || p2.phase[i] != p.phase[i]) loaded = 0;
        unlink(fn);
      }
      int n = p.Nb_part; int *X = calloc(n + 1, 4), *Z = calloc(n + 1, 4), *in_ = calloc(n + 1, 4); for (int i = 0; i < n; i++) { X[i] = PX(p.x[i]); Z[i] = PZ(p.z[i]); in_[i] = p.x[i] >= m->xmin && p.x[i] <= m->xmax && p.z[i] >= m->zmin && p.z[i] <= m->zmax; }
      j_begin("Cloud"); j_i("n", n); j_i("max", pi.Nb_part_max); j_i("loaded", loaded); j_ia("X", X, n); j_ia("Z", Z, n); j_ia("inside", in_, n); j_ia("phase", p.phase, n); j_ia("dual", p.dual, n);
      j_a("T", p.T, n); j_a("Vx", p.Vx, n); j_a("Vz", p.Vz, n); j_a("d", p.d, n); j_a("phi", p.phi, n); j_a("rho", p.rho, n); j_a("Xc", p.X, n); j_a("P", p.P, n); j_a("sxxd", p.sxxd, n); j_a("szzd", p.szzd, n); j_a("sxz", p.sxz, n); j_a("noise", p.noise, n);
      if (m->finite_strain) { j_a("Fxx", p.Fxx, n); j_a("Fxz", p.Fxz, n); j_a("Fzx", p.Fzx, n); j_a("Fzz", p.Fzz, n); }
      j_a("ani", p.aniso_angle, n); j_end(); _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { j_begin("Stop"); j_i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); j_end(); }
  }
  return 0;
}
