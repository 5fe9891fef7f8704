/* Generic full-run driver: RunMDOODZ on a given input file with a set-up chosen on the command line.
   Observes the real run by symbol interposition (the library's own definition is called through RTLD_NEXT)
   and writes one JSON event per observed step to $SIM_TRACE.  No source of the repository is modified.       */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include "mdoodz.h"
#include "mdoodz-private.h"

/* ------------------------------------------------------------------ options --------------------------------------- */
static int nopt; static char **opts;
static const char *opt(const char *k, const char *d) {
  size_t n = strlen(k);
  for (int i = 0; i < nopt; i++) if (!strncmp(opts[i], k, n) && opts[i][n] == '=') return opts[i] + n + 1;
  return d;
}
static int    opti(const char *k, int d)    { const char *s = opt(k, NULL); return s ? atoi(s) : d; }
static double optd(const char *k, double d) { const char *s = opt(k, NULL); return s ? atof(s) : d; }

/* ------------------------------------------------------------------ trace ----------------------------------------- */
static int tr_fd = -1;
static void ev(const char *fmt, ...) {
  if (tr_fd < 0) return;
  char buf[65536]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf - 2, fmt, ap); va_end(ap);
  buf[n++] = '\n';
  if (write(tr_fd, buf, n) < 0) {}
}
#include "dump.h"
/* dump=AT,AT..  fields=..  mfields=..  sfields: at the named points of the run write the named arrays */
static int nphases = 0;
static void hook(const char *at, grid *g, markers *m, params *mo, scale *s, surface *tp, markers *tc) {
  if (!wanted(opt("dump", ""), at)) return;
  char *b; size_t n; FILE *J = open_memstream(&b, &n);
  fprintf(J, "{\"event\":\"Dump\",\"at\":\"%s\",\"step\":%d,\"time\":%.17g,\"dt\":%.17g,\"xmin\":%.17g,\"xmax\":%.17g,\"zmin\":%.17g,\"zmax\":%.17g,\"dx\":%.17g,\"dz\":%.17g", at, mo->step, mo->time, mo->dt, mo->xmin, mo->xmax, mo->zmin, mo->zmax, mo->dx, mo->dz);
  if (g) { fprintf(J, ",\"gdx\":%.17g,\"gdz\":%.17g", g->dx, g->dz); dump_mesh(J, g, opt("fields", NULL), mo->Nb_phases); }
  if (m) { fprintf(J, ",\"Nb_part\":%d,\"Nb_part_max\":%d", m->Nb_part, m->Nb_part_max); dump_markers(J, m, opt("mfields", NULL)); }
  if (tp && mo->free_surface) { put_arr(J, "height", tp->height, mo->Nx, 'd'); put_arr(J, "height0", tp->height0, mo->Nx, 'd'); put_arr(J, "topo_a", tp->a, mo->Nx - 1, 'd'); put_arr(J, "topo_b", tp->b, mo->Nx - 1, 'd'); if (opti("more", 0)) { put_arr(J, "topo_vx", tp->vx, mo->Nx, 'd'); put_arr(J, "topo_vz", tp->vz, mo->Nx + 1, 'd'); put_arr(J, "topo_fine", tp->height_finer_c, 2 * mo->Nx - 2, 'd'); } }
  if (tc && mo->free_surface) { fprintf(J, ",\"chain_max\":%d", tc->Nb_part_max); put_arr(J, "chain_x", tc->x, tc->Nb_part, 'd'); put_arr(J, "chain_z", tc->z, tc->Nb_part, 'd'); put_arr(J, "chain_phase", tc->phase, tc->Nb_part, 'i'); put_arr(J, "chain_z0", tc->z0, tc->Nb_part, 'd'); if (opti("more", 0)) { put_arr(J, "chain_Vx", tc->Vx, tc->Nb_part, 'd'); put_arr(J, "chain_Vz", tc->Vz, tc->Nb_part, 'd'); } }
  if (s && opti("more", 0)) { double u[] = {s->eta, s->L, s->V, s->T, s->t, s->E, s->S, s->m, s->rho, s->F, s->J, s->W, s->Cp, s->k, s->rhoE, s->a}; put_arr(J, "units", u, 16, 'd'); }
  if (g && m && tp && opti("more", 0)) {   /* cell averages of the markers' own quantities */
    struct { const char *n; double *a; } q[] = {{"strain", m->strain}, {"strain_el", m->strain_el}, {"strain_pl", m->strain_pl}, {"strain_pwl", m->strain_pwl}, {"strain_exp", m->strain_exp}, {"strain_lin", m->strain_lin}, {"strain_gbs", m->strain_gbs},
      {"Fxx", mo->finite_strain ? m->Fxx : 0}, {"Fxz", mo->finite_strain ? m->Fxz : 0}, {"Fzx", mo->finite_strain ? m->Fzx : 0}, {"Fzz", mo->finite_strain ? m->Fzz : 0}, {"nx", mo->anisotropy ? m->nx : 0}, {"nz", mo->anisotropy ? m->nz : 0},
      {"T0", mo->track_T_P_x_z ? m->T0 : 0}, {"P0", mo->track_T_P_x_z ? m->P0 : 0}, {"x0", mo->track_T_P_x_z ? m->x0 : 0}, {"z0", mo->track_T_P_x_z ? m->z0 : 0}, {"Tmax", mo->track_T_P_x_z ? m->Tmax : 0}, {"Pmax", mo->track_T_P_x_z ? m->Pmax : 0}};
    for (unsigned k = 0; k < sizeof q / sizeof *q; k++) if (q[k].a) {
      char b[32]; sprintf(b, "avg_%s", q[k].n); double *o = calloc((mo->Nx - 1) * (mo->Nz - 1), sizeof *o);
      P2Mastah(mo, *m, q[k].a, g, o, g->BCp.type, 1, 0, 0, 1, mo->interp_stencil); put_arr(J, b, o, (mo->Nx - 1) * (mo->Nz - 1), 'd'); free(o);
    }
  }
  fprintf(J, "}\n"); fclose(J);
  if (tr_fd >= 0 && write(tr_fd, b, n) < 0) {}
  free(b);
}
#define NEXT(type, name) type = dlsym(RTLD_NEXT, name)

/* ------------------------------------------------------------------ set-up callbacks ------------------------------ */
static unsigned hsh(int a, int b) { unsigned h = (unsigned)a * 2654435761u ^ (unsigned)b * 40503u; h ^= h >> 13; h *= 2246822519u; h ^= h >> 16; return h; }

static int SetPhase(MdoodzInput *in, Coordinates c) {
  const char *m = opt("phase", "incl");
  double L = in->model.xmax - in->model.xmin, H = in->model.zmax - in->model.zmin;
  double X = (c.x - in->model.xmin) / L, Z = (c.z - in->model.zmin) / H;
  int np = in->model.Nb_phases;
  if (!strcmp(m, "incl"))    return (X - .5) * (X - .5) + (Z - .5) * (Z - .5) < 0.0225 ? 1 % np : 0;
  if (!strcmp(m, "layers"))  return ((int)floor(Z * 5.0)) % np;
  if (!strcmp(m, "checker")) return (((int)floor(X * 4.0)) + ((int)floor(Z * 4.0))) % np;
  if (!strcmp(m, "random"))  return hsh((int)floor(X * 16), (int)floor(Z * 16)) % np;
  if (!strcmp(m, "off"))     return (X - .3) * (X - .3) + (Z - .4) * (Z - .4) < 0.04 ? 1 % np : 0;
  return 0;
}
static double SetTemperature(MdoodzInput *in, Coordinates c) {
  double Z = (c.z - in->model.zmin) / (in->model.zmax - in->model.zmin);
  double X = (c.x - in->model.xmin) / (in->model.xmax - in->model.xmin);
  double Tb = optd("Tbot", 600.0), Tt = optd("Ttop", 20.0), dT = optd("Tanom", 0.0);
  double T = Tb + (Tt - Tb) * Z + ((X - .5) * (X - .5) + (Z - .5) * (Z - .5) < 0.03 ? dT : 0.0);
  return (T + zeroC) / in->scaling.T;
}
static double SetGrainSize(MdoodzInput *in, Coordinates c, int phase) { return in->materials.gs_ref[phase]; }
static double SetPorosity(MdoodzInput *in, Coordinates c, int phase) { return 0.0; }
static double SetXComponent(MdoodzInput *in, Coordinates c, int phase) { double u = optd("xcomp", -1.0); return u >= 0 ? u : phase ? 0.75 : 0.25; }
static double SetPressure(MdoodzInput *in, Coordinates c, int phase) { return in->model.bkg_pressure; }
static double SetNoise(MdoodzInput *in, Coordinates c, int phase) { return ((double)(hsh((int)(c.x * 1e4), (int)(c.z * 1e4)) % 1000)) / 1000.0; }
static Tensor2D SetDefGrad(MdoodzInput *in, Coordinates c, int phase) { Tensor2D F; memset(&F, 0, sizeof F); F.xx = 1; F.zz = 1; return F; }
static double SurfZ(MdoodzInput *in, double x) {
  double L = in->model.xmax - in->model.xmin;
  const char *m = opt("topo", "flat");
  double z0 = optd("topo_z", 0.0) / in->scaling.L, A = optd("topo_A", 0.0) / in->scaling.L;
  if (!strcmp(m, "sine")) return z0 + A * cos(2.0 * M_PI * (x - in->model.xmin) / L);
  if (!strcmp(m, "step")) return z0 + ((x - in->model.xmin) < 0.5 * L ? A : -A);
  if (!strcmp(m, "slope")) return z0 + A * ((x - in->model.xmin) / L - 0.5);
  return z0;
}
static int SurfPhase(MdoodzInput *in, double x) { return 0; }

static SetBC BoxVx(MdoodzInput *in, POSITION p, Coordinates c) {
  SetBC bc = {0.0, -1};
  if (p == W || p == E) bc.type = 0;
  else if (p == S || p == SW || p == SE) bc.type = opti("noslip", 0) ? 11 : 13;
  else if (p == N || p == NW || p == NE) bc.type = 13;
  return bc;
}
static SetBC BoxVz(MdoodzInput *in, POSITION p, Coordinates c) {
  SetBC bc = {0.0, -1};
  if (p == W || p == E || p == SW || p == SE || p == NW || p == NE) bc.type = 13;
  else if (p == S || p == N) bc.type = 0;
  return bc;
}
static char BCPType(MdoodzInput *in, POSITION p) { return (p == NE || p == NW) ? 0 : -1; }
static SetBC BCTemp(MdoodzInput *in, POSITION p, Coordinates c, double Tg) {
  SetBC bc; double Tb = (optd("Tbot", 600.0) + zeroC) / in->scaling.T, Tt = (optd("Ttop", 20.0) + zeroC) / in->scaling.T;
  if (p == N || p == NE || p == NW || p == free_surface) { bc.value = Tt; bc.type = constant_temperature; }
  else if (p == S || p == SE || p == SW) { bc.value = Tb; bc.type = opti("insul", 0) ? constant_heatflux : constant_temperature; if (opti("insul", 0)) bc.value = 0; }
  else { bc.value = 0.; bc.type = constant_heatflux; }
  if ((p == S || p == SE || p == SW) && opt("qbot", NULL)) { bc.type = constant_heatflux; bc.value = optd("qbot", 0.0); }
  if ((p == W || p == E) && opti("tper", 0)) bc.type = -2;
  if (opti("insul", 0) == 2) { bc.value = 0; bc.type = constant_heatflux; }
  return bc;
}
static SetBC BCComp(MdoodzInput *in, POSITION p, Coordinates c, double Xg) {
  SetBC bc = {0.0, 0};
  if ((p == W || p == E) && opti("xper", 0)) bc.type = -2;
  if (p == S && opt("xflux", NULL)) bc.value = optd("xflux", 0.0);
  if (p == S && opt("xbot", NULL)) { bc.type = 1; bc.value = optd("xbot", 0.0); }
  if ((p == N || p == free_surface) && opt("xtop", NULL)) { bc.type = 1; bc.value = optd("xtop", 0.0); }
  if (p == free_surface && !opt("xtop", NULL)) bc.type = -1;
  return bc;
}
static void Mutate(MdoodzInput *in) {
  ev("{\"event\":\"Config\",\"Nt\":%d,\"ws\":%d,\"writer\":%d,\"wm\":%d,\"restart\":%d,\"istep\":%d,\"del\":%d,\"constant_dt\":%d,\"dt\":%.17g,\"adv\":%d,\"mech\":%d,\"elastic\":%d,\"safe\":%d,\"tscale\":%.17g}",
     in->model.Nt, in->model.writer_step, in->model.writer, in->model.writer_markers, in->model.irestart, in->model.istep, in->model.delete_breakpoints,
     in->model.constant_dt, in->model.dt, in->model.advection, in->model.mechanical, in->model.elastic, in->model.safe_mode, in->scaling.t);
}

/* ------------------------------------------------------------------ observation points ---------------------------- */
static int log_fs, crash_at, fs_ops; static FILE *bp_file; static char bp_name[256]; static long bp_writes;
#include <dirent.h>
static void snap(char *out, size_t cap) {   /* every restart file in the run directory with a content hash */
  size_t n = 0; n += snprintf(out, cap, "[");
  DIR *d = opendir("."); struct dirent *e; int first = 1;
  while (d && (e = readdir(d))) {
    size_t l = strlen(e->d_name);
    if (strncmp(e->d_name, "Breakpoint", 10) || l < 4 || strcmp(e->d_name + l - 4, ".dat")) continue;
    int fd = open(e->d_name, O_RDONLY); unsigned long h = 1469598103934665603UL; unsigned char b[65536]; ssize_t r; long sz = 0;
    while (fd >= 0 && (r = read(fd, b, sizeof b)) > 0) { sz += r; for (ssize_t k = 0; k < r; k++) { h ^= b[k]; h *= 1099511628211UL; } }
    if (fd >= 0) close(fd);
    n += snprintf(out + n, cap - n, "%s{\"n\":\"%s\",\"h\":\"%lx-%ld\"}", first ? "" : ",", e->d_name, h, sz); first = 0;
  }
  if (d) closedir(d);
  snprintf(out + n, cap - n, "]");
}
static int log_life, log_non;
static int cur_step = -1; static double cur_dt, cur_time;

static unsigned long hashn(grid *g, int nf) {
  unsigned long h = 1469598103934665603UL;
  double *a[3] = {g->u_in, g->v_in, g->p_in}; long n[3] = {(long)g->Nx * (g->Nz + 1), (long)(g->Nx + 1) * g->Nz, (long)(g->Nx - 1) * (g->Nz - 1)};
  for (int k = 0; k < nf; k++) { unsigned char *b = (unsigned char *)a[k]; for (long i = 0; i < n[k] * 8; i++) { h ^= b[i]; h *= 1099511628211UL; } }
  return h;
}
void EvaluateCourantCriterion(double *Vx, double *Vz, params *m, scale s, grid *mesh, int quiet) {
  static void (*f)(double *, double *, params *, scale, grid *, int);
  if (!f) NEXT(f, "EvaluateCourantCriterion");
  int first = (m->step != cur_step);
  double dt_before = m->dt, t_before = m->time, dt0 = m->dt0;
  f(Vx, Vz, m, s, mesh, quiet);
  if (log_life && first) {
    double vm = 0; int n1 = m->Nx * (m->Nz + 1), n2 = (m->Nx + 1) * m->Nz;
    for (int i = 0; i < n1; i++) if (fabs(Vx[i]) > vm) vm = fabs(Vx[i]);
    for (int i = 0; i < n2; i++) if (fabs(Vz[i]) > vm) vm = fabs(Vz[i]);
    ev("{\"event\":\"SelectDt\",\"step\":%d,\"time\":%.17g,\"dt\":%.17g,\"dt_before\":%.17g,\"dt0\":%.17g,\"vmax\":%.17g,\"C\":%.17g,\"dx\":%.17g,\"dz\":%.17g,\"dt_min\":%.17g,\"dt_max\":%.17g,\"dt_start\":%.17g}",
       m->step, t_before * s.t, m->dt * s.t, dt_before * s.t, dt0 * s.t, vm * s.V, m->Courant, m->dx * s.L, m->dz * s.L, m->dt_min * s.t, m->dt_max * s.t, m->dt_start * s.t);
  } else if (log_life) ev("{\"event\":\"AdvDt\",\"step\":%d,\"dt\":%.17g,\"dt_solve\":%.17g,\"uv\":\"%lx\"}", m->step, m->dt * s.t, dt_before * s.t, hashn(mesh, 2));
  cur_step = m->step;
}
void RogerGuntherII(markers *p, params m, grid mesh, int precomp, scale s) {
  static void (*f)(markers *, params, grid, int, scale);
  if (!f) NEXT(f, "RogerGuntherII");
  hook(p->Nx_part ? "adv0" : "chain0", &mesh, p, &m, &s, NULL, NULL);
  f(p, m, mesh, precomp, s);
  hook(p->Nx_part ? "adv1" : "chain1", &mesh, p, &m, &s, NULL, NULL);
  if (log_life) ev("{\"event\":\"Advect\",\"step\":%d,\"dt\":%.17g,\"time\":%.17g,\"n\":%d,\"chain\":%d}", m.step, m.dt * s.t, m.time * s.t, p->Nb_part, p->Nx_part == 0 ? 1 : 0);
}
void MakeBreakpointParticles(markers *p, grid *mesh, markers *tc, markers *tci, params m, surface *t, surface *ti, scale s) {
  static void (*f)(markers *, grid *, markers *, markers *, params, surface *, surface *, scale);
  if (!f) NEXT(f, "MakeBreakpointParticles");
  if (log_life) ev("{\"event\":\"BreakpointBegin\",\"step\":%d}", m.step);
  f(p, mesh, tc, tci, m, t, ti, s);
  char fl[32768] = "[]"; if (log_fs) snap(fl, sizeof fl);
  if (log_life) ev("{\"event\":\"Breakpoint\",\"step\":%d,\"time\":%.17g,\"dt\":%.17g,\"files\":%s}", m.step, m.time * s.t, m.dt * s.t, fl);
}
void WriteOutputHDF5(grid *mesh, markers *p, surface *t, markers *tc, params m, Nparams N, char *name, mat_prop mat, scale s) {
  static void (*f)(grid *, markers *, surface *, markers *, params, Nparams, char *, mat_prop, scale);
  if (!f) NEXT(f, "WriteOutputHDF5");
  hook("output", mesh, p, &m, &s, t, tc);
  f(mesh, p, t, tc, m, N, name, mat, s);
  if (log_life) ev("{\"event\":\"Output\",\"step\":%d,\"time\":%.17g,\"dt\":%.17g,\"name\":\"%s\"}", m.step, m.time * s.t, m.dt * s.t, name);
}
void WriteOutputHDF5Particles(grid *mesh, markers *p, surface *t, markers *tc, surface *ti, markers *tci, params m, char *name, mat_prop mat, scale s) {
  static void (*f)(grid *, markers *, surface *, markers *, surface *, markers *, params, char *, mat_prop, scale);
  if (!f) NEXT(f, "WriteOutputHDF5Particles");
  hook("outmark", NULL, p, &m, &s, t, tc); hook("outini", NULL, NULL, &m, &s, ti, tci);
  f(mesh, p, t, tc, ti, tci, m, name, mat, s);
  if (log_life) ev("{\"event\":\"OutputMarkers\",\"step\":%d,\"time\":%.17g,\"name\":\"%s\"}", m.step, m.time * s.t, name);
}

void LogTimeSeries(grid *g, params m, scale s) {
  static void (*f)(grid *, params, scale); if (!f) NEXT(f, "LogTimeSeries"); hook("means", g, NULL, &m, &s, NULL, NULL); f(g, m, s);
}
static grid *G_; static markers *P_; static surface *TP_; static markers *TC_; static params M_; static scale S_;
void UpdateParticleStress(grid *g, markers *p, params *m, mat_prop *mat, scale *s) {
  static void (*f)(grid *, markers *, params *, mat_prop *, scale *); if (!f) NEXT(f, "UpdateParticleStress");
  hook("solved", g, p, m, s, NULL, NULL); f(g, p, m, mat, s); hook("stressed", g, p, m, s, NULL, NULL);
}
void EnergyDirectSolve(grid *g, params m, double *r, markers *p, double dt, int sh, int ad, scale s, int nit) {
  static void (*f)(grid *, params, double *, markers *, double, int, int, scale, int); if (!f) NEXT(f, "EnergyDirectSolve");
  m.dt = dt; hook("thermal0", g, p, &m, &s, NULL, NULL); f(g, m, r, p, dt, sh, ad, s, nit); hook("thermal1", g, p, &m, &s, NULL, NULL);
}
void ChemicalDirectSolve(grid *g, params m, markers *p, mat_prop *mat, double dt, scale s) {
  static void (*f)(grid *, params, markers *, mat_prop *, double, scale); if (!f) NEXT(f, "ChemicalDirectSolve");
  m.dt = dt; hook("chem0", g, p, &m, &s, NULL, NULL); f(g, m, p, mat, dt, s); hook("chem1", g, p, &m, &s, NULL, NULL);
}
void UpdateParticleEnergy(grid *g, scale s, params m, markers *p, mat_prop *mat) {
  static void (*f)(grid *, scale, params, markers *, mat_prop *); if (!f) NEXT(f, "UpdateParticleEnergy");
  hook("energy0", g, p, &m, &s, NULL, NULL); f(g, s, m, p, mat); hook("energy1", g, p, &m, &s, NULL, NULL);
}
void UpdateParticlePressure(grid *g, scale s, params m, markers *p, mat_prop *mat) {
  static void (*f)(grid *, scale, params, markers *, mat_prop *); if (!f) NEXT(f, "UpdateParticlePressure");
  hook("press0", g, p, &m, &s, NULL, NULL); f(g, s, m, p, mat); hook("press1", g, p, &m, &s, NULL, NULL);
}
void UpdateParticlePhi(grid *g, scale s, params m, markers *p, mat_prop *mat) {
  static void (*f)(grid *, scale, params, markers *, mat_prop *); if (!f) NEXT(f, "UpdateParticlePhi");
  hook("phi0", g, p, &m, &s, NULL, NULL); f(g, s, m, p, mat); hook("phi1", g, p, &m, &s, NULL, NULL);
}
void UpdateParticleX(grid *g, scale s, params m, markers *p, mat_prop *mat) {
  static void (*f)(grid *, scale, params, markers *, mat_prop *); if (!f) NEXT(f, "UpdateParticleX");
  hook("comp0", g, p, &m, &s, NULL, NULL); f(g, s, m, p, mat); hook("comp1", g, p, &m, &s, NULL, NULL);
}
void UpdateParticleDensity(grid *g, scale s, params m, markers *p, mat_prop *mat) {
  static void (*f)(grid *, scale, params, markers *, mat_prop *); if (!f) NEXT(f, "UpdateParticleDensity");
  hook("dens0", g, p, &m, &s, NULL, NULL); f(g, s, m, p, mat); hook("dens1", g, p, &m, &s, NULL, NULL);
}
void UpdateParticleDivThermal(grid *g, scale s, params m, markers *p, mat_prop *mat) {
  static void (*f)(grid *, scale, params, markers *, mat_prop *); if (!f) NEXT(f, "UpdateParticleDivThermal");
  hook("divth0", g, p, &m, &s, NULL, NULL); f(g, s, m, p, mat); hook("divth1", g, p, &m, &s, NULL, NULL);
}
void UpdateParticleGrainSize(grid *g, scale s, params m, markers *p, mat_prop *mat) {
  static void (*f)(grid *, scale, params, markers *, mat_prop *); if (!f) NEXT(f, "UpdateParticleGrainSize");
  hook("grain0", g, p, &m, &s, NULL, NULL); f(g, s, m, p, mat); hook("grain1", g, p, &m, &s, NULL, NULL);
}
void UpdateMaxPT(scale s, params m, markers *p) {
  static void (*f)(scale, params, markers *); if (!f) NEXT(f, "UpdateMaxPT");
  hook("maxpt0", NULL, p, &m, &s, NULL, NULL); f(s, m, p); hook("maxpt1", NULL, p, &m, &s, NULL, NULL);
}
void AccumulatedStrainII(grid *g, scale s, params m, markers *p, double *xc, double *zc, int nx, int nz, char *t) {
  static void (*f)(grid *, scale, params, markers *, double *, double *, int, int, char *); if (!f) NEXT(f, "AccumulatedStrainII");
  hook("strain0", g, p, &m, &s, NULL, NULL); f(g, s, m, p, xc, zc, nx, nz, t); hook("strain1", g, p, &m, &s, NULL, NULL);
}
void DeformationGradient(grid g, scale s, params m, markers *p) {
  static void (*f)(grid, scale, params, markers *); if (!f) NEXT(f, "DeformationGradient");
  hook("defgrad0", &g, p, &m, &s, NULL, NULL); f(g, s, m, p); hook("defgrad1", &g, p, &m, &s, NULL, NULL);
}
void ParticleInflowCheck(markers *p, grid *g, MdoodzInput *in, surface tp, int flag, SetParticles_ff sp) {
  static void (*f)(markers *, grid *, MdoodzInput *, surface, int, SetParticles_ff); if (!f) NEXT(f, "ParticleInflowCheck");
  char n[32]; sprintf(n, "inflow%d0", flag); hook(n, g, p, &in->model, &in->scaling, NULL, NULL); f(p, g, in, tp, flag, sp); n[7] = '1'; hook(n, g, p, &in->model, &in->scaling, NULL, NULL);
}
void CountPartCell(markers *p, grid *g, params m, surface t, surface ti, int reseed, scale s) {
  static void (*f)(markers *, grid *, params, surface, surface, int, scale); if (!f) NEXT(f, "CountPartCell");
  if (reseed) hook("reseed0", g, p, &m, &s, &t, NULL); f(p, g, m, t, ti, reseed, s); hook(reseed ? "reseed1" : "counted", g, p, &m, &s, &t, NULL);
}
void CountPartCell_OLD(markers *p, grid *g, params m, surface t, surface ti, int reseed, scale s) {
  static void (*f)(markers *, grid *, params, surface, surface, int, scale); if (!f) NEXT(f, "CountPartCell_OLD");
  if (reseed) hook("reseed0", g, p, &m, &s, &t, NULL); f(p, g, m, t, ti, reseed, s); hook(reseed ? "reseed1" : "counted", g, p, &m, &s, &t, NULL);
}
void ComputeLithostaticPressure(grid *g, params *m, double ref, scale s, int mode) {
  static void (*f)(grid *, params *, double, scale, int); if (!f) NEXT(f, "ComputeLithostaticPressure");
  f(g, m, ref, s, mode); hook("lith", g, NULL, m, &s, NULL, NULL);
}
void PureShearALE(params *m, grid *g, markers *tc, scale s) {
  static void (*f)(params *, grid *, markers *, scale); if (!f) NEXT(f, "PureShearALE");
  hook("ale0", g, NULL, m, &s, NULL, tc); f(m, g, tc, s); hook("ale1", g, NULL, m, &s, NULL, tc);
}
void TransmutateMarkers(markers *p, mat_prop *mat, double sT) {
  static void (*f)(markers *, mat_prop *, double); if (!f) NEXT(f, "TransmutateMarkers");
  hook("trans0", NULL, p, &M_, &S_, NULL, NULL); f(p, mat, sT); hook("trans1", NULL, p, &M_, &S_, NULL, NULL);
}
void SetParticles(SetParticles_ff sp, MdoodzInput *in, markers *p) {
  static void (*f)(SetParticles_ff, MdoodzInput *, markers *); if (!f) NEXT(f, "SetParticles");
  f(sp, in, p); hook("placed", NULL, p, &in->model, &in->scaling, NULL, NULL);
}
void CellFlagging(grid *g, params m, surface t, scale s) {
  static void (*f)(grid *, params, surface, scale); if (!f) NEXT(f, "CellFlagging");
  f(g, m, t, s); hook("flagged", g, NULL, &m, &s, &t, NULL);
}
/* the surface: only the current one (the first seen), not the initial one carried along */
void InterpTopoPart2Grid(surface *t, markers *tc, params m, grid g, scale s, double *X, int ty) {
  static void (*f)(surface *, markers *, params, grid, scale, double *, int); if (!f) NEXT(f, "InterpTopoPart2Grid");
  if (!TP_) { TP_ = t; TC_ = tc; } f(t, tc, m, g, s, X, ty); if (t == TP_) hook("topo", &g, NULL, &m, &s, t, tc);
}
void RemeshMarkerChain(markers *tc, surface *t, params m, scale s, grid *g, int mode) {
  static void (*f)(markers *, surface *, params, scale, grid *, int); if (!f) NEXT(f, "RemeshMarkerChain");
  char n[32]; sprintf(n, "remesh%d0", mode); if (t == TP_) hook(n, g, NULL, &m, &s, t, tc); f(tc, t, m, s, g, mode); n[7] = '1'; if (t == TP_) hook(n, g, NULL, &m, &s, t, tc);
}
void DiffuseAlongTopography(grid *g, params m, scale s, double *a0, double *a, int n, double d, double dt) {
  static void (*f)(grid *, params, scale, double *, double *, int, double, double); if (!f) NEXT(f, "DiffuseAlongTopography");
  hook("proc0", g, NULL, &m, &s, TP_, TC_); f(g, m, s, a0, a, n, d, dt); hook("proc1", g, NULL, &m, &s, TP_, TC_);
}
void CleanUpSurfaceParticles(markers *p, grid *g, surface t, scale s) {
  static void (*f)(markers *, grid *, surface, scale); if (!f) NEXT(f, "CleanUpSurfaceParticles");
  params q = M_; q.free_surface = 1; q.Nx = g->Nx; q.dx = g->dx; q.dz = g->dz; q.xmin = g->xg_coord[0]; q.zmin = g->zg_coord[0]; hook("clean0", g, p, &q, &s, &t, NULL); f(p, g, t, s); hook("clean1", g, p, &q, &s, &t, NULL);
}
void DefineInitialTimestep(params *m, grid *g, markers p, mat_prop mat, scale s) {
  static void (*f)(params *, grid *, markers, mat_prop, scale); if (!f) NEXT(f, "DefineInitialTimestep");
  f(m, g, p, mat, s); M_ = *m; S_ = s; hook("initial", g, &p, m, &s, NULL, NULL);
}

/* residual histories imposed by the specification: SIM_RES = file with lines "rx rz rp stag" (see nonlin check) */
static double (*res)[4]; static int nres, ires; static int forced;
static void load_res(const char *fn) {
  FILE *fp = fopen(fn, "r"); if (!fp) exit(77);
  res = calloc(4096, sizeof *res);
  while (nres < 4096 && fscanf(fp, "%lf %lf %lf %lf", &res[nres][0], &res[nres][1], &res[nres][2], &res[nres][3]) == 4) nres++;
  fclose(fp); forced = 1;
}
static int in_ls, log_ls, ntrial; static double last_alpha, trial[64][4];
void ExtractSolutions2(SparseMat *S, grid *g, params *m, double *dx, double alpha) {
  static void (*f)(SparseMat *, grid *, params *, double *, double);
  if (!f) NEXT(f, "ExtractSolutions2");
  if (!opti("num", 0)) { f(S, g, m, dx, alpha); last_alpha = alpha; return; }
  int nu = g->Nx * (g->Nz + 1), nv = (g->Nx + 1) * g->Nz, np = (g->Nx - 1) * (g->Nz - 1);
  char *b; size_t n; FILE *J = open_memstream(&b, &n);
  fprintf(J, "{\"event\":\"Apply\",\"step\":%d,\"alpha\":%.17g,\"neq\":%d,\"nmom\":%d,\"ncont\":%d", m->step, alpha, S->neq, S->neq_mom, S->neq_cont);
  put_arr(J, "d", dx, S->neq, 'd'); put_arr(J, "eu", S->eqn_u, nu, 'i'); put_arr(J, "ev", S->eqn_v, nv, 'i'); put_arr(J, "ep", S->eqn_p, np, 'i');
  put_arr(J, "u0", g->u_in, nu, 'd'); put_arr(J, "v0", g->v_in, nv, 'd'); put_arr(J, "p0", g->p_in, np, 'd');
  f(S, g, m, dx, alpha); last_alpha = alpha;
  put_arr(J, "u1", g->u_in, nu, 'd'); put_arr(J, "v1", g->v_in, nv, 'd'); put_arr(J, "p1", g->p_in, np, 'd');
  dump_mesh(J, g, "BCu.type,BCu.val,BCv.type,BCv.val,BCp.type", 0);
  fprintf(J, "}\n"); fclose(J); if (tr_fd >= 0 && write(tr_fd, b, n) < 0) {} free(b);
}
void EvaluateStokesResidualDecoupled(SparseMat *S, SparseMat *A, SparseMat *B, SparseMat *C, SparseMat *D, Nparams *N, grid *g, params m, scale s, int quiet) {
  static void (*f)(SparseMat *, SparseMat *, SparseMat *, SparseMat *, SparseMat *, Nparams *, grid *, params, scale, int);
  if (!f) NEXT(f, "EvaluateStokesResidualDecoupled");
  f(S, A, B, C, D, N, g, m, s, quiet);
  if (in_ls) { if (log_ls && ntrial < 60) { trial[ntrial][0] = last_alpha; trial[ntrial][1] = N->resx; trial[ntrial][2] = N->resz; trial[ntrial][3] = N->resp; ntrial++; } return; }
  if (forced) {
    int i = ires < nres ? ires : nres - 1; ires++;
    N->resx = res[i][0]; N->resz = res[i][1]; N->resp = res[i][2];
    if (N->nit == 0) { N->resx0 = N->resx; N->resz0 = N->resz; N->resp0 = N->resp; }
  }
  if (log_non) ev("{\"event\":\"Residual\",\"step\":%d,\"nit\":%d,\"rx\":%.17g,\"rz\":%.17g,\"rp\":%.17g,\"rx0\":%.17g,\"rz0\":%.17g,\"rp0\":%.17g,\"newton\":%d,\"dt\":%.17g,\"fields\":\"%lx\",\"uv\":\"%lx\"}",
                  m.step, N->nit, N->resx, N->resz, N->resp, N->resx0, N->resz0, N->resp0, m.Newton, m.dt * s.t, hashn(g, 3), hashn(g, 2));
}
void SolveStokesDefectDecoupled(SparseMat *A, SparseMat *B, SparseMat *C, SparseMat *D, SparseMat *S, DirectSolver *P, Nparams *N, grid *g, params *m, markers *p, markers *tc, surface *t, mat_prop mat, scale s, SparseMat *JA, SparseMat *JB, SparseMat *JC) {
  static void (*f)(SparseMat *, SparseMat *, SparseMat *, SparseMat *, SparseMat *, DirectSolver *, Nparams *, grid *, params *, markers *, markers *, surface *, mat_prop, scale, SparseMat *, SparseMat *, SparseMat *);
  if (!f) NEXT(f, "SolveStokesDefectDecoupled");
  in_ls = 1; ntrial = 0; double r0[3] = {N->resx, N->resz, N->resp};
  f(A, B, C, D, S, P, N, g, m, p, tc, t, mat, s, JA, JB, JC);
  in_ls = 0;
  if (log_ls) { char b[8192]; int n = 0; b[0] = 0; for (int i = 0; i < ntrial; i++) n += sprintf(b + n, "%s[%.17g,%.17g,%.17g,%.17g]", i ? "," : "", trial[i][0], trial[i][1], trial[i][2], trial[i][3]);
    ev("{\"event\":\"Search\",\"step\":%d,\"nit\":%d,\"alpha\":%.17g,\"stag\":%d,\"rx\":%.17g,\"rz\":%.17g,\"rp\":%.17g,\"T\":[%s]}", m->step, N->nit, last_alpha, N->stagnated, r0[0], r0[1], r0[2], b); }
  if (forced) { int i = ires - 1 < nres ? ires - 1 : nres - 1; N->stagnated = (int)res[i][3]; }
  if (log_non) ev("{\"event\":\"Correct\",\"step\":%d,\"nit\":%d,\"stag\":%d,\"jac\":%d,\"newton\":%d,\"dt\":%.17g}", m->step, N->nit, N->stagnated, JA != A, m->Newton, m->dt * s.t);
}

/* ------------------------------------------------------------------ file-system operations and crash points -------- */
static int is_bp(const char *n) { const char *b = strrchr(n, '/'); b = b ? b + 1 : n; return strstr(b, "Breakpoint") != NULL; }
static void fs_op(const char *what, const char *a, const char *b) {
  fs_ops++;
  char fl[32768] = "[]"; if (log_fs) snap(fl, sizeof fl);
  if (log_fs) ev("{\"event\":\"Fs\",\"op\":\"%s\",\"a\":\"%s\",\"b\":\"%s\",\"k\":%d,\"files\":%s}", what, a, b ? b : "", fs_ops, fl);
  if (crash_at && fs_ops == crash_at) { ev("{\"event\":\"Crash\",\"k\":%d,\"files\":%s}", fs_ops, fl); _exit(99); }
}
FILE *fopen(const char *n, const char *mode) {
  static FILE *(*f)(const char *, const char *); if (!f) NEXT(f, "fopen");
  if (log_fs && is_bp(n) && (mode[0] == 'w' || mode[0] == 'a')) {
    FILE *r = f(n, mode); bp_file = r; snprintf(bp_name, sizeof bp_name, "%s", n); bp_writes = 0; fs_op("create", n, NULL); return r;
  }
  return f(n, mode);
}
FILE *fopen64(const char *n, const char *mode) { return fopen(n, mode); }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *fp) {
  static size_t (*f)(const void *, size_t, size_t, FILE *); if (!f) NEXT(f, "fwrite");
  size_t r = f(p, sz, n, fp);
  if (log_fs && fp && fp == bp_file && (++bp_writes == 1 || bp_writes == 20 || bp_writes == 45)) { fflush(fp); fs_op("write", bp_name, NULL); }
  return r;
}
int fclose(FILE *fp) {
  static int (*f)(FILE *); if (!f) NEXT(f, "fclose");
  int is = log_fs && fp && fp == bp_file; int r = f(fp);
  if (is) { bp_file = NULL; fs_op("close", bp_name, NULL); }
  return r;
}
int rename(const char *a, const char *b) {
  static int (*f)(const char *, const char *); if (!f) NEXT(f, "rename");
  int r = f(a, b); if (log_fs && (is_bp(a) || is_bp(b))) fs_op("rename", a, b); return r;
}
int remove(const char *a) {
  static int (*f)(const char *); if (!f) NEXT(f, "remove");
  int r = f(a); if (log_fs && is_bp(a)) fs_op("remove", a, NULL); return r;
}
int unlink(const char *a) {
  static int (*f)(const char *); if (!f) NEXT(f, "unlink");
  int r = f(a); if (log_fs && is_bp(a)) fs_op("remove", a, NULL); return r;
}
int system(const char *c) {
  static int (*f)(const char *); if (!f) NEXT(f, "system");
  int r = f(c); if (log_fs && c && is_bp(c)) fs_op("system", c, NULL); return r;
}

/* ------------------------------------------------------------------ main ------------------------------------------ */
int main(int argc, char **argv) {
  nopt = argc - 2; opts = argv + 2;
  const char *t = getenv("SIM_TRACE");
  if (t) tr_fd = open(t, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  log_life = opti("life", 0); log_non = opti("nonlin", 0); log_fs = opti("fs", 0); log_ls = opti("ls", 0); crash_at = opti("crash", 0);
  if (opt("res", NULL)) load_res(opt("res", NULL));
  SetParticles_ff sp; memset(&sp, 0, sizeof sp);
  sp.SetPhase = SetPhase; sp.SetTemperature = SetTemperature; sp.SetGrainSize = SetGrainSize; sp.SetPorosity = SetPorosity;
  sp.SetXComponent = SetXComponent; sp.SetPressure = SetPressure; sp.SetNoise = SetNoise; sp.SetDefGrad = SetDefGrad;
  SetBCs_ff sb; memset(&sb, 0, sizeof sb);
  const char *bc = opt("bc", "psss");
  if (!strcmp(bc, "psss")) { sb.SetBCVx = SetPureOrSimpleShearBCVx; sb.SetBCVz = SetPureOrSimpleShearBCVz; }
  else { sb.SetBCVx = BoxVx; sb.SetBCVz = BoxVz; }
  if (opti("bct", 1)) { sb.SetBCT = BCTemp; }
  sb.SetBCC = BCComp;
  if (opti("bcp", 0)) sb.SetBCPType = BCPType;
  BuildInitialTopography_ff bt = {.SetSurfaceZCoord = SurfZ, .SetSurfacePhase = SurfPhase};
  MdoodzSetup setup; memset(&setup, 0, sizeof setup);
  setup.SetParticles = &sp; setup.SetBCs = &sb; setup.MutateInput = Mutate; setup.BuildInitialTopography = &bt;
  RunMDOODZ(argv[1], &setup);
  ev("{\"event\":\"Finish\"}");
  return 0;
}
