/* SetBCs / InitialiseSolutionFields / ApplyBC and the stock shear conditions.
   set:  Nx Nz xmin xmax zmin zmax flux hasP hasT | airU airV airC | tu vu tv vv | tp[10] tT[10]
   stock: Nx Nz xmin xmax zmin zmax bkg style
   init: Nx Nz xmin xmax zmin zmax bkg style step periodic | tu vu tv vv u v            */
#include "h.h"
#include "dump.h"
#include <sys/wait.h>
static int NX, NZ, *tu, *tv, *tp, *tT, *posu, *posv, *posp, badT, badX, *nT; static double *vu, *vv, tol = 1e-9; static grid g; static int np_call;
static SetBC bx(MdoodzInput *in, POSITION p, Coordinates c) { int i = c.k + c.l * NX; posu[i] = fabs(c.x - g.xg_coord[(int)c.k]) < tol && fabs(c.z - g.zvx_coord[(int)c.l]) < tol ? (int)p : -9; SetBC b = {.value = vu[i], .type = tu[i]}; return b; }
static SetBC bz(MdoodzInput *in, POSITION p, Coordinates c) { int i = c.k + c.l * (NX + 1); posv[i] = fabs(c.x - g.xvz_coord[(int)c.k]) < tol && fabs(c.z - g.zg_coord[(int)c.l]) < tol ? (int)p : -9; SetBC b = {.value = vv[i], .type = tv[i]}; return b; }
static char bp(MdoodzInput *in, POSITION p) { return tp[p]; }
static SetBC bt(MdoodzInput *in, POSITION p, Coordinates c, double T) { if (fabs(T - (c.k + c.l * (NX - 1))) > tol || fabs(c.x - g.xc_coord[(int)c.k]) > tol || fabs(c.z - g.zc_coord[(int)c.l]) > tol) badT++; SetBC b = {.value = 10000 * p + 100 * c.k + c.l, .type = tT[p]}; return b; }
static SetBC bc(MdoodzInput *in, POSITION p, Coordinates c, double X) { if (fabs(X - (0.25 + c.k + c.l * (NX - 1))) > tol) badX++; SetBC b = {.value = 10000 * p + 100 * c.k + c.l + 7, .type = tT[p]}; return b; }
static void mk(params *m) {
  memset(m, 0, sizeof *m); m->Nx = NX = h_int(); m->Nz = NZ = h_int(); m->xmin = h_dbl(); m->xmax = h_dbl(); m->zmin = h_dbl(); m->zmax = h_dbl();
  m->xmin0 = m->xmin; m->xmax0 = m->xmax; m->zmin0 = m->zmin; m->zmax0 = m->zmax; m->Nb_phases = 1; m->Nt = 1;
  g = GridAlloc(m); SetGridCoordinates(&g, m, NX, NZ); GridIndices(&g);
}
int main(void) {
  h_init(); char w[256]; params m; MdoodzInput in; LateralFlux fl; 
  while (h_word(w)) {
    memset(&in, 0, sizeof in); in.scaling = h_unit_scale();
    mk(&m); int nu = NX * (NZ + 1), nv = (NX + 1) * NZ, nc = (NX - 1) * (NZ - 1);
    SetBCs_ff f; memset(&f, 0, sizeof f);
    if (!strcmp(w, "set")) {
      int flux = h_int(), hasP = h_int(), hasT = h_int();
      char *au = h_carr(nu), *av = h_carr(nv), *ac = h_carr(nc); tu = h_iarr(nu); vu = h_arr(nu); tv = h_iarr(nv); vv = h_arr(nv); tp = h_iarr(10); tT = h_iarr(10);
      posu = calloc(nu, 4); posv = calloc(nv, 4); for (int i = 0; i < nu; i++) posu[i] = -1; for (int i = 0; i < nv; i++) posv[i] = -1;
      for (int i = 0; i < nu; i++) g.BCu.type[i] = au[i] ? 30 : -1; for (int i = 0; i < nv; i++) g.BCv.type[i] = av[i] ? 30 : -1;
      for (int i = 0; i < nc; i++) { g.BCp.type[i] = g.BCt.type[i] = g.BCc.type[i] = ac[i] ? 30 : -1; g.T[i] = i; g.X_n[i] = g.X0_n[i] = 0.25 + i; }
      badT = badX = 0; in.model = m; in.flux = flux ? &fl : NULL; if (flux) fl.west = fl.east = -77;
      f.SetBCVx = bx; f.SetBCVz = bz; if (hasP) f.SetBCPType = bp; if (hasT) { f.SetBCT = bt; f.SetBCC = bc; }
      surface tp0; memset(&tp0, 0, sizeof tp0);
      fflush(J);
      pid_t pid = fork();          /* an inconsistent set-up must be refused: the refusal ends the process */
      if (pid == 0) {
        SetBCs(f, &in, &g, &tp0);
        j_begin("Set"); j_i("badT", badT); j_i("badX", badX); j_ia("posu", posu, nu); j_ia("posv", posv, nv); if (flux) { j_d("west", fl.west); j_d("east", fl.east); }
        dump_mesh(J, &g, "BCu.type,BCu.val,BCv.type,BCv.val,BCp.type,BCp.val,BCT_exp.type,BCT_exp.val,BCC_exp.type,BCC_exp.val", 0); j_end(); _exit(0);
      }
      int st; waitpid(pid, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { j_begin("Refused"); j_i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : -1); j_end(); }
      free(au); free(av); free(ac); free(tu); free(tv); free(vu); free(vv); free(tp); free(tT); free(posu); free(posv);
    } else if (!strcmp(w, "stock")) {
      m.bkg_strain_rate = h_dbl(); m.shear_style = h_int(); in.model = m; f.SetBCVx = SetPureOrSimpleShearBCVx; f.SetBCVz = SetPureOrSimpleShearBCVz;
      surface tp0; memset(&tp0, 0, sizeof tp0);
      for (int i = 0; i < nc; i++) g.BCt.type[i] = g.BCc.type[i] = -1;
      SetBCs(f, &in, &g, &tp0);
      j_begin("Stock"); dump_mesh(J, &g, "BCu.type,BCu.val,BCv.type,BCv.val,BCp.type", 0); j_end();
    } else {
      m.bkg_strain_rate = h_dbl(); m.shear_style = h_int(); m.step = h_int(); m.periodic_x = h_int(); int how = h_int();
      int *a = h_iarr(nu); double *b = h_arr(nu); int *c = h_iarr(nv); double *d = h_arr(nv); double *u = h_arr(nu), *v = h_arr(nv);
      for (int i = 0; i < nu; i++) { g.BCu.type[i] = a[i]; g.BCu.val[i] = b[i]; g.u_in[i] = u[i]; }
      for (int i = 0; i < nv; i++) { g.BCv.type[i] = c[i]; g.BCv.val[i] = d[i]; g.v_in[i] = v[i]; }
      if (how) InitialiseSolutionFields(&g, &m); else ApplyBC(&g, &m);
      j_begin("Fields"); dump_mesh(J, &g, "u_in,v_in", 0); j_end();
      free(a); free(b); free(c); free(d); free(u); free(v);
    }
  }
  return 0;
}
