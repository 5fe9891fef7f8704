/* SolveStokesDefectDecoupled / LineSearchDecoupled with the residual landscape given by the specification.
   The residual evaluation, the nonlinearity update and the linear solver are stand-ins; the search and the application of the correction are the real ones.
   case: newton linesearch letgrow min_step rx rz rp n (alpha-ordered landscape rx rz rp)*n         */
#include "h.h"
#include <dlfcn.h>
static double tab[16][3]; static int ntab, ntr; static double tr_a[64], tr_r[64][3];
static double *u0, *v0, *p0, du[64], cur_alpha; static grid *G; static params *M; static SparseMat *SS; static double *DX;
/* the applied length is read off the fields: u = u0 + alpha*d with d = 1 on every free node */
static double applied(void) { return G->p_in[0] - p0[0]; }
void UpdateNonLinearity(grid *m, markers *p, markers *t, surface *s, mat_prop mat, params *mo, Nparams *N, scale sc, int mode, int h) {}
void EvaluateStokesResidualDecoupled(SparseMat *S, SparseMat *A, SparseMat *B, SparseMat *C, SparseMat *D, Nparams *N, grid *g, params m, scale s, int quiet) {
  double a = applied();
  int k = ntr < ntab ? ntr : ntab - 1;
  /* landscape indexed by the trial length: index = nearest of the recorded lengths, else a new trial */
  int q = -1; for (int i = 0; i < ntr; i++) if (fabs(tr_a[i] - a) < 1e-9) q = i;
  if (q < 0) { q = ntr++; tr_a[q] = a; for (int j = 0; j < 3; j++) tr_r[q][j] = tab[k][j]; }
  N->resx = tr_r[q][0]; N->resz = tr_r[q][1]; N->resp = tr_r[q][2];
}
static void fake(double *x) { for (int i = 0; i < SS->neq; i++) x[i] = 1.0; }
void DirectStokesDecoupled(SparseMat *A, SparseMat *B, SparseMat *C, SparseMat *D, DirectSolver *P, double *f, double *g, double *x, params m, grid *mesh, scale s, SparseMat *S) { fake(x); }
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); grid g; memset(&g, 0, sizeof g); Nparams N; memset(&N, 0, sizeof N); mat_prop mat; memset(&mat, 0, sizeof mat);
    SparseMat S, A, B, C, D; memset(&S, 0, sizeof S); A = B = C = D = S;
    m.Newton = h_int(); m.line_search = h_int(); N.let_res_grow = h_int(); m.line_search_min = h_dbl();
    N.resx_f = N.resx = h_dbl(); N.resz_f = N.resz = h_dbl(); N.resp_f = N.resp = h_dbl(); N.stagnated = h_int();
    ntab = h_int(); for (int i = 0; i < ntab; i++) for (int j = 0; j < 3; j++) tab[i][j] = h_dbl();
    int nx = 4, nz = 4, nu = nx * (nz + 1), nv = (nx + 1) * nz, np = (nx - 1) * (nz - 1);
    m.Nx = g.Nx = nx; m.Nz = g.Nz = nz; m.lin_solver = 0;
    g.u_in = calloc(nu, 8); g.v_in = calloc(nv, 8); g.p_in = calloc(np, 8); u0 = calloc(nu, 8); v0 = calloc(nv, 8); p0 = calloc(np, 8);
    g.BCu.type = calloc(nu, 1); g.BCv.type = calloc(nv, 1); g.BCp.type = calloc(np, 1); g.BCu.val = calloc(nu, 8); g.BCv.val = calloc(nv, 8); g.BCp.val = calloc(np, 8);
    S.eqn_u = calloc(nu, 4); S.eqn_v = calloc(nv, 4); S.eqn_p = calloc(np, 4);
    int e = 0;
    for (int l = 0; l <= nz; l++) for (int k = 0; k < nx; k++) { int c = k + l * nx; g.BCu.type[c] = (l == 0 || l == nz) ? 30 : (k == 0 || k == nx - 1) ? 0 : -1; S.eqn_u[c] = g.BCu.type[c] == -1 ? e++ : -1; u0[c] = g.BCu.val[c] = 3 + c; }
    for (int l = 0; l < nz; l++) for (int k = 0; k <= nx; k++) { int c = k + l * (nx + 1); g.BCv.type[c] = (k == 0 || k == nx) ? 30 : (l == 0 || l == nz - 1) ? 0 : -1; S.eqn_v[c] = g.BCv.type[c] == -1 ? e++ : -1; v0[c] = g.BCv.val[c] = 40 + c; }
    for (int c = 0; c < np; c++) { g.BCp.type[c] = -1; S.eqn_p[c] = e++; p0[c] = 100 + c; }
    S.neq = e; memcpy(g.u_in, u0, nu * 8); memcpy(g.v_in, v0, nv * 8); memcpy(g.p_in, p0, np * 8);
    G = &g; M = &m; SS = &S; ntr = 0;
    SolveStokesDefectDecoupled(&A, &B, &C, &D, &S, NULL, &N, &g, &m, NULL, NULL, NULL, mat, h_unit_scale(), &A, &B, &C);
    double a = applied(), spread = 0;       /* every free node moved by the same length, every other node not at all */
    for (int c = 0; c < nu; c++) { double d = fabs(g.u_in[c] - u0[c] - (g.BCu.type[c] == -1 ? a : 0)); if (g.BCu.type[c] != 30 && d > spread) spread = d; }
    for (int c = 0; c < nv; c++) { double d = fabs(g.v_in[c] - v0[c] - (g.BCv.type[c] == -1 ? a : 0)); if (g.BCv.type[c] != 30 && d > spread) spread = d; }
    for (int c = 0; c < np; c++) { double d = fabs(g.p_in[c] - p0[c] - a); if (d > spread) spread = d; }
    j_begin("Search"); j_d("alpha", a); j_i("stag", N.stagnated); j_d("spread", spread); j_a("ta", tr_a, ntr); j_a("tr", &tr_r[0][0], 3 * ntr); j_end();
    free(g.u_in); free(g.v_in); free(g.p_in); free(u0); free(v0); free(p0); free(g.BCu.type); free(g.BCv.type); free(g.BCp.type); free(g.BCu.val); free(g.BCv.val); free(g.BCp.val); free(S.eqn_u); free(S.eqn_v); free(S.eqn_p);
  }
  return 0;
}
