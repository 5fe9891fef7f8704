/* Strain rates, body forces, residual and assembled operators of the discrete Stokes problem on a given state.
   case: Nx Nz dx dz comp oop theta dt gx gz jac | tu vu tv vv tp tg | eta_n eta_s rho_n rho_s bet_n p0_n divth comp_cells | u v p | du dv dp   */
#include "h.h"
static void rows(SparseMat *M, const double *x, int off, double *y) { for (int i = 0; i < M->neq; i++) for (int j = M->Ic[i]; j < M->Ic[i + 1]; j++) y[i] += M->A[j] * x[M->J[j] - 0 + off]; }
static grid g; static params m; static int nu, nv, nc, ns;
static void state(SparseMat *S, SparseMat *A, SparseMat *B, SparseMat *C, SparseMat *D, const char *suf) {
  char k[16]; Nparams N; memset(&N, 0, sizeof N);
  ApplyBC(&g, &m); StrainRateComponents(&g, h_unit_scale(), &m);
  for (int i = 0; i < nc; i++) { g.sxxd[i] = 2 * g.eta_n[i] * g.exxd[i]; g.szzd[i] = 2 * g.eta_n[i] * g.ezzd[i]; g.p_corr[i] = g.p_in[i]; }
  for (int i = 0; i < ns; i++) g.sxz[i] = 2 * g.eta_s[i] * g.exz[i];
  EvaluateRHS(&g, m, h_unit_scale(), 1.0);
  for (int i = 0; i < nu; i++) g.ru[i] = 0; for (int i = 0; i < nv; i++) g.rv[i] = 0; for (int i = 0; i < nc; i++) g.rp[i] = 0;
  EvaluateStokesResidualDecoupled(S, A, B, C, D, &N, &g, m, h_unit_scale(), 1);
#define P(n, a, c) { sprintf(k, "%s%s", n, suf); j_a(k, a, c); }
  P("u", g.u_in, nu) P("v", g.v_in, nv) P("p", g.p_in, nc) P("div", g.div_u, nc) P("exx", g.exxd, nc) P("ezz", g.ezzd, nc) P("exz", g.exz, ns) P("ru", g.ru, nu) P("rv", g.rv, nv) P("rp", g.rp, nc)
  P("res", ((double[]){N.resx, N.resz, N.resp}), 3)
}
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    memset(&m, 0, sizeof m); m.Nx = h_int(); m.Nz = h_int(); double dx = h_dbl(), dz = h_dbl(); m.xmin = 0; m.zmin = 0; m.xmax = dx * (m.Nx - 1); m.zmax = dz * (m.Nz - 1);
    m.xmin0 = m.xmin; m.xmax0 = m.xmax; m.zmin0 = m.zmin; m.zmax0 = m.zmax; m.Nb_phases = 1; m.Nt = 1;
    g = GridAlloc(&m); SetGridCoordinates(&g, &m, m.Nx, m.Nz); GridIndices(&g); g.dx = dx; g.dz = dz; m.dx = dx; m.dz = dz;
    m.compressible = h_int(); m.out_of_plane = h_int(); m.free_surface_stab = h_dbl(); m.dt = h_dbl(); m.gx = h_dbl(); m.gz = h_dbl(); int jac = h_int();
    nu = m.Nx * (m.Nz + 1), nv = (m.Nx + 1) * m.Nz, nc = (m.Nx - 1) * (m.Nz - 1), ns = m.Nx * m.Nz;
#define RC(f, n) { char *a = h_carr(n); memcpy(g.f, a, n); free(a); }
#define RD(f, n) { double *a = h_arr(n); memcpy(g.f, a, 8 * (n)); free(a); }
    RC(BCu.type, nu) RD(BCu.val, nu) RC(BCv.type, nv) RD(BCv.val, nv) RC(BCp.type, nc) RC(BCg.type, ns)
    RD(eta_n, nc) RD(eta_s, ns) RD(rho_n, nc) RD(rho_s, ns) RD(bet_n, nc) RD(p0_n, nc) RD(divth0_n, nc) { int *a = h_iarr(nc); memcpy(g.comp_cells, a, 4 * nc); free(a); }
    RD(u_in, nu) RD(v_in, nv) RD(p_in, nc) double *du = h_arr(nu), *dv = h_arr(nv), *dp = h_arr(nc);
    SparseMat S, A, B, C, D; memset(&S, 0, sizeof S); A = B = C = D = S;
    EvalNumberOfEquations(&g, &S); SAlloc(&A, S.neq_mom); SAlloc(&B, S.neq_mom); SAlloc(&C, S.neq_cont); SAlloc(&D, S.neq_cont);
    j_begin("Balance");
    scale one = h_unit_scale(); mat_prop mat; memset(&mat, 0, sizeof mat);
    RheologicalOperators(&g, &m, &mat, &one, 0, 0);
    state(&S, &A, &B, &C, &D, "1");
    double *x = calloc(S.neq + 1, 8), *y = calloc(S.neq + 1, 8);
    for (int i = 0; i < nu; i++) if (S.eqn_u[i] >= 0 && g.BCu.type[i] != -12) x[S.eqn_u[i]] = du[i];
    for (int i = 0; i < nv; i++) if (S.eqn_v[i] >= 0) x[S.eqn_v[i]] = dv[i];
    for (int i = 0; i < nc; i++) if (S.eqn_p[i] >= 0) x[S.eqn_p[i]] = dp[i];
    for (int q = 0; q <= jac; q++) {
      if (q) { A.neq = B.neq = S.neq_mom; C.neq = D.neq = S.neq_cont; for (int i = 0; i < nc; i++) { g.D12_n[i] = g.D13_n[i] = g.D14_n[i] = g.D21_n[i] = g.D23_n[i] = g.D24_n[i] = 0; } for (int i = 0; i < ns; i++) g.D31_s[i] = g.D32_s[i] = g.D34_s[i] = 0; }
      (q ? BuildJacobianOperatorDecoupled : BuildStokesOperatorDecoupled)(&g, m, 0, g.p_corr, g.p_in, g.u_in, g.v_in, &S, &A, &B, &C, &D, 1);
      memset(y, 0, 8 * S.neq); rows(&A, x, 0, y); rows(&B, x, S.neq_mom, y); rows(&C, x, 0, y + S.neq_mom); rows(&D, x, S.neq_mom, y + S.neq_mom);
      double *mu = calloc(nu, 8), *mv = calloc(nv, 8), *mp = calloc(nc, 8);
      for (int i = 0; i < nu; i++) if (S.eqn_u[i] >= 0 && g.BCu.type[i] != -12) mu[i] = y[S.eqn_u[i]];
      for (int i = 0; i < nv; i++) if (S.eqn_v[i] >= 0) mv[i] = y[S.eqn_v[i]];
      for (int i = 0; i < nc; i++) if (S.eqn_p[i] >= 0) mp[i] = y[S.eqn_p[i]];
      j_a(q ? "ju" : "mu", mu, nu); j_a(q ? "jv" : "mv", mv, nv); j_a(q ? "jp" : "mp", mp, nc);
      free(mu); free(mv); free(mp); FreeMat(&A); FreeMat(&B); FreeMat(&C); FreeMat(&D);
    }
    for (int i = 0; i < nu; i++) if (S.eqn_u[i] >= 0 && g.BCu.type[i] != -12) g.u_in[i] += du[i];
    for (int i = 0; i < nv; i++) if (S.eqn_v[i] >= 0) g.v_in[i] += dv[i];
    for (int i = 0; i < nc; i++) if (S.eqn_p[i] >= 0) g.p_in[i] += dp[i];
    for (int l = 0; l <= m.Nz; l++) if (g.BCu.type[l * m.Nx + m.Nx - 1] == -12) g.u_in[l * m.Nx + m.Nx - 1] = g.u_in[l * m.Nx];
    state(&S, &A, &B, &C, &D, "2");
    j_end(); SFree(&A); SFree(&B); SFree(&C); SFree(&D); free(x); free(y); free(du); free(dv); free(dp);
  }
  return 0;
}
