/* One linear step on a given state: assembly, scaling and residual as the main loop does them, then SolveStokesDefectDecoupled.
   case: Nx Nz dx dz comp oop dt gx gz dens | solver diag precond newton nd penalty maxPH absdiv reldiv absmom relmom relksp maxksp
         | tu vu tv vv tp tg | eta_n eta_s rho_n rho_s bet_n p0_n divth comp_cells | u v p | noslip
   Reported: the matrix of the step before scaling (rows), its right-hand side, the correction of the state, or the status with which the program stopped. */
#include "h.h"
#include <sys/wait.h>
static grid g; static params m; static int nu, nv, nc, ns;
static void rows(const char *k, SparseMat *M, int off) {
  fprintf(J, ",\"%s\":[", k);
  for (int i = 0; i < M->neq; i++) { fprintf(J, "%s[", i ? "," : ""); for (int j = M->Ic[i]; j < M->Ic[i + 1]; j++) fprintf(J, "%s%d,%.17g", j > M->Ic[i] ? "," : "", M->J[j] + off, M->A[j]); fputc(']', J); }
  fputc(']', J);
}
static unsigned ls; static int lcg(int k) { ls = ls * 1103515245u + 12345u; return (int)((ls >> 16) % k); }
#define RC(f, n) { char *a = h_carr(n); memcpy(g.f, a, n); free(a); }
#define RD(f, n) { double *a = h_arr(n); memcpy(g.f, a, 8 * (n)); free(a); }
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    if (w[0] == 'd') {   /* d Nx Nz calls | per call: tp bet : detection of compressible cells, call after call on one grid */
      memset(&m, 0, sizeof m); m.Nx = h_int(); m.Nz = h_int(); int q = h_int(); m.xmax = m.zmax = m.xmax0 = m.zmax0 = 1; m.Nb_phases = 1; m.Nt = 1; g = GridAlloc(&m); nc = (m.Nx - 1) * (m.Nz - 1);
      j_begin("Detect"); fprintf(J, ",\"flags\":[");
      for (int k = 0; k < q; k++) { RC(BCp.type, nc) RD(bet_n, nc) DetectCompressibleCells(&g, &m); fprintf(J, "%s[", k ? "," : ""); for (int i = 0; i < nc; i++) fprintf(J, "%s%d", i ? "," : "", g.comp_cells[i]); fputc(']', J); }
      fputc(']', J); j_end(); continue;
    }
    memset(&m, 0, sizeof m); m.Nx = h_int(); m.Nz = h_int(); double dx = h_dbl(), dz = h_dbl(); m.xmax = dx * (m.Nx - 1); m.zmax = dz * (m.Nz - 1);
    m.xmax0 = m.xmax; m.zmax0 = m.zmax; m.Nb_phases = 1; m.Nt = 1;
    g = GridAlloc(&m); SetGridCoordinates(&g, &m, m.Nx, m.Nz); GridIndices(&g); g.dx = dx; g.dz = dz; m.dx = dx; m.dz = dz;
    m.compressible = h_int(); m.out_of_plane = h_int(); m.dt = h_dbl(); m.gx = h_dbl(); m.gz = h_dbl(); m.density_variations = h_int();
    m.lin_solver = h_int(); m.diag_scaling = h_int(); m.preconditioner = h_int(); m.Newton = h_int(); ls = h_int(); int nd = ls;
    m.penalty = h_dbl(); m.max_its_PH = h_int(); m.lin_abs_div = h_dbl(); m.lin_rel_div = h_dbl(); m.lin_abs_mom = h_dbl(); m.lin_rel_mom = h_dbl(); m.rel_tol_KSP = h_dbl(); m.max_its_KSP = h_int();
    nu = m.Nx * (m.Nz + 1), nv = (m.Nx + 1) * m.Nz, nc = (m.Nx - 1) * (m.Nz - 1), ns = m.Nx * m.Nz;
    RC(BCu.type, nu) RD(BCu.val, nu) RC(BCv.type, nv) RD(BCv.val, nv) RC(BCp.type, nc) RC(BCg.type, ns)
    RD(eta_n, nc) RD(eta_s, ns) RD(rho_n, nc) RD(rho_s, ns) RD(bet_n, nc) RD(p0_n, nc) RD(divth0_n, nc) { int *a = h_iarr(nc); memcpy(g.comp_cells, a, 4 * nc); free(a); }
    RD(u_in, nu) RD(v_in, nv) RD(p_in, nc)
    fflush(J); pid_t kid = fork();
    if (kid) { int st; waitpid(kid, &st, 0); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
      if (rc >= 66) exit(rc); if (rc != 3) { j_begin("Stopped"); j_i("rc", rc); j_end(); } continue; }
    for (int i = 0; i < nc; i++) { g.rho0_n[i] = g.rho_n[i]; g.drhodp_n[i] = m.density_variations ? g.bet_n[i] * g.rho_n[i] : 0; }
    SparseMat S, A, B, C, D, JS, JA, JB, JC, JD; memset(&S, 0, sizeof S); A = B = C = D = JS = JA = JB = JC = JD = S; Nparams N; memset(&N, 0, sizeof N);
    EvalNumberOfEquations(&g, &S); JS = S;
    SAlloc(&A, S.neq_mom); SAlloc(&B, S.neq_mom); SAlloc(&C, S.neq_cont); SAlloc(&D, S.neq_cont); SAlloc(&JA, S.neq_mom); SAlloc(&JB, S.neq_mom); SAlloc(&JC, S.neq_cont); SAlloc(&JD, S.neq_cont);
    scale one = h_unit_scale(); mat_prop mat; memset(&mat, 0, sizeof mat); DirectSolver ds; memset(&ds, 0, sizeof ds);
    ApplyBC(&g, &m); StrainRateComponents(&g, one, &m);
    for (int i = 0; i < nc; i++) { g.sxxd[i] = 2 * g.eta_n[i] * g.exxd[i]; g.szzd[i] = 2 * g.eta_n[i] * g.ezzd[i]; g.p_corr[i] = g.p_in[i]; }
    for (int i = 0; i < ns; i++) g.sxz[i] = 2 * g.eta_s[i] * g.exz[i];
    EvaluateRHS(&g, m, one, 1.0);
    RheologicalOperators(&g, &m, &mat, &one, 0, 0);
    BuildStokesOperatorDecoupled(&g, m, 0, g.p_corr, g.p_in, g.u_in, g.v_in, &S, &A, &B, &C, &D, 1);
    if (m.Newton) {
      double *f[] = {g.D12_n, g.D13_n, g.D14_n, g.D21_n, g.D23_n, g.D24_n}, *h[] = {g.D31_s, g.D32_s, g.D34_s};
      for (int q = 0; q < 6; q++) for (int i = 0; i < nc; i++) f[q][i] = nd && q != 2 && q != 5 ? lcg(3) - 1 : 0;
      for (int q = 0; q < 3; q++) for (int i = 0; i < ns; i++) h[q][i] = nd && q != 2 ? lcg(3) - 1 : 0;
      BuildJacobianOperatorDecoupled(&g, m, 0, g.p_corr, g.p_in, g.u_in, g.v_in, &JS, &JA, &JB, &JC, &JD, 1);
    }
    SparseMat *XA = m.Newton ? &JA : &A, *XB = m.Newton ? &JB : &B, *XC = m.Newton ? &JC : &C;
    char *held; size_t hl; FILE *J0 = J; J = open_memstream(&held, &hl);      /* nothing is reported if the step stops the program */
    j_begin("Solve"); j_i("mom", S.neq_mom); j_i("cont", S.neq_cont); rows("A", XA, 0); rows("B", XB, S.neq_mom); rows("C", XC, 0);
    int *cell = calloc(S.neq + 1, 4);
    for (int i = 0; i < nc; i++) if (S.eqn_p[i] >= 0 && g.BCp.type[i] == -1) cell[S.eqn_p[i] - S.neq_mom] = i;
    j_ia("cell", cell, S.neq_cont);
    /* residual before scaling */
    EvaluateStokesResidualDecoupled(&S, &A, &B, &C, &D, &N, &g, m, one, 1);
    double *F = calloc(S.neq + 1, 8); memcpy(F, A.F, 8 * S.neq_mom); memcpy(F + S.neq_mom, C.F, 8 * S.neq_cont); j_a("F", F, S.neq);
    if (m.diag_scaling) {
      if (!m.Newton) ExtractDiagonalScale(&A, &B, &C, &D); else { ExtractDiagonalScale(&JA, &JB, &JC, &JD); ArrayEqualArray(A.d, JA.d, A.neq); ArrayEqualArray(C.d, JC.d, C.neq); }
      ScaleMatrix(&A, &B, &C, &D);
    }
    EvaluateStokesResidualDecoupled(&S, &A, &B, &C, &D, &N, &g, m, one, 1);
    if (m.Newton) { ArrayEqualArray(JA.F, A.F, A.neq); ArrayEqualArray(JC.F, C.F, C.neq); if (m.diag_scaling) ScaleMatrix(&JA, &JB, &JC, &JD); }
    double *u0 = malloc(8 * nu), *v0 = malloc(8 * nv), *p0 = malloc(8 * nc); memcpy(u0, g.u_in, 8 * nu); memcpy(v0, g.v_in, 8 * nv); memcpy(p0, g.p_in, 8 * nc);
    cholmod_start(&ds.c); ds.Analyze = 1;
    SolveStokesDefectDecoupled(&A, &B, &C, &D, &S, &ds, &N, &g, &m, 0, 0, 0, mat, one, XA, XB, XC);
    double *x = calloc(S.neq + 1, 8);
    for (int i = 0; i < nu; i++) if (S.eqn_u[i] >= 0 && g.BCu.type[i] != -12) x[S.eqn_u[i]] = u0[i] - g.u_in[i];
    for (int i = 0; i < nv; i++) if (S.eqn_v[i] >= 0 && g.BCv.type[i] != -12) x[S.eqn_v[i]] = v0[i] - g.v_in[i];
    for (int i = 0; i < nc; i++) if (S.eqn_p[i] >= 0) x[S.eqn_p[i]] = p0[i] - g.p_in[i];
    j_a("x", x, S.neq);
    /* everything that is not an unknown keeps its value (periodic copies and walls are set by the boundary conditions) */
    int kept = 1; for (int i = 0; i < nc; i++) if (S.eqn_p[i] < 0 && g.p_in[i] != p0[i]) kept = 0;
    j_i("kept", kept); j_end(); fclose(J); J = J0; fwrite(held, 1, hl, J); fflush(J); _exit(3);
  }
  return 0;
}
