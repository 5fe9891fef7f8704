/* EvalNumberOfEquations, InitialiseSolutionVector, ExtractSolutions2 on given node types.
   case: Nx Nz alpha | tu vu u tv vv v tp p | d[neq_max]                                              */
#include "h.h"
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); grid g; memset(&g, 0, sizeof g); SparseMat S; memset(&S, 0, sizeof S);
    g.Nx = m.Nx = h_int(); g.Nz = m.Nz = h_int(); double a = h_dbl(); int nu = g.Nx * (g.Nz + 1), nv = (g.Nx + 1) * g.Nz, np = (g.Nx - 1) * (g.Nz - 1);
    g.BCu.type = h_carr(nu); g.BCu.val = h_arr(nu); g.u_in = h_arr(nu); g.BCv.type = h_carr(nv); g.BCv.val = h_arr(nv); g.v_in = h_arr(nv); g.BCp.type = h_carr(np); g.p_in = h_arr(np); g.BCp.val = calloc(np, 8);
    int nd = nu + nv + np; double *d = h_arr(nd); 
    EvalNumberOfEquations(&g, &S); S.x = calloc(nd + 1, 8); for (int i = 0; i < nd; i++) S.x[i] = -9999;
    int ok = S.neq >= 0 && S.neq <= nd; for (int i = 0; i < nu; i++) ok &= S.eqn_u[i] < nd; for (int i = 0; i < nv; i++) ok &= S.eqn_v[i] < nd; for (int i = 0; i < np; i++) ok &= S.eqn_p[i] < nd;
    j_begin("Apply"); j_i("neq", S.neq); j_i("nmom", S.neq_mom); j_i("ncont", S.neq_cont); j_ia("eu", S.eqn_u, nu); j_ia("ev", S.eqn_v, nv); j_ia("ep", S.eqn_p, np);
    if (ok) { InitialiseSolutionVector(&g, &S, &m); j_a("x", S.x, S.neq); 
    ExtractSolutions2(&S, &g, &m, d, a); }
    j_a("u1", g.u_in, nu); j_a("v1", g.v_in, nv); j_a("p1", g.p_in, np); j_ca("tu", g.BCu.type, nu); j_ca("tv", g.BCv.type, nv); j_ca("tp", g.BCp.type, np); j_end();
    free(g.BCu.type); free(g.BCu.val); free(g.u_in); free(g.BCv.type); free(g.BCv.val); free(g.v_in); free(g.BCp.type); free(g.BCp.val); free(g.p_in); free(d); free(S.x); 
  }
  return 0;
}
