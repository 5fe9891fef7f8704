/* The free surface: flagging, density below it, marker chain, surface processes.  Every case runs in a child: the code may stop the run.
   case: op Nx Nz xmin zmin dx dz | heights[Nx] heights0[Nx] | op's own tokens
   f: -                                   flags, then density correction
   k: n x z phase ...                     clean-up of the markers above the surface
   t: update ale n x z z0 phase ...       heights from the chain
   r: mode cap n x z z0 phase ... vx[Nx] vz[Nx+1]    chain completed (1) or put back on the surface (2)
   c: n x z ...                           initial chain kept below the surface
   d: sp diff dt base rate W V            surface processes
   v: tu[..] u[..] tv[..] v[..] n x ...   velocities of the chain
   i: -                                   new chain
   a: cap n ised1 ised2 fs track time     sediment markers
   z: cap n x z phase                     zero mean */
#include "h.h"
#include "dump.h"
#include <sys/wait.h>
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    params m; memset(&m, 0, sizeof m); m.Nx = h_int(); m.Nz = h_int(); m.xmin = h_dbl(); m.zmin = h_dbl(); m.dx = h_dbl(); m.dz = h_dbl(); int Nx = m.Nx, Nz = m.Nz;
    double *h = h_arr(Nx), *h0 = h_arr(Nx); int nu = Nx * (Nz + 1), nv = (Nx + 1) * Nz, nc = (Nx - 1) * (Nz - 1), ns = Nx * Nz;
    int upd = 0, ale = 0, mode = 0, cap = 0, n = 0, sp = 0, is1 = 0, is2 = 0, fin = 0, trk = 0; double *x = 0, *z = 0, *z0 = 0, *vx = 0, *vz = 0, diff = 0, dt = 0, base = 0, rate = 0, W = 0, V = 0, tim = 0, *uu = 0, *vv = 0; int *ph = 0; char *tu = 0, *tv = 0;
    if (w[0] == 't') { upd = h_int(); ale = h_int(); }
    if (w[0] == 'r') { mode = h_int(); cap = h_int(); }
    if (w[0] == 'd') { sp = h_int(); diff = h_dbl(); dt = h_dbl(); base = h_dbl(); rate = h_dbl(); W = h_dbl(); V = h_dbl(); }
    if (w[0] == 'v') { tu = h_carr(nu); uu = h_arr(nu); tv = h_carr(nv); vv = h_arr(nv); }
    if (w[0] == 'a') { cap = h_int(); n = h_int(); is1 = h_int(); is2 = h_int(); fin = h_int(); trk = h_int(); tim = h_dbl(); }
    if (w[0] == 'z') cap = h_int();
    if (strchr("ktrcvz", w[0])) {
      n = h_int(); x = calloc(n + 1, 8); z = calloc(n + 1, 8); z0 = calloc(n + 1, 8); ph = calloc(n + 1, 4);
      for (int i = 0; i < n; i++) { x[i] = h_dbl(); z[i] = h_dbl(); z0[i] = h_dbl(); ph[i] = h_int(); }
    }
    if (w[0] == 'r') { vx = h_arr(Nx); vz = h_arr(Nx + 1); }
    fflush(J); pid_t pid = fork();
    if (pid == 0) {
      m.xmax = m.xmin + m.dx * (Nx - 1); m.zmax = m.zmin + m.dz * (Nz - 1); m.xmin0 = m.xmin; m.xmax0 = m.xmax; m.zmin0 = m.zmin; m.zmax0 = m.zmax; m.Nb_phases = 4; m.Nt = 1; m.free_surface = 1; m.interp_stencil = 1;
      m.topo_update = upd; m.pure_shear_ALE = ale; m.surface_processes = sp; m.surf_diff = diff; m.surf_baselev = base; m.surf_sedirate = rate; m.surf_Winc = W; m.surf_Vinc = V; m.dt = dt; m.surf_ised1 = is1; m.surf_ised2 = is2; m.finite_strain = fin; m.track_T_P_x_z = trk; m.time = tim;
      grid g = GridAlloc(&m); SetGridCoordinates(&g, &m, Nx, Nz); GridIndices(&g); g.dx = m.dx; g.dz = m.dz; scale s = h_unit_scale(); s.T = zeroC; s.rho = 0.25;
      surface t; markers ch; memset(&t, 0, sizeof t); memset(&ch, 0, sizeof ch); AllocateMarkerChain(&t, &ch, m);
      memcpy(t.height, h, Nx * 8); memcpy(t.height0, h0, Nx * 8); MarkerChainPolyFit(&t, &ch, m, g);
      if (x && w[0] != 'k') { if (cap) ch.Nb_part_max = cap; ch.Nb_part = n; for (int i = 0; i < n; i++) { ch.x[i] = x[i]; ch.z[i] = z[i]; ch.z0[i] = z0[i]; ch.phase[i] = ph[i]; } }
      ParticlesInput pi; memset(&pi, 0, sizeof pi); pi.Nx_part = pi.Nz_part = 2; pi.min_part_cell = 4; pi.Nb_part = n; pi.Nb_part_max = w[0] == 'a' ? cap : n + 1;
      markers p; if (w[0] == 'k' || w[0] == 'a') p = PartAlloc(pi, &m);
      mat_prop mat; memset(&mat, 0, sizeof mat); for (int i = 0; i < 4; i++) mat.gs_ref[i] = 10 + i;
      switch (w[0]) {
        case 'f':
          for (int c = 0; c < nc; c++) { g.T[c] = 7; g.rho_n[c] = g.rho0_n[c] = 64; } for (int c = 0; c < ns; c++) g.rho_s[c] = 64;
          CellFlagging(&g, m, t, s); j_begin("Flag"); dump_mesh(J, &g, "BCp.type,BCp.val,BCt.type,T,BCp_exp.type,BCu.type,BCv.type,BCg.type", 0);
          SurfaceDensityCorrection(&g, m, t, s); dump_mesh(J, &g, "rho_n,rho0_n,rho_s,FreeSurfW_n,FreeSurfW_s", 0); j_end(); break;
        case 'k': for (int i = 0; i < n; i++) { p.x[i] = x[i]; p.z[i] = z[i]; p.phase[i] = ph[i]; } CleanUpSurfaceParticles(&p, &g, t, s); j_begin("Clean"); j_ia("ph", p.phase, n); j_a("x", p.x, n); j_a("z", p.z, n); j_i("n", p.Nb_part); j_end(); break;
        case 't': InterpTopoPart2Grid(&t, &ch, m, g, s, g.xg_coord, 0); MarkerChainPolyFit(&t, &ch, m, g); j_begin("Topo"); j_a("h", t.height, Nx); j_a("a", t.a, Nx - 1); j_a("b", t.b, Nx - 1); j_a("a0", t.a0, Nx - 1); j_a("b0", t.b0, Nx - 1); j_a("hf", t.height_finer_c, 2 * Nx - 2); j_end(); break;
        case 'r': memcpy(t.vx, vx, Nx * 8); memcpy(t.vz, vz, (Nx + 1) * 8); RemeshMarkerChain(&ch, &t, m, s, &g, mode); j_begin("Chain"); j_a("x", ch.x, ch.Nb_part); j_a("z", ch.z, ch.Nb_part); j_a("z0", ch.z0, ch.Nb_part); j_ia("ph", ch.phase, ch.Nb_part); j_a("vx", ch.Vx, ch.Nb_part); j_a("vz", ch.Vz, ch.Nb_part); j_end(); break;
        case 'c': CorrectTopoIni(0, mat, &ch, &t, m, s, &g); j_begin("Ini"); j_a("x", ch.x, n); j_a("z", ch.z, n); j_i("n", ch.Nb_part); j_end(); break;
        case 'd': DiffuseAlongTopography(&g, m, s, t.height, t.height, Nx, 0.0, dt); j_begin("Proc"); j_a("h", t.height, Nx); j_end(); break;
        case 'v': memcpy(g.BCu.type, tu, nu); memcpy(g.BCv.type, tv, nv); memcpy(g.u_in, uu, nu * 8); memcpy(g.v_in, vv, nv * 8); SurfaceVelocity(&g, m, &t, &ch, s); j_begin("Vel"); j_a("vx", ch.Vx, n); j_a("vz", ch.Vz, n); j_a("tx", t.vx, Nx); j_a("tz", t.vz, Nx + 1); j_end(); break;
        case 'i': SetTopoChainHorizontalCoords(&t, &ch, m, g, s); j_begin("New"); j_a("x", ch.x, ch.Nb_part); j_a("z", ch.z, ch.Nb_part); j_a("z0", ch.z0, ch.Nb_part); j_ia("ph", ch.phase, ch.Nb_part); j_i("max", ch.Nb_part_max); j_end(); break;
        case 'a': {
          int nf; mfld *f = marker_fields(&p, &nf); for (int q = 0; q < nf; q++) if (f[q].p) for (int i = 0; i < cap; i++) { if (f[q].t == 'd') ((double *)f[q].p)[i] = i < n ? i + 1 : -99; else ((int *)f[q].p)[i] = i < n ? (i % 3) - 1 : -99; }
          p.Nb_part = n; p.Nb_part_max = cap; AddPartSed(&p, mat, &ch, &t, m, s, &g);
          int kept = 1; for (int q = 0; q < nf; q++) if (f[q].p) for (int i = 0; i < n; i++) { if (f[q].t == 'd') { if (((double *)f[q].p)[i] != i + 1) kept = 0; } else if (((int *)f[q].p)[i] != (i % 3) - 1) kept = 0; }
          j_begin("Sed"); j_i("n", p.Nb_part); j_i("kept", kept); dump_markers(J, &p, "x,z,phase,T,P,d,strain,Fxx,Fxz,Fzx,Fzz,T0,P0,x0,z0,Tmax,Pmax,sxxd,sxz,phi,X"); j_end(); break; }
        case 'z': KeepZeroMeanTopo(&m, &t, &ch); j_begin("Zero"); j_a("h", t.height, Nx); j_a("z", ch.z, n); j_end(); break;
      }
      _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { j_begin("Stop"); j_i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); j_end(); }
    free(h); free(h0); free(x); free(z); free(z0); free(ph); free(vx); free(vz); free(uu); free(vv); free(tu); free(tv);
  }
  return 0;
}
