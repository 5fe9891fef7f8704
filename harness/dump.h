/* Named access to mesh, marker and surface arrays, printed as JSON members. */
#include <stdio.h>
#include <string.h>
typedef struct { const char *n; void *p; int k; char t; } fld;   /* k: 0 cells 1 vertices 2 Vx 3 Vz 4 extended cells 5 Nx 6 Nz 7 ncx 8 ncz 9 Nx+1 10 Nz+1 */
#define D(f, k) {#f, (void *)g->f, k, 'd'}
#define C(f, k) {#f, (void *)g->f, k, 'c'}
#define I(f, k) {#f, (void *)g->f, k, 'i'}
static fld *mesh_fields(grid *g, int *n) {
  static fld *out; fld t[] = {
    D(u_in, 2), D(v_in, 3), D(p_in, 0), D(p_corr, 0), D(u_start, 2), D(v_start, 3), D(p_start, 0), D(div_u, 0), D(roger_x, 2), D(roger_z, 3), D(ru, 2), D(rv, 3), D(rp, 0), D(rhs_t, 0),
    D(sxz_n, 0), D(sxxd_s, 1), D(szzd_s, 1), D(exxd_s, 1), D(ezzd_s, 1), D(exz_n, 0), D(sxxd, 0), D(szzd, 0), D(sxz, 1), D(exxd, 0), D(ezzd, 0), D(exz, 1), D(wxz, 1), D(sxxd0, 0), D(szzd0, 0), D(sxz0, 1), D(mu_s, 1), D(mu_n, 0), D(eta_phys_n, 0), D(eta_phys_s, 1), D(eta_s, 1), D(eta_n, 0), D(VE_n, 0), D(VE_s, 1),
    D(rho_n, 0), D(rho_s, 1), D(rho0_n, 0), D(kx, 2), D(kz, 3), D(kc_x, 2), D(kc_z, 3), D(Cp, 0), D(Qr, 0), D(T, 0), D(T0_n, 0), D(d_n, 0), D(d0_n, 0), D(phi_n, 0), D(phi0_n, 0), D(X_n, 0), D(X0_n, 0), D(X_s, 1), D(X0_s, 1), D(p0_n, 0), D(p0_s, 1), D(p_lith, 0),
    D(alp, 0), D(bet_n, 0), D(bet_s, 1), D(strain_n, 0), D(strain_s, 1), D(noise_n, 0), D(noise_s, 1), D(divth_n, 0), D(divth0_n, 0), D(C_n, 0), D(C_s, 1), D(fric_n, 0), D(fric_s, 1), D(dil_n, 0), D(dil_s, 1), D(Wdiss, 0), D(Wel, 0), D(Wtot, 0),
    D(eII_el, 0), D(eII_pl, 0), D(eII_pwl, 0), D(eII_exp, 0), D(eII_lin, 0), D(eII_gbs, 0), D(eII_cst, 0), D(FreeSurfW_n, 0), D(FreeSurfW_s, 1), D(div_u_el, 0), D(div_u_pl, 0), D(div_u_r, 0), D(OverS_n, 0), C(BCt_fine.type, 13), D(kc_x, 2), D(kc_z, 3), D(d1_n, 0), D(d2_n, 0), D(d1_s, 1), D(d2_s, 1), D(angle_n, 0), D(angle_s, 1), D(aniso_factor_n, 0), D(aniso_factor_s, 1),
    D(xg_coord, 5), D(zg_coord, 6), D(xc_coord, 7), D(zc_coord, 8), D(xvz_coord, 9), D(zvx_coord, 10), D(xg_coord0, 5), D(zg_coord0, 6), D(xg_coord_ext, 11), D(zg_coord_ext, 12),
    I(nb_part_cell, 0), I(nb_part_vert, 1), I(comp_cells, 0), D(cell_min_z, 0), D(cell_max_z, 0), D(vert_min_z, 1), D(vert_max_z, 1), D(sxx_W, 10), D(sxx_E, 10), D(szz_S, 9), D(szz_N, 9),
    C(BCu.type, 2), C(BCv.type, 3), C(BCp.type, 0), C(BCg.type, 1), C(BCt.type, 0), C(BCc.type, 0), C(BCT_exp.type, 4), C(BCC_exp.type, 4), C(BCp_exp.type, 4), D(BCu.val, 2), D(BCv.val, 3), D(BCp.val, 0), D(BCT_exp.val, 4), D(BCC_exp.val, 4), D(BCg.val, 1), D(BCt.val, 0) };
  *n = sizeof t / sizeof *t; out = realloc(out, sizeof t); memcpy(out, t, sizeof t); return out;
}
#undef D
#undef C
#undef I
static int fld_len(grid *g, int k) {
  int a = g->Nx, b = g->Nz;
  switch (k) { case 0: return (a-1)*(b-1); case 1: return a*b; case 2: return a*(b+1); case 3: return (a+1)*b; case 4: return (a+1)*(b+1); case 5: return a; case 6: return b; case 7: return a-1; case 8: return b-1; case 9: return a+1; case 13: return 4*(a-1)*(b-1); case 11: return a+2; case 12: return b+2; default: return b+1; }
}
static int wanted(const char *list, const char *name) {
  if (!list) return 0;
  size_t n = strlen(name); const char *p = list;
  while ((p = strstr(p, name))) { if ((p == list || p[-1] == ',') && (p[n] == 0 || p[n] == ',')) return 1; p += n; }
  return 0;
}
static void put_arr(FILE *J, const char *name, void *p, int n, char t) {
  fprintf(J, ",\"%s\":[", name);
  for (int i = 0; i < n; i++) {
    if (i) fputc(',', J);
    if (t == 'd') fprintf(J, "%.17g", ((double *)p)[i]); else if (t == 'c') fprintf(J, "%d", (int)((signed char *)p)[i]); else fprintf(J, "%d", ((int *)p)[i]);
  }
  fputc(']', J);
}
static void dump_mesh(FILE *J, grid *g, const char *list, int nph) {
  int n; fld *f = mesh_fields(g, &n);
  for (int i = 0; i < n; i++) if (wanted(list, f[i].n) && f[i].p) put_arr(J, f[i].n, f[i].p, fld_len(g, f[i].k), f[i].t);
  for (int p = 0; p < nph; p++) {
    char b[64];
    if (wanted(list, "phase_perc_n")) { sprintf(b, "phase_perc_n%d", p); put_arr(J, b, g->phase_perc_n[p], fld_len(g, 0), 'd'); }
    if (wanted(list, "phase_perc_s")) { sprintf(b, "phase_perc_s%d", p); put_arr(J, b, g->phase_perc_s[p], fld_len(g, 1), 'd'); }
  }
}
typedef struct { const char *n; void *p; char t; } mfld;
#define D(f) {#f, (void *)m->f, 'd'}
#define I(f) {#f, (void *)m->f, 'i'}
static mfld *marker_fields(markers *m, int *n) {
  static mfld *out; mfld t[] = { D(x), D(z), D(P), D(Vx), D(Vz), D(phi), D(X), D(T), D(d), D(nx), D(nz), D(rho), D(sxxd), D(szzd), D(sxz), D(divth), D(noise), D(strain), D(strain_el), D(strain_pl), D(strain_pwl), D(strain_exp), D(strain_lin), D(strain_gbs),
    D(Fxx), D(Fxz), D(Fzx), D(Fzz), D(T0), D(P0), D(x0), D(z0), D(Tmax), D(Pmax), D(aniso_angle), I(phase), I(dual), I(generation), I(intag) };
  *n = sizeof t / sizeof *t; out = realloc(out, sizeof t); memcpy(out, t, sizeof t); return out;
}
#undef D
#undef I
static void dump_markers(FILE *J, markers *m, const char *list) {
  int n; mfld *f = marker_fields(m, &n);
  for (int i = 0; i < n; i++) if (wanted(list, f[i].n) && f[i].p) { char b[64]; sprintf(b, "m_%s", f[i].n); put_arr(J, b, f[i].p, m->Nb_part, f[i].t); }
}
