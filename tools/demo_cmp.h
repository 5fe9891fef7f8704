/* Runs the model in scratch folders and compares output files. */
#include "demo_run.h"
#include <hdf5.h>
#include <sys/wait.h>
#include <sys/stat.h>
static hid_t fA, fB; static double worst = 0; static char wn[256];
static herr_t visit(hid_t g, const char *name, const H5O_info_t *info, void *op) {
  if (info->type != H5O_TYPE_DATASET || H5Lexists(fB, name, H5P_DEFAULT) <= 0) return 0;
  hid_t a = H5Dopen2(fA, name, H5P_DEFAULT), b = H5Dopen2(fB, name, H5P_DEFAULT); hid_t s = H5Dget_space(a), s2 = H5Dget_space(b);
  hssize_t n = H5Sget_simple_extent_npoints(s), n2 = H5Sget_simple_extent_npoints(s2);
  if (H5Tget_class(H5Dget_type(a)) == H5T_STRING) return 0;
  if (n != n2) { worst = 1e9; snprintf(wn, 256, "%s (size)", name); return 0; }
  double *x = calloc(n + 1, 8), *y = calloc(n + 1, 8); H5Dread(a, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x); H5Dread(b, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, y);
  double m = 1e-9, d = 0; for (hssize_t i = 0; i < n; i++) { if (fabs(x[i]) > m) m = fabs(x[i]); if (fabs(x[i] - y[i]) > d) d = fabs(x[i] - y[i]); }
  if (d / m > worst) { worst = d / m; snprintf(wn, 256, "%s", name); }
  free(x); free(y); return 0;
}
static int run_in(const char *d, const char *input, MdoodzSetup s) {
  char c[256]; mkdir(d, 0755); sprintf(c, "cp %s %s/", input, d); if (system(c)) exit(9);
  fflush(NULL); pid_t p = fork();
  if (!p) { quiet(); if (chdir(d)) _exit(9); RunMDOODZ((char *)input, &s); fflush(NULL); _exit(0); }
  int st; waitpid(p, &st, 0); return !WIFEXITED(st) ? 99 : WEXITSTATUS(st);
}
static double compare_h5(const char *a, const char *b) {
  fA = H5Fopen(a, H5F_ACC_RDONLY, H5P_DEFAULT); fB = H5Fopen(b, H5F_ACC_RDONLY, H5P_DEFAULT); if (fA < 0 || fB < 0) { fprintf(stderr, "output missing\n"); return 1e9; }
  worst = 0; H5Ovisit(fA, H5_INDEX_NAME, H5_ITER_INC, visit, NULL); fprintf(stderr, "largest relative difference %g (%s)\n", worst, wn); return worst;
}
static double *h5get(const char *f, const char *ds, int *n) {
  hid_t h = H5Fopen(f, H5F_ACC_RDONLY, H5P_DEFAULT), d = H5Dopen2(h, ds, H5P_DEFAULT); if (d < 0) { fprintf(stderr, "no %s\n", ds); _exit(9); }
  *n = H5Sget_simple_extent_npoints(H5Dget_space(d)); double *x = calloc(*n + 1, 8); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x); return x;
}
