/* Runs the model with 1 and with several threads in two scratch folders and compares every dataset of the last output. */
#include "demo_run.h"
#include <omp.h>
#include <hdf5.h>
#include <sys/wait.h>
#include <sys/stat.h>
static hid_t fA, fB; static double worst = 0; static char wn[256];
static herr_t visit(hid_t g, const char *name, const H5O_info_t *info, void *op) {
  if (info->type != H5O_TYPE_DATASET || H5Lexists(fB, name, H5P_DEFAULT) <= 0) return 0;
  hid_t a = H5Dopen2(fA, name, H5P_DEFAULT), b = H5Dopen2(fB, name, H5P_DEFAULT); hid_t s = H5Dget_space(a), s2 = H5Dget_space(b);
  hssize_t n = H5Sget_simple_extent_npoints(s), n2 = H5Sget_simple_extent_npoints(s2);
  if (H5Tget_class(H5Dget_type(a)) == H5T_STRING) return 0;
  if (n != n2) { worst = 1e9; snprintf(wn, 256, "%s (size)", name); return 0; }
  double *x = calloc(n + 1, 8), *y = calloc(n + 1, 8); H5Dread(a, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x); H5Dread(b, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, y);
  double m = 1e-9, d = 0; for (hssize_t i = 0; i < n; i++) { if (fabs(x[i]) > m) m = fabs(x[i]); if (fabs(x[i] - y[i]) > d) d = fabs(x[i] - y[i]); }
  if (d / m > worst) { worst = d / m; snprintf(wn, 256, "%s", name); }
  free(x); free(y); return 0;
}
static int compare_threads(int T, const char *input, const char *last, MdoodzSetup s) {
  for (int k = 0; k < 2; k++) {
    char d[16], c[256]; sprintf(d, "t%d", k); mkdir(d, 0755); sprintf(c, "cp %s %s/", input, d); if (system(c)) exit(9);
    pid_t p = fork();
    if (!p) { quiet(); if (chdir(d)) _exit(9); omp_set_num_threads(k ? T : 1); RunMDOODZ((char *)input, &s); _exit(0); }
    int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "run %d fails\n", k); return 1; }
  }
  char f[256]; sprintf(f, "t0/%s", last); fA = H5Fopen(f, H5F_ACC_RDONLY, H5P_DEFAULT); sprintf(f, "t1/%s", last); fB = H5Fopen(f, H5F_ACC_RDONLY, H5P_DEFAULT);
  if (fA < 0 || fB < 0) { fprintf(stderr, "output missing\n"); return 1; }
  H5Ovisit(fA, H5_INDEX_NAME, H5_ITER_INC, visit, NULL);
  fprintf(stderr, "largest relative difference %g (%s)\n", worst, wn);
  return worst > 1e-3;
}
