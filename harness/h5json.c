/* h5json FILE...: prints every dataset of HDF5 files as one JSON object per line {"file":..,"name":..,"n":..,"type":..,"v":[..]} */
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static const char *cur;
static herr_t visit(hid_t g, const char *name, const H5O_info_t *info, void *op) {
  if (info->type != H5O_TYPE_DATASET) return 0;
  hid_t d = H5Dopen2(g, name, H5P_DEFAULT), s = H5Dget_space(d), t = H5Dget_type(d);
  hssize_t n = H5Sget_simple_extent_npoints(s);
  H5T_class_t c = H5Tget_class(t); size_t sz = H5Tget_size(t);
  printf("{\"file\":\"%s\",\"name\":\"%s\",\"n\":%ld,\"type\":\"%s%zu\",\"v\":[", cur, name, (long)n, c == H5T_FLOAT ? "f" : "i", sz);
  double *v = malloc(sizeof(double) * (n > 0 ? n : 1));
  if (n > 0 && H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v) < 0) n = 0;
  for (hssize_t i = 0; i < n; i++) { if (isfinite(v[i])) printf(i ? ",%.17g" : "%.17g", v[i]); else printf(i ? ",\"%s\"" : "\"%s\"", isnan(v[i]) ? "nan" : "inf"); }
  printf("]}\n");
  free(v); H5Tclose(t); H5Sclose(s); H5Dclose(d);
  return 0;
}
int main(int argc, char **argv) {
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  for (int i = 1; i < argc; i++) {
    cur = argv[i];
    hid_t f = H5Fopen(cur, H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) { printf("{\"file\":\"%s\",\"error\":1}\n", cur); continue; }
    H5Ovisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, (H5O_iterate_t)visit, NULL);
    H5Fclose(f);
  }
  return 0;
}
