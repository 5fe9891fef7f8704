/* Shared helpers of the unit drivers: token input on stdin, JSON events on fd 3-like stream, silence on stdout. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include "mdoodz.h"
#include "mdoodz-private.h"
static FILE *J;                                   /* the events; the library's own printing goes to /dev/null */
static void h_init(void) { int fd = dup(1); J = fdopen(fd, "w"); if (!freopen("/dev/null", "w", stdout)) exit(76); }
static int  h_word(char *w) { return scanf("%255s", w) == 1; }
static int  h_int(void) { int v; if (scanf("%d", &v) != 1) exit(75); return v; }
static double h_dbl(void) { double v; if (scanf("%lf", &v) != 1) exit(75); return v; }
static double *h_arr(int n) { double *a = calloc(n + 1, sizeof *a); for (int i = 0; i < n; i++) a[i] = h_dbl(); return a; }
static int *h_iarr(int n) { int *a = calloc(n + 1, sizeof *a); for (int i = 0; i < n; i++) a[i] = h_int(); return a; }
static char *h_carr(int n) { char *a = calloc(n + 1, 1); for (int i = 0; i < n; i++) a[i] = (char)h_int(); return a; }
static void j_d(const char *k, double v) { fprintf(J, ",\"%s\":%.17g", k, v); }
static void j_i(const char *k, long v) { fprintf(J, ",\"%s\":%ld", k, v); }
static void j_a(const char *k, const double *a, int n) { fprintf(J, ",\"%s\":[", k); for (int i = 0; i < n; i++) fprintf(J, "%s%.17g", i ? "," : "", a[i]); fputc(']', J); }
static void j_ia(const char *k, const int *a, int n) { fprintf(J, ",\"%s\":[", k); for (int i = 0; i < n; i++) fprintf(J, "%s%d", i ? "," : "", a[i]); fputc(']', J); }
static void j_ca(const char *k, const char *a, int n) { fprintf(J, ",\"%s\":[", k); for (int i = 0; i < n; i++) fprintf(J, "%s%d", i ? "," : "", (int)a[i]); fputc(']', J); }
static void j_begin(const char *e) { fprintf(J, "{\"event\":\"%s\"", e); }
static void j_end(void) { fprintf(J, "}\n"); fflush(J); }
static scale h_unit_scale(void) { scale s; memset(&s, 0, sizeof s); double *p = (double *)&s; for (size_t i = 0; i < sizeof s / sizeof(double); i++) p[i] = 1.0; return s; }
