/* What the real reader makes of input files: one line per file named on stdin; every field of the table, in table order. */
#include "h.h"
#include <sys/wait.h>
#include "input_fields.h"
static const char *sep;
static void num(double v) {
  if (!isfinite(v)) { fprintf(J, "%s[7,77777]", sep); sep = ","; return; }
  int e = 0; long m = lround(ldexp(frexp(v, &e), 30)); if (labs(m) == 1L << 30) { m /= 2; e++; } if (m == 0) e = 0;
  fprintf(J, "%s[%ld,%d]", sep, m, e); sep = ",";
}
static void str(const char *s) { fprintf(J, "%s\"", sep); for (; *s; s++) if (*s == '"' || *s == '\\' || *s < 32) fprintf(J, "?"); else fputc(*s, J); fputc('"', J); sep = ","; }
#define I(x) fprintf(J, "%s%d", sep, (int)a.x); sep = ",";
#define R(x) num(a.x);
#define S(x) str(a.x);
#define LAW(flag, ...) { fprintf(J, "%s[", k_first ? "" : ","); k_first = 0; sep = ""; if (a.materials.flag[k]) { double v[] = {__VA_ARGS__}; for (unsigned i = 0; i < sizeof v / sizeof *v; i++) num(v[i]); } fputc(']', J); }
#define m(f) a.materials.f[k]
int main(void) {
  h_init(); char w[256];
  while (h_word(w)) {
    fflush(J); pid_t p = fork();
    if (p == 0) {
      alarm(20); if (!freopen("/dev/null", "w", stderr)) exit(76);
      Input a = ReadInputFile(w);
      j_begin("read"); fprintf(J, ",\"run\":["); sep = ""; RUN_FIELDS fprintf(J, "],\"mat\":["); int np = a.materials.Nb_phases; if (np > 20) np = 20;
      for (int k = 0; k < np; k++) { fprintf(J, "%s[", k ? "," : ""); sep = ""; MAT_FIELDS fputc(']', J); }
      fprintf(J, "],\"law\":[");
      for (int k = 0; k < np; k++) { fprintf(J, "%s[", k ? "," : ""); int k_first = 1;
        LAW(pwlv, m(tpwl), m(npwl), m(mpwl), m(rpwl), m(Qpwl), m(Vpwl), m(Apwl), m(fpwl), m(apwl), m(Fpwl))
        LAW(linv, m(tlin), m(nlin), m(mlin), m(rlin), m(Qlin), m(Vlin), m(Alin), m(flin), m(alin), m(Flin))
        LAW(gbsv, m(tgbs), m(ngbs), m(mgbs), m(rgbs), m(Qgbs), m(Vgbs), m(Agbs), m(fgbs), m(agbs), m(Fgbs))
        LAW(expv, m(texp), m(qexp), m(Gexp), m(Sexp), m(Qexp), m(Vexp), m(Eexp), m(nexp))
        LAW(gs, m(ppzm), m(Kpzm), m(Qpzm), m(Gpzm), m(cpzm), m(Lpzm))
        LAW(kin, m(Skin), m(kkin), m(Qkin)) fputc(']', J); }
      fprintf(J, "],\"der\":["); sep = ""; R(model.dx) R(model.dz) I(particles.Nb_part) I(particles.Nb_part_max) I(materials.Nb_phases) R(materials.R)
      fprintf(J, "],\"scale\":["); sep = ""; R(scaling.eta) R(scaling.L) R(scaling.V) R(scaling.T) R(scaling.t) R(scaling.a) R(scaling.E) R(scaling.S) R(scaling.m) R(scaling.rho) R(scaling.F) R(scaling.J) R(scaling.W) R(scaling.Cp) R(scaling.rhoE) R(scaling.k)
      fputc(']', J); j_end(); _exit(93);
    }
    int st = 0; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 93) { j_begin("stopped"); j_i("code", WIFEXITED(st) ? WEXITSTATUS(st) : 0); j_i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0); j_end(); }
  }
  return 0;
}
