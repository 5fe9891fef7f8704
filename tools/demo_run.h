/* Minimal set-up for running the whole model: two phases (inclusion), pure/simple shear. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <dlfcn.h>
#include "mdoodz.h"
#include "mdoodz-private.h"
static double topo_amp = 0.0;
static int Phase(MdoodzInput *in, Coordinates c) { double x = c.x, z = c.z; return x * x + z * z < 0.09 ? 1 : 0; }
static double Temp(MdoodzInput *in, Coordinates c) { return 1.0; }
static double Dens(MdoodzInput *in, Coordinates c, int p) { return in->materials.rho[p]; }
static double Topo(MdoodzInput *in, double x) { return topo_amp * cos(3.14159265358979 * x); }
static MdoodzSetup mk_setup(int bc) {
  static SetParticles_ff p; static SetBCs_ff b; static BuildInitialTopography_ff t; MdoodzSetup s; memset(&s, 0, sizeof s);
  p.SetPhase = Phase; p.SetTemperature = Temp; p.SetDensity = Dens; b.SetBCVx = SetPureOrSimpleShearBCVx; b.SetBCVz = SetPureOrSimpleShearBCVz;
  t.SetSurfaceZCoord = Topo; s.SetParticles = &p; s.SetBCs = &b; s.BuildInitialTopography = &t; return s;
}
static void quiet(void) { fflush(stdout); if (!freopen("/dev/null", "w", stdout)) exit(9); }
#define FAILIF(c, ...) do { if (c) { fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); _exit(1); } } while (0)
