"""C25: steps of chemical diffusion against spec/Chemical."""
import random, shutil
from .. import core, build, sims
from . import c18

ASSUME = ["unit cases: integer coefficients, compositions recorded to 1e-3 of the unit; the balance is judged to that resolution", "in runs to about 1e-4 of the largest term",
          "the side and top conditions 'flux' insulate (the code applies a given flow through the bottom only); polar coordinates are not covered"]
Q = 1000
J = c18.J


def gen(rnd):
    r = c18.gen(rnd)
    r["m"] = 4 * rnd.randint(1, 6)
    if rnd.random() < 0.15:
        r["T0"] = [rnd.randint(5, 30)] * len(r["T0"])
    if rnd.random() < 0.3:                                # compositions of zero
        r["T0"] = [rnd.choice([0, 0, 0, 12]) for _ in r["T0"]]
    W = r["ncx"] + 2
    r["va"] = [max(v, 0) if t == 1 else -abs(v) if t == 0 else v for v, t in zip(r["va"], r["ty"])]
    # nothing but non-negative compositions: the code stops at negative ones
    return r


def text(r):
    return "c %d %d %r %r %r %s\n" % (r["ncx"] + 1, r["ncz"] + 1, 1.0 / r["ix"], 1.0 / r["iz"], 1.0 / r["m"], " ".join(J(r[k]) for k in ("ty", "va", "T0", "kx", "kz")))


def line(r, v):
    q = lambda a: [core.fixp(x * Q, 1) for x in a]
    n = r["ncx"] * r["ncz"]
    return dict(e="Step", ax=r["ix"] ** 2, az=r["iz"] ** 2, C=[r["m"]] * n, S=[0] * n, X0=q(r["T0"]), X1=q(v["X1"]), va=[x * Q for x in r["va"]], mink=0, **{k: r[k] for k in ("ncx", "ncz", "iz", "ty", "kx", "kz")})


FIELDS = "X_n,X0_n,kc_x,kc_z,BCC_exp.type,BCC_exp.val,BCt.type"


def runline(e0, e1, e2, p, same):
    ncx, ncz = p["Nx"] - 1, p["Nz"] - 1
    dx, dz, dt = e0["gdx"], e0["gdz"], e0["dt"]
    kx, kz = [x / dx / dx for x in e0["kc_x"]], [x / dz / dz for x in e0["kc_z"]]
    air = [int(e0["BCC_exp.type"][(c % ncx + 1) + (c // ncx + 1) * (ncx + 2)] == 30) for c in range(ncx * ncz)]
    airT = [int(t == 30) for t in e0["BCt.type"]]
    C = [1.0 / dt] * (ncx * ncz)
    unit = max([1.0 / dt] + [2 * x for x in kx + kz]) / 3000.0
    U = 1 / 15000.0
    q = lambda a, u: [core.fixp(x, u) for x in a]
    t = lambda a: [core.fixp(x / U, 1) if not w else 0 for x, w in zip(a, air)]
    va = [core.fixp(v / U, 1) if ty == 1 else core.fixp(v / dz / (U * unit), 1) if ty == 0 else 0 for v, ty in zip(e0["BCC_exp.val"], e0["BCC_exp.type"])]
    ms = [x for x, f in zip(e2["m_X"], e2["m_phase"]) if f != -1]
    return dict(e="Run", ncx=ncx, ncz=ncz, ax=1, az=1, iz=1, air=air, airT=airT, C=[0 if w else core.fixp(x, unit) for x, w in zip(C, air)], kx=q(kx, unit), kz=q(kz, unit), ty=e0["BCC_exp.type"], va=va, mink=0, S=[0] * len(C),
                X0=t(e0["X_n"]), X1=t(e1["X_n"]), Xm=t(e0["X0_n"]), rng=15000, one=core.fixp(1 / U, 1), mlo=core.fixp(min(ms) / U, 1), mhi=core.fixp(max(ms) / U, 1), same=same)


def run(c):
    c.assumptions = ASSUME
    c.model("Chemical_MC", workers=8)
    if not c.quick:
        for m in ("MutLeak", "MutNoclip"):
            c.model_violates("Chemical_MC", "Chemical_" + m)
    exe, sim = build.build_driver("chem", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 19 + 25)
    cases = [gen(rnd) for _ in range(400 if c.quick else 8000)]
    items = []
    for b in range(0, len(cases), 50):
        part = cases[b:b + 50]

        def rec(part=part):
            ev = c.drive(exe, "".join(text(r) for r in part), len(part), what="step of chemical diffusion", env=c18.ENV)
            return [line(r, v) for r, v in zip(part, ev)]
        items.append(("cases:%d" % b, rec))
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, Nx=9, Nz=7, Nt=3, writer=0, nit_max=2, chemical_diffusion=1, initial_noise=1, bkg_strain_rate=-0.2)
        p.update(q)

        def rec(p=p, o=o, name=name, ph=ph):
            d = c.dir("r-" + name)
            shutil.rmtree(d, ignore_errors=True)
            rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=chem0,chem1,comp1", "fields=" + FIELDS, "mfields=X,phase"])
            A, B, D = [[e for e in ev if e["event"] == "Dump" and e["at"] == a] for a in ("chem0", "chem1", "comp1")]
            if rc != 0 or len(A) != p["Nt"] or len(B) != len(A) or len(D) != len(A):
                raise core.CodeFailure("run %s: rc=%s, %d steps of chemical diffusion %s" % (name, rc, len(A), out[-300:]))
            same = int(any(x.startswith("xcomp=") for x in o) and not any(x.startswith(("xbot", "xtop")) for x in o))
            return [runline(x, y, z, p, same) for x, y, z in zip(A, B, D)]
        items.append(("run:" + name, rec))
    c.conform_batch(items, "Chemical_Trace", size=3, heap="3g")
    if not c.violations:
        t = items[0][1]()[:3]
        def f(ev):
            i = [k for k, y in enumerate(ev[1]["X1"]) if y != 0]
            ev[1]["X1"][i[-1]] += 5
        c.corrupted_rejected("Chemical_Trace", t, f)


FS = dict(free_surface=1, zmin=-1.5, zmax=0.5, xmin=-1.0, xmax=1.0, dt=0.01, gz=-1.0, Nx=9, Nz=9, free_surface_stab=1.0)
TWO = [dict(k_chem=0.3), dict(k_chem=2.0)]
RUNS = [
    ("closed", {}, TWO, []),
    ("held", {}, TWO, ["xbot=0.9", "xtop=0.1"]),
    ("bottomflow", dict(Nx=13, Nz=5), TWO, ["xflux=-0.5"]),
    ("periodic", dict(periodic_x=1, shear_style=1), TWO, ["xper=1", "phase=layers"]),
    ("uniform", dict(Nx=7, Nz=9), TWO, ["xcomp=0.6", "phase=checker"]),
    ("surface", FS, TWO, ["topo=sine", "topo_A=0.3"]),
    ("surfaceuniform", FS, TWO, ["topo=slope", "topo_A=0.5", "xcomp=0.8"]),
    ("surfaceheld", FS, TWO, ["topo=slope", "topo_A=0.5", "xtop=0.2", "xbot=0.7"]),
]
