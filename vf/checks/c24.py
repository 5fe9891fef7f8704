"""C24: the initial pressure is the weight of the rock above, against spec/Grid."""
import random, shutil
from .. import core, build, sims
from .c19 import J, ENV
from .c22 import columns

ASSUME = ["unit cases: integer densities, gravity and confining pressure, exact", "whole runs: to 1e-5 of the largest pressure; the marker pressures are those interpolated from it (range only)", "the density of a cell cut by the surface is already reduced to its filled part (C16)"]


def gen(rnd):
    nx, nz = rnd.choice([3, 4, 6, 9]), rnd.choice([3, 4, 6, 9, 14])
    t, _ = columns(rnd, nx, nz, rnd.random() < 0.4)
    g, dz, bkg, mode, ref = rnd.choice([-1, -3, -10, 0]), rnd.choice([1, 2, 5]), rnd.choice([0, 0, 7]), rnd.choice([1, 1, 1, 0]), rnd.randint(1, 9)
    rho = [rnd.choice([3, rnd.randint(1, 40)]) for _ in t]
    f = [-g * dz * (x if mode else ref) for x in rho]
    return "P %d %d %d %d %d %d %d %s %s\n" % (nx, nz, g, dz, bkg, mode, ref, J(t), J(rho)), lambda v: dict(e="Load", nx=nx, nz=nz, per=0, t=t, f=f, bkg=bkg, tol=0, r=[core.fixp(2 * x, 1) for x in v["p"]])


def runrec(c, sim, name, p, ph, o):
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=lith,initial", "fields=p_lith,p_in,rho_n,BCp.type", "mfields=P,phase"])
    D = [e for e in ev if e["event"] == "Dump"]
    if rc != 0 or len([e for e in D if e["at"] == "lith"]) < 2:
        raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
    L = []
    top = max(max(e["p_lith"]) for e in D if e["at"] == "lith")
    K = 200000 / max(top, 1e-6)
    bkg = p.get("bkg_pressure", 0.0)
    S = [e for e in D if e["at"] == "lith"]
    for e in S[::4] + S[-1:]:
        f = [core.fixp(-p["gz"] * e["gdz"] * r * K, 1) for r in e["rho_n"]]
        L.append(dict(e="Load", nx=p["Nx"], nz=p["Nz"], per=0, t=e["BCp.type"], f=f, bkg=core.fixp(bkg * K, 1), tol=2 * p["Nz"] + 4, r=[core.fixp(2 * x * K, 1) for x in e["p_lith"]]))
    I = [e for e in D if e["at"] == "initial"]
    if I:
        e, last = I[0], [x for x in D[:D.index(I[0])] if x["at"] == "lith"][-1]
        act = [x for x, h in zip(e["m_P"], e["m_phase"]) if h >= 0]
        hi, lo = max(last["p_lith"]), min(last["p_lith"])  # includes the air (0): a marker next to the surface may be read across it
        if min(act) < lo - 1e-9 * abs(hi) - 1e-12 or max(act) > hi * (1 + 1e-9) + 1e-12:
            raise core.CodeFailure("run %s: marker pressures %g..%g beyond the lithostatic ones %g..%g" % (name, min(act), max(act), lo, hi))
    return L


TWO = [dict(rho=2.0), dict(rho=5.0)]
RUNS = [
    ("box", dict(gz=-3.0), TWO, []),
    ("layers", dict(gz=-1.0, Nz=11, bkg_pressure=2.0), TWO, ["phase=layers"]),
    ("checker", dict(gz=-10.0, Nx=11, Nz=6), TWO, ["phase=checker"]),
    ("surface", dict(gz=-2.0, free_surface=1, zmin=-1.5, zmax=0.5, dt=0.01, free_surface_stab=1.0), TWO, ["topo=sine", "topo_A=0.3"]),
    ("step", dict(gz=-2.0, free_surface=1, zmin=-1.5, zmax=0.5, dt=0.01, free_surface_stab=1.0, Nx=7, Nz=12), TWO, ["topo=step", "topo_A=0.4"]),
]


def run(c):
    c.assumptions = ASSUME
    c.model("Grid_MC", workers=8)
    exe, sim = build.build_driver("grid", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 24 + 5)
    cases = [gen(rnd) for _ in range(300 if c.quick else 6000)]
    items = []
    for b in range(0, len(cases), 60):
        part = cases[b:b + 60]
        items.append(("cases:%d" % b, lambda part=part: [f(v) for (_, f), v in zip(part, c.drive(exe, "".join(t for t, _ in part), len(part), what="pressure", env=ENV))]))
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, Nx=8, Nz=7, writer=0, nit_max=2, Nt=1)
        p.update(q)
        items.append(("run:" + name, lambda p=p, o=o, name=name, ph=ph: runrec(c, sim, name, p, ph, o)))
    c.conform_batch(items, "Grid_Trace", size=3)
    if not c.violations:
        def f(ev):
            ev[0]["r"][0] += 1
        c.corrupted_rejected("Grid_Trace", items[0][1]()[:1], f)
