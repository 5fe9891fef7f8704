"""C16: material and excluded nodes against spec/Flagging."""
import random, shutil
from .. import core, build, sims

ASSUME = ["unit cases: heights in quarters of a cell, so every comparison is exact (including surfaces through nodes)", "whole runs: a surface closer than 1e-5 cells to a node is not judged"]
J = lambda a: " ".join(str(x) for x in a)


def gen(rnd):
    Nx, Nz = rnd.randint(3, 8), rnd.randint(4, 8)
    if rnd.random() < 0.2:
        Nx, Nz = rnd.choice([(4, 12), (12, 4), (3, 9)])
    top = 4 * (Nz - 1)
    kind = rnd.random()
    if kind < 0.25:
        h = [rnd.randint(1, top) for _ in range(Nx)]
    elif kind < 0.5:
        a, s = rnd.randint(2, top - 1), rnd.randint(-5, 5)
        h = [a + s * k // 2 for k in range(Nx)]
    elif kind < 0.85:
        h = [rnd.randint(2, top - 1)]
        for _ in range(Nx - 1):
            h.append(h[-1] + rnd.randint(-4, 4))
    elif kind < 0.95:
        h = [rnd.randint(2, top - 1)] * Nx
    else:
        h = [top + 8] * Nx
    return dict(Nx=Nx, Nz=Nz, h=[min(max(x, 1), top + 8) for x in h], dx=rnd.choice([1.0, 0.5, 4.0]), dz=rnd.choice([1.0, 2.0, 0.25]), xo=rnd.randint(-4, 2), zo=rnd.randint(-6, 1))


def text(r):
    z = [repr((r["zo"] + x / 4) * r["dz"]) for x in r["h"]]
    return "f %d %d %r %r %r %r %s %s\n" % (r["Nx"], r["Nz"], r["xo"] * r["dx"], r["zo"] * r["dz"], r["dx"], r["dz"], J(z), J(z))


def event(r, v):
    if v["event"] != "Flag":
        raise core.CodeFailure("flagging stopped the run: %s for heights %s (quarters of a cell) on a %dx%d grid" % (v, r["h"], r["Nx"], r["Nz"]))
    q = lambda a, u=1.0: [core.fixp(x, u) if abs(x / u - round(x / u)) < 1e-9 else "not-exact" for x in a]
    return dict(e="Flag", fs=1, U=4, ncx=r["Nx"] - 1, ncz=r["Nz"] - 1, hg=r["h"], tp=v["BCp.type"], tt=v["BCt.type"], tx=v["BCp_exp.type"], pv=q(v["BCp.val"]), T=q(v["T"]), T0=[7] * len(v["T"]), Ta=1, tu=v["BCu.type"], tv=v["BCv.type"], tg=v["BCg.type"],
                dens=1, wn=q(v["FreeSurfW_n"], 1 / 64), ws=q(v["FreeSurfW_s"], 1 / 64), rn=q(v["rho_n"]), rn0=q(v["rho0_n"]), rs=q(v["rho_s"]))


RUNS = [
    ("sine", dict(free_surface=1), [], ["topo=sine", "topo_A=0.23", "topo_z=0.013", "bc=box"]),
    ("step", dict(free_surface=1, Nt=3, free_surface_stab=1.0), [], ["topo=step", "topo_A=0.31", "topo_z=0.017", "bc=box"]),
    ("slope", dict(free_surface=1, Nx=9, Nz=6), [], ["topo=slope", "topo_A=0.4", "topo_z=-0.11", "bc=box"]),
    ("shear", dict(free_surface=1, Nx=6, Nz=11, gz=-1.0), [], ["topo=sine", "topo_A=0.1", "topo_z=0.0131"]),
    ("elastic", dict(free_surface=1, elastic=1, Nx=8, Nz=7), [], ["topo=sine", "topo_A=-0.2", "topo_z=-0.213", "bc=box"]),
    ("thermal", dict(free_surface=1, thermal=1, Nx=6, Nz=9), [], ["topo=slope", "topo_A=-0.3", "topo_z=0.0131", "bc=box"]),
    ("picard", dict(free_surface=1, Nx=8, Nz=9, surface_processes=1, surf_diff=0.05), [], ["topo=step", "topo_A=-0.27", "topo_z=-0.0171", "bc=box"]),
    ("none", dict(gz=-2.0), [{}, dict(rho=2.0)], ["bc=box"]),
    ("noneshear", dict(shear_style=1, periodic_x=1), [], []),
]


def runrec(c, sim, name, q, ph, o):
    p = dict(sims.BASE, Nx=7, Nz=8, Nt=2, writer=0, nit_max=1, zmin=-1.5, zmax=0.5, dt=0.03, gz=-2.0)
    p.update(q)
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    F = "BCp.type,BCp.val,BCt.type,BCp_exp.type,T,BCu.type,BCv.type,BCg.type,eta_n,eta_s,rho_n,rho_s,FreeSurfW_n"
    rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=flagged,solved", "fields=" + F, "mfields=phase", "num=1"])
    if rc != 0:
        raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
    t, flag, ap = [], None, None
    U = 1000000
    base = dict(fs=p["free_surface"], ncx=p["Nx"] - 1, ncz=p["Nz"] - 1, U=U)
    sg = lambda a: [0 if x == 0 else 1 if x > 0 else -1 for x in a]
    for e in ev:
        if e["event"] == "Dump" and e["at"] == "flagged":
            flag = dict(base, hg=[core.fixp((x - e["zmin"]) / e["dz"] * U, 1) for x in e["height"]])
            s = sorted(set(x for x, y in zip(e["T"], e["BCt.type"]) if y == 30))
            t.append(dict(flag, e="Flag", dens=0, tp=e["BCp.type"], tt=e["BCt.type"], tx=e["BCp_exp.type"], pv=[0 if x == 0 else 1 for x in e["BCp.val"]], T=[1 if x in s else 7 for x in e["T"]], T0=[1 if x in s else 7 for x in e["T"]], Ta=1 if len(s) <= 1 else -1,
                          tu=e["BCu.type"], tv=e["BCv.type"], tg=e["BCg.type"]))
        elif e["event"] == "Apply":
            ap = e
        elif e["event"] == "Dump" and e["at"] == "solved" and ap and (flag or not p["free_surface"]):
            t.append(dict(flag or dict(base, hg=[0] * p["Nx"]), e="Used", tp=e["BCp.type"], tu=e["BCu.type"], tv=e["BCv.type"], tg=e["BCg.type"], en=sg(e["eta_n"]), es=sg(e["eta_s"]), rn=sg(e["rho_n"]), rs=sg(e["rho_s"]),
                          wn=[0 if x == 0 else 1 if x == 1 else 2 for x in e["FreeSurfW_n"]], nu=ap["eu"], nv=ap["ev"], np=ap["ep"]))
            ap = None
    if sum(x["e"] == "Used" for x in t) < p["Nt"]:
        raise core.CodeFailure("run %s: no step recorded" % name)
    return t


def run(c):
    c.assumptions = ASSUME
    c.model("Flagging_MC", workers=8)
    exe, sim = build.build_driver("surface", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 37 + 16)
    cases = [gen(rnd) for _ in range(500 if c.quick else 8000)]
    env = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=66:detect_odr_violation=0")
    items = [("run:" + n, lambda a=(n, q, ph, o): runrec(c, sim, *a)) for n, q, ph, o in RUNS]
    for b in range(0, len(cases), 25):
        part = cases[b:b + 25]
        items.append(("cases:%d" % b, lambda part=part: [event(r, v) for r, v in zip(part, c.drive(exe, "".join(text(r) for r in part), len(part), what="flagging", env=env))]))
    c.conform_batch(items, "Flagging_Trace", size=4, heap="3g")
    if not c.violations:
        t = items[len(RUNS)][1]()[:1]
        for f in ("tp", "tu", "tv", "tg"):
            def g(ev, f=f):
                k = len(ev[0][f]) // 2
                ev[0][f][k] = 30 if ev[0][f][k] != 30 else -1
            c.corrupted_rejected("Flagging_Trace", t, g)
