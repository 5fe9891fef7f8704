"""C14: marker-to-grid averages against spec/Transfer."""
import math, random, shutil
from .. import core, build, sims

ASSUME = ["results are compared to 1/1024 of a unit (unit cases) or to the uncertainty of recorded positions (whole runs)", "on the wall columns of a periodic domain with the 9-cell stencil on vertices or velocity nodes only the range of the result is judged",
          "phase fractions of air nodes are not judged", "director values are multiples of a tenth"]
U = 8
J = lambda a: " ".join(str(x) for x in a)
DIRS = [(10, 0), (0, 10), (6, 8), (8, 6), (-6, 8), (-8, 6), (6, -8), (-10, 0)]
ACOS = {10: 0, 0: 15708, 6: 9273, 8: 6435, -6: 22143, -8: 24981, -10: 31416}


def gen(rnd):
    Nx, Nz = rnd.randint(3, 5), rnd.randint(3, 5)
    if rnd.random() < 0.2:
        Nx, Nz = rnd.choice([(3, 8), (8, 3)])
    kind = "p" if rnd.random() < 0.25 else "a"
    r = dict(kind=kind, Nx=Nx, Nz=Nz, dx=rnd.choice([1.0, 0.5, 2.0]), dz=rnd.choice([1.0, 0.5, 4.0]), xmin=rnd.choice([0.0, -2.0, 3.0]), zmin=rnd.choice([0.0, -8.0, 1.0]), per=int(rnd.random() < 0.3), st=rnd.choice([1, 9]),
             ce=rnd.choice([1, 0]) if kind == "p" else rnd.choice([1, 1, 0, 0, -1, -2]), nph=rnd.choice([1, 2, 4]))
    r["flag"] = rnd.choice([0, 1, 1, 1, -1, -2, -3]) if kind == "a" else 0
    r["avg"] = rnd.choice([0, 0, 1, 2]) if r["flag"] in (0, 1) and kind == "a" else 0
    r["nx"] = Nx - 1 if r["ce"] == 1 else Nx + 1 if r["ce"] == -2 else Nx
    r["nz"] = Nz - 1 if r["ce"] == 1 else Nz + 1 if r["ce"] == -1 else Nz
    pa = rnd.choice([0, 0, 0.2])
    r["typ"] = [rnd.choice([30, 31]) if rnd.random() < pa else rnd.choice([-1, 0, 2, -2, 11, 13]) for _ in range(r["nx"] * r["nz"])]
    val = lambda: rnd.randint(1, 16) if r["avg"] == 1 else rnd.randint(-8, 8) if r["avg"] == 2 else rnd.randint(-40, 40)
    r["pv"] = [val() for _ in range(r["nph"])]
    const = val() if rnd.random() < 0.1 else None
    dead = rnd.choice([0, 0.1, 0.5])
    M = []
    n = rnd.choice([1, 3, 8, 20, 30])
    edge = rnd.random() < 0.3
    for _ in range(n):
        x, z = rnd.randint(0, U * (Nx - 1)), rnd.randint(0, U * (Nz - 1))
        if edge:
            x = rnd.choice([rnd.randint(0, U), U * (Nx - 1) - rnd.randint(0, U)])
        M.append([x, z, -1 if rnd.random() < dead else rnd.randint(0, r["nph"] - 1), val() if const is None else const, rnd.choice(DIRS)])
    if rnd.random() < 0.2:                       # a dense column of markers around one spot, both sides of a node
        x, z = rnd.randint(0, Nx - 1) * U, rnd.randint(0, Nz - 1) * U
        M += [[min(max(x + a, 0), U * (Nx - 1)), min(max(z + b, 0), U * (Nz - 1)), 0, val(), rnd.choice(DIRS)] for a in (-3, 1) for b in (-2, 2)]
    r["M"] = M
    return r


def dec(r, v):
    return 64.0 / v if r["avg"] == 1 else 2.0 ** v if r["avg"] == 2 else float(v)


def text(r):
    return "%s %d %d %r %r %r %r %d %d %d %d %d %d %r %r %s %s %d %s\n" % (r["kind"], r["Nx"], r["Nz"], r["xmin"], r["zmin"], r["dx"], r["dz"], r["per"], r["st"], r["ce"], r["flag"], r["avg"], r["nph"], *preset(r), J(r["typ"]),
        J(repr(dec(r, v)) for v in r["pv"]), len(r["M"]), " ".join("%r %r %d %r %r %r" % (r["xmin"] + x * r["dx"] / U, r["zmin"] + z * r["dz"] / U, p, dec(r, v), a / 10.0, b / 10.0) for x, z, p, v, (a, b) in r["M"]))


def mval(r, p, x, d):
    if r["flag"] == 0:
        return r["pv"][p] if p >= 0 else 0
    a, b = d
    return {1: x, -1: 2 * a * a * b * b, -2: a * b * (b * b - a * a), -3: ACOS[a]}[r["flag"]]


def preset(r):
    """What the nodes hold before: a value of their own each, or (where the walls are mixed in a way that is not fixed) a value in range."""
    act = [m for m in r["M"] if m[2] != -1]
    if r["per"] and r["st"] == 9 and r["ce"] != 1 and act:
        v = mval(r, *act[0][2:])
        return (v / 1e4 if r["flag"] < 0 else dec(r, v)), 0.0
    return 100.0, 1.0


def event(r, v):
    K = 1024
    mv = lambda p, x, d: mval(r, p, x, d)
    e = dict(e="Avg", U=U, nx=r["nx"], nz=r["nz"], ox={1: U // 2, -2: -U // 2}.get(r["ce"], 0), oz={1: U // 2, -1: -U // 2}.get(r["ce"], 0), st=r["st"], per=r["per"], cyc=int(r["ce"] == 1), ce=r["ce"], typ=r["typ"], K=K, tol=1, dw=0, mixed=int(r["avg"] != 0),
             m=[[x, z, p, mv(p, w, d)] for x, z, p, w, d in r["M"]])
    if r["kind"] == "p":
        e.update(e="Perc", r=[[core.fixp(x * K, 1) for x in v["r%d" % q]] for q in range(r["nph"])])
        return e
    sc = 1.0
    if r["flag"] < 0:
        e["K"] = K = 8
        sc = 1e4
        e["tol"] = 10 if r["flag"] == -3 else 1
    f = (lambda x: 64.0 / x if x else float("nan")) if r["avg"] == 1 else (lambda x: math.log2(x) if x > 0 else float("nan")) if r["avg"] == 2 else (lambda x: x * sc)
    e["r"], e["kp"] = [core.fixp(f(x) * K, 1) for x in v["r"]], v["kp"]
    return e


def run(c):
    c.assumptions = ASSUME
    c.model("Transfer_MC", None if c.quick else "Transfer_MCdeep", workers=8)
    exe, sim = build.build_driver("transfer"), build.build_driver("sim")
    rnd = random.Random(c.seed * 31 + 14)
    cases = [gen(rnd) for _ in range(900 if c.quick else 12000)]
    items = []
    for b in range(0, len(cases), 60):
        part = cases[b:b + 60]
        items.append(("cases:%d" % b, lambda part=part: [event(r, v) for r, v in zip(part, c.drive(exe, "".join(text(r) for r in part), len(part), what="transfer"))]))
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, Nx=7, Nz=6, Nt=2, writer=0, nit_max=2, Nx_part=3, Nz_part=3, min_part_cell=9)
        p.update(q)
        items.append(("run:" + name, lambda p=p, o=o, name=name, ph=ph: runrec(c, sim, name, p, ph, o)))
    c.conform_batch(items, "Transfer_Trace", size=4, heap="3g")
    if not c.violations:
        t = [x for x in items[0][1]() if x["e"] == "Avg" and 0 in x["kp"]][:1]

        def f(ev):
            k = ev[0]["kp"].index(0)
            ev[0]["r"][k] += 12
        c.corrupted_rejected("Transfer_Trace", t, f)
        t = [x for x in items[0][1]() if x["e"] == "Perc"][:1]

        def f(ev):
            ev[0]["r"][0] = [x + 5 for x in ev[0]["r"][0]]
        c.corrupted_rejected("Transfer_Trace", t, f)


PAIRS = [("T", "T0_n", 1, 1), ("divth", "divth0_n", 1, 1), ("P", "p0_n", 1, 0), ("phi", "phi0_n", 1, 0), ("sxxd", "sxxd0", 1, 0), ("szzd", "szzd0", 1, 0), ("sxz", "sxz0", 0, 0), ("X", "X0_n", 1, 0), ("X", "X0_s", 0, 0), ("noise", "noise_n", 1, 0), ("noise", "noise_s", 0, 0),
         ("d", "d0_n", 1, 0), ("rho", "rho0_n", 1, 0), ("#Cp", "Cp", 1, 1), ("#Qr", "Qr", 1, 1), ("#k", "kx", -1, 1), ("#k", "kz", -2, 1)]
TYPES = {1: "BCp.type", 0: "BCg.type", -1: "BCu.type", -2: "BCv.type"}
PHX = [dict(rho=1.0, Cp=1.0, k=2.0, Qr=0.5, gs_ref=1.0), dict(rho=3.0, Cp=4.0, k=5.0, Qr=2.5, gs_ref=3.0)]


def runrec(c, sim, name, p, ph, o):
    V = 256
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    phs = [dict(a, **b) for a, b in zip(PHX, (ph or [{}, {}]))]
    flds = sorted({g for _, g, _, _ in PAIRS} | set(TYPES.values()) | {"phase_perc_n", "phase_perc_s"})
    mf = sorted({m for m, _, _, _ in PAIRS if m[0] != "#"} | {"x", "z", "phase"})
    rc, ev, out = sims.simulate(c, sim, d, p, phs, opts=o + ["dump=solved,counted", "fields=" + ",".join(flds), "mfields=" + ",".join(mf)])
    D = [e for e in ev if e["event"] == "Dump"]
    if rc != 0 or sum(e["at"] == "solved" for e in D) != p["Nt"]:
        raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
    Nx, Nz, t = p["Nx"], p["Nz"], []
    st = p.get("interp_stencil", 1)
    for a in D:
        pos = [(core.fixp((x - a["xmin"]) / a["gdx"] * V, 1), core.fixp((z - a["zmin"]) / a["gdz"] * V, 1), h) for x, z, h in zip(a["m_x"], a["m_z"], a["m_phase"])]

        def ev(ce, stn, val):
            nx = Nx - 1 if ce == 1 else Nx + 1 if ce == -2 else Nx
            nz = Nz - 1 if ce == 1 else Nz + 1 if ce == -1 else Nz
            return dict(e="Avg", U=V, nx=nx, nz=nz, ox={1: V // 2, -2: -V // 2}.get(ce, 0), oz={1: V // 2, -1: -V // 2}.get(ce, 0), st=stn, per=p["periodic_x"], cyc=int(ce == 1), ce=ce, typ=a[TYPES[ce]], K=1, tol=2, dw=1, mixed=0, m=[[x, z, h, v] for (x, z, h), v in zip(pos, val)])
        if a["at"] == "counted":
            for ce, f in ((1, "phase_perc_n"), (0, "phase_perc_s")):
                e = ev(ce, st, [0] * len(pos))
                e.update(e="Perc", K=200, r=[[core.fixp(x * 200, 1) for x in a[f + str(q)]] for q in range(len(phs))])
                t.append(e)
            continue
        for m, g, ce, one in PAIRS:
            if g in ("sxxd0", "szzd0", "sxz0") and not p.get("elastic"):
                continue
            if g == "rho0_n" and p["free_surface"]:              # scaled by the filled part of surface cells afterwards
                continue
            val = [phs[max(h, 0)][m[1:]] for _, _, h in pos] if m[0] == "#" else a["m_" + m]
            act = [v for v, (_, _, h) in zip(val, pos) if h >= 0]
            lo, hi = min(act), max(act)
            rng = hi - lo if hi - lo > 1e-12 * max(abs(lo), abs(hi)) else 0.0
            n = lambda v: (core.fixp((v - lo) / rng * 200, 1) if rng else 0 if abs(v - lo) <= 1e-9 * max(abs(lo), 1e-30) else 100000)
            e = ev(ce, 1 if one else st, [n(v) if h >= 0 else 0 for v, (_, _, h) in zip(val, pos)])
            e["r"] = [n(x) if ty not in (30, 31) else 0 for x, ty in zip(a[g], e["typ"])]
            e["kp"] = [0] * len(a[g])
            t.append(e)
    return t


RUNS = [
    ("one", dict(dt=0.1, elastic=1, thermal=1), [], ["phase=checker"]),
    ("nine", dict(dt=0.1, elastic=1, interp_stencil=9, pure_shear_ALE=1, Nx=6, Nz=8), [], []),
    ("periodic", dict(dt=0.2, elastic=1, shear_style=1, periodic_x=1), [], ["phase=random"]),
    ("periodic9", dict(dt=0.2, shear_style=1, periodic_x=1, interp_stencil=9), [], ["phase=random"]),
    ("surface", dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.03, gz=-2.0, Nx=7, Nz=8, free_surface_stab=1.0, elastic=1), [], ["topo=sine", "topo_A=0.2", "bc=box"]),
]
