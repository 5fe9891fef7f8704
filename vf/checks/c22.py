"""C22: the grid tiles the current box, against spec/Grid."""
import random, shutil
from .. import core, build, sims
from .c19 import J, ENV

ASSUME = ["unit cases: box corners in sixteenths, integer velocities; positions compared to 1e-6 of the unit", "whole runs: positions to 2e-6 of the box", "ghost nodes of walls are not prescribed-velocity nodes; the top wall of a free-surface model is either all air or all prescribed",
          "next to air, air cells count as zero in centre-to-vertex averages, as in the code"]
W = 1000000


def columns(rnd, nx, nz, full=False):
    """Cell and vertex types of a rock column model."""
    h = [nz - 1 if full else rnd.randint(1, nz - 1) for _ in range(nx - 1)]
    t = [-1 if l < h[k] else 31 if l == h[k] else 30 for l in range(nz - 1) for k in range(nx - 1)]
    rock = lambda k, l: 0 <= k < nx - 1 and 0 <= l < nz - 1 and t[k + l * (nx - 1)] == -1
    tg = [-1 if any(rock(a, b) for a in (k - 1, k) for b in (l - 1, l)) else 30 for l in range(nz) for k in range(nx)]
    return t, tg




def coords(v, nx, nz, u, tol, b0, keep=0):
    q, F = v["q"], lambda n: 2 * (n - 1)
    r = lambda a, n: [core.fixp(x * u * F(n), 1) for x in a]
    o = dict(e="Coords", n=[nx, nz], tol=tol, keep=keep, b=[core.fixp(x * u, 1) for x in q[4:8]], b0=[core.fixp(x * u, 1) for x in b0],
             q=[core.fixp(q[0] * u * F(nx), 1), core.fixp(q[1] * u * F(nz), 1), core.fixp(q[2] * u * F(nx), 1), core.fixp(q[3] * u * F(nz), 1)])
    for a in ("xg", "xg0", "xc", "xv", "xe"):
        o[a] = r(v[a], nx)
    for a in ("zg", "zg0", "zc", "zv", "ze"):
        o[a] = r(v[a], nz)
    return o


def gen(rnd):
    op = rnd.choice("CCAAAAVVVNX")
    nx, nz = rnd.choice([3, 4, 5, 8, 11]), rnd.choice([3, 4, 6, 9])
    if op == "C":
        b = []
        for _ in range(4):
            lo = rnd.randint(-800, 800)
            b += [lo / 16, (lo + rnd.randint(1, 1600)) / 16]
        return "C %d %d %s\n" % (nx, nz, J(b)), lambda v: [coords(v, nx, nz, 65536, 40, b[4:])]
    if op == "A":
        b = []
        for _ in range(2):
            lo = rnd.randint(-160, 160)
            b += [lo / 16, (lo + rnd.randint(160, 640)) / 16]
        mode, fs, dt = rnd.choice([1, 1, 2]), rnd.choice([0, 1]), rnd.choice([1, 2, 3])
        if mode == 2:
            fs = 1
        W_ = [[(rnd.choice([0, 0, 0, -1, 2]), rnd.randint(-40, 40)) for _ in range(n)] for n in (nz - 1, nz - 1, nx - 1, nx - 1)]
        if rnd.random() < 0.2:
            W_ = [[(t, 7) for t, _ in w] for w in W_]
        if fs:
            t = rnd.choice([0, 30])
            W_[3] = [(t, 0 if t == 30 else v) for _, v in W_[3]]
        R = lambda: rnd.randint(-40, 40) / 16 / 4
        tu, u = [-1] * (nx * (nz + 1)), [R() for _ in range(nx * (nz + 1))]
        tv, v_ = [-1] * ((nx + 1) * nz), [R() for _ in range((nx + 1) * nz)]
        for k in range(nx):
            tu[k] = tu[k + nz * nx] = rnd.choice([13, 11])
        for l in range(nz):
            tv[l * (nx + 1)] = tv[l * (nx + 1) + nx] = rnd.choice([13, 11])
        for j, (t, x) in enumerate(W_[0]):
            tu[(j + 1) * nx], u[(j + 1) * nx] = t, x / 64
        for j, (t, x) in enumerate(W_[1]):
            tu[(j + 1) * nx + nx - 1], u[(j + 1) * nx + nx - 1] = t, x / 64
        for j, (t, x) in enumerate(W_[2]):
            tv[j + 1], v_[j + 1] = t, x / 64
        for j, (t, x) in enumerate(W_[3]):
            tv[j + 1 + (nz - 1) * (nx + 1)], v_[j + 1 + (nz - 1) * (nx + 1)] = t, x / 64
        vv = [x if t == 0 else -9 for t, x in zip(tv, v_)]
        m = rnd.randint(1, 6)
        z, vz = [rnd.randint(-50, 50) / 16 for _ in range(m)], [rnd.randint(-9, 9) for _ in range(m)]
        t = "A %d %d %s %d %d %d %s %s %s %s %s %d %s %s\n" % (nx, nz, J(b), dt, mode, fs, J(tu), J(u), J(tv), J(v_), J(vv), m, J(z), J(vz))
        K = 64000

        def f(v):
            mv = dict(e="Move", keep=0, b=[int(x * K) for x in b], a=[core.fixp(x * K, 1) for x in v["q"][4:8]], w=[[[t, x * 1000] for t, x in w] for w in W_], dt=dt, tol=2, top=core.fixp((max(z) + 1) * K, 1) if mode == 2 else 0)
            return [mv, coords(v, nx, nz, K, 60, b, 1)]
        return t, f
    nx, nz = rnd.choice([3, 4, 5, 6]), rnd.choice([3, 4, 5, 6])
    t, tg = columns(rnd, nx, nz, rnd.random() < 0.3)
    per = rnd.choice([0, 1])
    o = dict(nx=nx, nz=nz, per=per, t=t, tg=tg, tol=2)
    nc = len(t)
    if op == "N":
        g, old = [rnd.randint(-99, 99) for _ in tg], [rnd.randint(-9, 9) for _ in t]
        return "N %d %d %d %s %s %s %s\n" % (nx, nz, per, J(t), J(tg), J(g), J(old)), lambda v: [dict(o, e="Cell", f=[1000 * x for x in g], old=[1000 * x for x in old], r=[core.fixp(4000 * x, 1) for x in v["r"]])]
    f = [rnd.choice([rnd.randint(-99, 99), 7]) for _ in range(nc)]
    if op == "V":
        return "V %d %d %d %s %s %s\n" % (nx, nz, per, J(t), J(tg), J(f)), lambda v: [dict(o, e="Vertex", f=[1000 * x for x in f], r=[core.fixp(4000 * x, 1) for x in v["r"]])]
    return "X %d %d %d %s %s\n" % (nx, nz, per, J(t), J(f)), lambda v: [dict(o, e="Frame", f=[1000 * x for x in f], r=[core.fixp(1000 * x, 1) for x in v["r"]])]


NAMES = dict(xg="xg_coord", zg="zg_coord", xg0="xg_coord0", zg0="zg_coord0", xc="xc_coord", zc="zc_coord", xv="xvz_coord", zv="zvx_coord", xe="xg_coord_ext", ze="zg_coord_ext")
WALL = ("BCu.type", "u_in", "BCv.type", "v_in")


def runrec(c, sim, name, p, ph, o):
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=placed,initial,solved,ale0,ale1,adv0,adv1,output", "fields=" + ",".join(list(NAMES.values()) + list(WALL))])
    D = [e for e in ev if e["event"] == "Dump"]
    if rc != 0 or len(D) < 2 * p["Nt"]:
        raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
    nx, nz, K = p["Nx"], p["Nz"], 1e6 / (p["xmax"] - p["xmin"])
    b0 = [p["xmin"], p["xmax"], p["zmin"], p["zmax"]]
    L, moves, prev = [], 0, None
    box = lambda e: [e[k] for k in ("xmin", "xmax", "zmin", "zmax")]
    for e in D:
        if e["at"] == "ale0":
            prev = e
            continue
        if e["at"] == "ale1":
            moves += 1
            R = lambda f, idx: [[prev[f + ".type"][i], core.fixp(prev["u_in" if f == "BCu" else "v_in"][i] * prev["dt"] * K, 1)] for i in idx]
            w = [R("BCu", [(j + 1) * nx for j in range(nz - 1)]), R("BCu", [(j + 1) * nx + nx - 1 for j in range(nz - 1)]), R("BCv", [j + 1 for j in range(nx - 1)]), R("BCv", [j + 1 + (nz - 1) * (nx + 1) for j in range(nx - 1)])]
            L.append(dict(e="Move", keep=1, b=[core.fixp(x * K, 1) for x in box(prev)], a=[core.fixp(x * K, 1) for x in box(e)], w=w, dt=1, tol=3, top=0))
        if "xg_coord" not in e or "gdx" not in e:
            continue
        v = {k: e[n] for k, n in NAMES.items()}
        v["q"] = [e["gdx"], e["gdz"], e["dx"], e["dz"]] + box(e)
        L.append(coords(v, nx, nz, K, 4 * max(nx, nz), b0, 1))
    if p["pure_shear_ALE"] > 0 and moves < p["Nt"]:
        raise core.CodeFailure("run %s: the box moved %d times in %d steps" % (name, moves, p["Nt"]))
    return L


BOX = dict(constant_dt=0, Courant=0.2, dt=1.0)
RUNS = [
    ("shear", dict(pure_shear_ALE=1, Nt=3, dt=0.1), None, []),
    ("tall", dict(pure_shear_ALE=1, Nx=5, Nz=11, Nt=2, bkg_strain_rate=0.7, dt=0.1, xmin=-0.5, xmax=1.5), None, []),
    ("vary", dict(pure_shear_ALE=1, Nx=9, Nz=6, Nt=3, constant_dt=0, Courant=0.2, dt=0.3, zmin=-3.0), None, []),
    ("fixed", dict(pure_shear_ALE=0, Nt=2), None, []),
    ("inflow", dict(pure_shear_ALE=-1, Nt=2, dt=0.1), None, []),
    ("simple", dict(shear_style=1, periodic_x=1, Nt=2), None, []),
    ("surface", dict(pure_shear_ALE=1, free_surface=1, zmin=-1.5, zmax=0.5, dt=0.05, gz=-1.0, Nt=3, free_surface_stab=1.0), None, ["topo=sine", "topo_A=0.1"]),
]


def run(c):
    c.assumptions = ASSUME
    c.model("Grid_MC", workers=8)
    exe, sim = build.build_driver("grid", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 22 + 5)
    cases = [gen(rnd) for _ in range(600 if c.quick else 12000)]
    items = []
    for b in range(0, len(cases), 75):
        part = cases[b:b + 75]
        items.append(("cases:%d" % b, lambda part=part: [x for (_, f), v in zip(part, c.drive(exe, "".join(t for t, _ in part), len(part), what="grid", env=ENV)) for x in f(v)]))
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, Nx=8, Nz=7, writer=0, nit_max=2)
        p.update(q)
        items.append(("run:" + name, lambda p=p, o=o, name=name, ph=ph: runrec(c, sim, name, p, ph, o)))
    c.conform_batch(items, "Grid_Trace", size=3)
    if not c.violations:
        t = items[0][1]()
        s = [x for x in t if x["e"] == "Coords"][:1]

        def f(ev):
            ev[0]["zc"][-1] += 500
        c.corrupted_rejected("Grid_Trace", s, f)
        s = [x for x in t if x["e"] == "Move"][:1]

        def f(ev):
            ev[0]["a"][2] += 50
        c.corrupted_rejected("Grid_Trace", s, f)
        s = [x for x in t if x["e"] == "Vertex"][:1]

        def f(ev):
            ev[0]["r"][1] += 7
        c.corrupted_rejected("Grid_Trace", s, f)
