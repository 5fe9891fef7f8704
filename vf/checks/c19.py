"""C19: marker histories against spec/History."""
import math, random, shutil
from .. import core, build, sims

ASSUME = ["unit cases: positions on a raster of 1/16 of a cell, integer rates; in runs positions are known to 1/256 of a cell and values to about 1e-3 of the largest",
          "markers with less than 1/16 of their weight on rock cells are not compared in runs"]
ENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=66:detect_odr_violation=0")
J = lambda a: " ".join(str(x) for x in a)
U = 16
MECH = ("pl", "pwl", "exp", "lin", "gbs", "el", "cst")


def grid(rnd, n=12):
    Nx, Nz = rnd.choice([(3, 3), (3, 6), (6, 3), (4, 5), (5, 4), (3, 8), (8, 3), (6, 6)])
    ncx, ncz = Nx - 1, Nz - 1
    air = rnd.random() < 0.4
    h = [rnd.randint(0, ncz) for _ in range(ncx)] if air else [ncz] * ncx
    tc = [30 if l > h[k] else 31 if l == h[k] and l < ncz else -1 for l in range(ncz) for k in range(ncx)]
    tg = [30 if l > max([h[j] for j in (k - 1, k) if 0 <= j < ncx]) else -1 for l in range(Nz) for k in range(Nx)]
    M = []
    for _ in range(n):
        q = rnd.random()
        x, z = rnd.randint(0, U * ncx), rnd.randint(0, U * ncz)
        if q < 0.3:
            x = rnd.choice([0, 1, U // 2 - 1, U // 2, U * ncx, U * ncx - 1, U * ncx - U // 2])
        if q > 0.7 or q < 0.1:
            z = rnd.choice([0, 1, U // 2 - 1, U // 2, U * ncz, U * ncz - 1, U * ncz - U // 2])
        M.append([x, z, -1 if rnd.random() < 0.15 else rnd.randint(0, 3)])
    return dict(Nx=Nx, Nz=Nz, U=U, per=int(rnd.random() < 0.4 and not air), tc=tc, tg=tg, m=M, xmin=rnd.choice([0.0, -2.0]), zmin=rnd.choice([0.0, -4.0]), dx=rnd.choice([1.0, 0.5, 2.0]), dz=rnd.choice([1.0, 0.5, 2.0]), dt=rnd.choice([0.5, 1.0, 2.0]), air=air)


def head(op, r):
    return "%s %d %d %r %r %r %r %d %r %s %s %d %s " % (op, r["Nx"], r["Nz"], r["xmin"], r["zmin"], r["dx"], r["dz"], r["per"], r["dt"], J(r["tc"]), J(r["tg"]), len(r["m"]),
                                                       " ".join("%r %r %d" % (r["xmin"] + x * r["dx"] / U, r["zmin"] + z * r["dz"] / U, p) for x, z, p in r["m"]))


def base(r, e):
    return dict(e=e, **{k: r[k] for k in ("Nx", "Nz", "U", "per", "tc", "tg", "m")})


def gen(rnd):
    """A case: its text and a function from the driver's answer to a trace event."""
    op = rnd.choice("SSSMDDAT")
    r = grid(rnd)
    n, nc = len(r["m"]), len(r["tc"])
    if op == "S":
        K = U * U
        z = [rnd.random() < 0.25 for _ in MECH]
        inc = [[0 if z[j] else rnd.choice([0, rnd.randint(0, 9), rnd.randint(0, 300)]) for _ in range(nc)] for j in range(7)]
        b = [[rnd.randint(0, 50) for _ in range(n)] for _ in range(7)]
        t = head(op, r) + " ".join(J(x / r["dt"] for x in a) for a in inc) + " " + " ".join(str(b[j][i]) for i in range(n) for j in range(7))
        return t, lambda v: dict(base(r, "Strain"), inc=inc, b=[[x * K for x in a] for a in b], a=[[core.fixp(x * K, 1) for x in v["s%d" % j]] for j in range(7)], K=K, pu=0, tol=1)
    if op == "M":
        q = [[rnd.randint(-20, 20) for _ in range(n)] for _ in range(4)]
        return head(op, r) + " ".join("%d %d %d %d" % x for x in zip(*q)), lambda v: dict(base(r, "Max"), v=q[:2], b=q[2:], a=[[core.fixp(x, 1) for x in v["Tm"]], [core.fixp(x, 1) for x in v["Pm"]]])
    if op == "D":
        Q = 4096
        nu, nv = r["Nx"] * (r["Nz"] + 1), (r["Nx"] + 1) * r["Nz"]
        A = rnd.choice([16, 128])
        g, h = Q * r["dt"] / r["dx"], Q * r["dt"] / r["dz"]
        u, v_ = [rnd.randint(-A, A) / 256 for _ in range(nu)], [rnd.randint(-A, A) / 256 for _ in range(nv)]
        F = [[rnd.randint(-64, 64) * 64 for _ in range(4)] for _ in range(n)]
        i_ = lambda a, k: [int(x * k) for x in a]
        t = head(op, r) + J(u) + " " + J(v_) + " " + " ".join(J(x / Q for x in f) for f in F)
        return t, lambda v: dict(base(r, "Def"), u=i_(u, g), w=i_(u, h), v=i_(v_, h), q=i_(v_, g), b=F, a=[[core.fixp(v[k][j] * Q, 1) for k in ("xx", "xz", "zx", "zz")] for j in range(n)], Q=Q, tol=8, pu=0)
    if op == "A":
        ncx, ncz = r["Nx"] - 1, r["Nz"] - 1
        r["tc"], r["tg"] = [-1] * nc, [-1] * (r["Nx"] * r["Nz"])
        r["m"] = [[U * k + U // 2, U * l + U // 2, 0] for l in range(ncz) for k in range(ncx)]
        F = []
        while len(F) < nc:
            f = [rnd.randint(-6, 6) for _ in range(4)]
            d, s = abs(f[0] * f[3] - f[1] * f[2]), sum(x * x for x in f)
            if d and s < 30 * d:
                F.append(f)
        G = [[float(x) for x in f] for f in F]
        for j in range(0, nc, 3):                 # rigid rotation and change of size, up to round-off: the strain ellipse is a circle
            a, b = rnd.choice([(3, 4), (-4, 3), (5, 12), (1, 0), (7, -24), (1, 1), (2, 5)])
            F[j], z = [a, b, -b, a], rnd.choice([1, 1, 2]) / math.hypot(a, b)
            e = 10.0 ** -rnd.choice([16, 15, 12, 10, 9])
            G[j] = [x * (1 + e * rnd.uniform(-1, 1)) + e * rnd.uniform(-1, 1) for x in [q * z for q in F[j]]]
        return head(op, r) + " ".join(" ".join("%.17g" % x for x in f) for f in G), lambda v: dict(base(r, "Asp"), F=F, r=[core.fixp(x * 1000, 1) for x in v["r"]])
    mat = [[rnd.choice([-1, 0, 1]), rnd.randint(1, 6), rnd.randint(0, 3)] for _ in range(4)]
    T, d = [rnd.randint(0, 7) for _ in range(n)], [rnd.randint(0, 3) for _ in range(n)]
    t = head(op, r) + "4 " + " ".join(J(x) for x in mat) + " " + " ".join("%d %d" % x for x in zip(T, d))
    return t, lambda v: dict(base(r, "Trans"), mat=mat, T=T, b=[x[2] for x in r["m"]], a=v["ph"], db=d, da=v["du"])


UR = 128


def pos(p, e):
    if "gdx" not in e:
        return [[0, 0, h] for h in e["m_phase"]]
    return [[core.fixp((x - e["xmin"]) / e["gdx"] * UR, 1), core.fixp((z - e["zmin"]) / e["gdz"] * UR, 1), h] for x, z, h in zip(e["m_x"], e["m_z"], e["m_phase"])]


def runlines(p, D, phs, mat):
    out, prev = [], None
    for a in D:
        at = a["at"]
        if at.endswith("0"):
            prev = a
            continue
        b, n = prev, a["Nb_part"]
        r = dict(Nx=p["Nx"], Nz=p["Nz"], U=UR, per=p["periodic_x"], tc=b.get("BCp.type", []), tg=b.get("BCg.type", []), m=pos(p, b))
        if at == "strain1":
            rates = [b["eII_" + k] for k in MECH]
            air = [t in (30, 31) for t in b["BCp.type"]]
            big = max([x for q in rates for x, w in zip(q, air) if not w] + [1e-30]) * b["dt"]
            unit, K = big / 250.0, 32
            f = ["strain_" + k for k in MECH[:6]] + ["strain"]
            # the stored totals can be much larger than one increment: record the growth
            o = dict(e="Strain", inc=[[0 if w else core.fixp(x * b["dt"], unit) for x, w in zip(q, air)] for q in rates], b=[[0] * n for _ in f],
                     a=[[core.fixp((y - x) / unit * K, 1) for x, y in zip(b["m_" + k], a["m_" + k])] for k in f], K=K, pu=1, tol=7 * K // 2, **r)
        elif at == "maxpt1":
            q = lambda x: core.fixp(x * 1e3, 1)
            o = dict(e="Max", v=[[q(x) for x in b["m_T"]], [q(x) for x in b["m_P"]]], b=[[q(x) for x in b["m_Tmax"]], [q(x) for x in b["m_Pmax"]]], a=[[q(x) for x in a["m_Tmax"]], [q(x) for x in a["m_Pmax"]]], **r)
        elif at == "defgrad1":
            Q = 4096
            g, h = Q * b["dt"] / b["gdx"], Q * b["dt"] / b["gdz"]
            i_ = lambda a, k: [core.fixp(x * k, 1) for x in a]
            F = lambda e: [[core.fixp(e["m_F" + k][j] * Q, 1) for k in ("xx", "xz", "zx", "zz")] for j in range(n)]
            o = dict(e="Def", u=i_(b["u_in"], g), w=i_(b["u_in"], h), v=i_(b["v_in"], h), q=i_(b["v_in"], g), b=F(b), a=F(a), Q=Q, tol=16, pu=1, **r)
        else:
            q = lambda x: core.fixp(x * 1e4, 1)
            o = dict(e="Trans", mat=[[x, q(y), z] for x, y, z in mat], T=[q(x) for x in b["m_T"]], b=b["m_phase"], a=a["m_phase"], db=b["m_dual"], da=a["m_dual"], **r)
        out.append(o)
    return out


def run(c):
    c.assumptions = ASSUME
    c.model("History_MC", None if c.quick else "History_MCdeep", workers=8)
    exe, sim = build.build_driver("history", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 19 + 19)
    cases = [gen(rnd) for _ in range(900 if c.quick else 15000)]
    items = []
    for b in range(0, len(cases), 60):
        part = cases[b:b + 60]
        items.append(("cases:%d" % b, lambda part=part: [f(v) for (_, f), v in zip(part, c.drive(exe, "\n".join(t for t, _ in part) + "\n", len(part), what="history", env=ENV))]))
    for name, q, ph, o, mat in RUNS:
        p = dict(sims.BASE, Nx=6, Nz=7, Nt=3, writer=0, nit_max=2, Nx_part=3, Nz_part=3, min_part_cell=9, finite_strain=1, track_T_P_x_z=1)
        p.update(q)

        def rec(p=p, o=o, name=name, ph=ph, mat=mat):
            d = c.dir("r-" + name)
            shutil.rmtree(d, ignore_errors=True)
            phs = [dict(x, transmutation=m[0], transmutation_temperature=m[1], transmutation_phase=m[2]) for x, m in zip(ph or [{}, {}], mat)]
            rc, ev, out = sims.simulate(c, sim, d, p, phs, opts=o + ["dump=strain0,strain1,maxpt0,maxpt1,defgrad0,defgrad1,trans0,trans1", "fields=u_in,v_in,BCp.type,BCg.type," + ",".join("eII_" + k for k in MECH),
                                                                  "mfields=x,z,phase,dual,T,P,Tmax,Pmax,Fxx,Fxz,Fzx,Fzz,strain," + ",".join("strain_" + k for k in MECH[:6])])
            D = [e for e in ev if e["event"] == "Dump"]
            if rc != 0 or len(D) < 8 * p["Nt"]:
                raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
            return runlines(p, D, phs, mat)
        items.append(("run:" + name, rec))
    c.conform_batch(items, "History_Trace", size=3, heap="3g")
    if not c.violations:
        t = items[0][1]()
        s = [x for x in t if x["e"] == "Strain" and any(m[2] >= 0 for m in x["m"])][:1]

        def f(ev):
            k = [m[2] >= 0 for m in ev[0]["m"]].index(True)
            ev[0]["a"][0][k] += 4
        c.corrupted_rejected("History_Trace", s, f)
        s = [x for x in t if x["e"] == "Trans" and x["a"][-1] >= 0][:1]

        def f(ev):
            ev[0]["a"][-1] = (ev[0]["a"][-1] + 1) % 4
        c.corrupted_rejected("History_Trace", s, f)


OFF = [[0, 1.0, 0], [0, 1.0, 0]]
FS = dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.03, gz=-2.0, Nx=7, Nz=8, free_surface_stab=1.0)
RUNS = [
    ("pure", dict(dt=0.1), [], [], OFF),
    ("mech", dict(dt=0.1, elastic=1, Nx=7, Nz=5), [dict(cstv=0, pwlv=1, npwl=3.0, eta0=1.0, G=1.0), dict(eta0=20.0, G=2.0, plast=1, C=0.5, phi=10.0)], [], OFF),
    ("simple", dict(dt=0.2, shear_style=1, periodic_x=1), [], [], OFF),
    ("sub", dict(constant_dt=0, dt=1.0, gz=-300.0, Courant=0.2, Nt=2), [dict(), dict(rho=2.0)], ["bc=box", "phase=off"], OFF),
    ("surface", FS, [dict(rho=1.0), dict(rho=3.0)], ["topo=sine", "topo_A=0.2", "bc=box"], OFF),
    ("warm", dict(dt=0.05, thermal=1), [dict(k=2.0), dict(k=1.0)], ["Tbot=1600", "Ttop=300"], [[1, 1450.0, 1], [-1, 500.0, 0]]),
    ("cool", dict(dt=0.05, thermal=1, pure_shear_ALE=1), [dict(k=2.0), dict(k=1.0)], ["Tbot=1600", "Ttop=300", "Tanom=200"], [[-1, 600.0, 1], [1, 1200.0, 0]]),
]
