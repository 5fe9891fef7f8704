"""C10: discrete mass and force balance against spec/Balance."""
import random, shutil
from .. import core, build, sims

ASSUME = ["unit cases: integer fields, so residuals and matrix rows are exact integers", "stress boundaries are exercised without gravity (the code attaches no half-cell weight to them)",
          "with an unstable density stratification the stabilising term may be left out, as in the code", "in whole runs balances are judged to 1e-4 of the largest stress"]
J = lambda a: " ".join(str(x) for x in a)


def gen(rnd, small=False):
    while True:
        r = gen1(rnd, small)
        Nx, Nz = r["Nx"], r["Nz"]
        if any(r["tu"][k + l * Nx] in (-1, 2, -2) for l in range(3, Nz - 1) for k in range(Nx)) and any(r["tv"][k + l * (Nx + 1)] in (-1, 2) for l in range(Nz) for k in range(3, Nx - 1)):
            return r          # otherwise the residual norms are empty means


def gen1(rnd, small=False):
    kind = rnd.choice(["box", "box", "periodic", "stress", "surface", "surface"])
    Nx, Nz = rnd.randint(5, 7), rnd.randint(5, 7)
    if rnd.random() < 0.15:
        Nx, Nz = rnd.choice([(5, 9), (9, 5)])
    if kind == "stress":
        Nx, Nz = max(Nx, 6), max(Nz, 6)
    nu, nv, nc, ns = Nx * (Nz + 1), (Nx + 1) * Nz, (Nx - 1) * (Nz - 1), Nx * Nz
    gU = [rnd.choice([11, 13]), rnd.choice([11, 13])]
    gV = [rnd.choice([11, 13]), rnd.choice([11, 13])]
    tu, tv, tp, tg = [-1] * nu, [-1] * nv, [-1] * nc, [-1] * ns
    sW, sE, sS, sN = [rnd.random() < 0.5 for _ in range(4)]
    if not (sW or sE or sS or sN):
        sN = True
    for l in range(Nz + 1):
        for k in range(Nx):
            c = k + l * Nx
            if l in (0, Nz):
                tu[c] = gU[l > 0]
            elif k in (0, Nx - 1):
                tu[c] = ((-2 if k == 0 else -12) if kind == "periodic" else (2 if kind == "stress" and (sW if k == 0 else sE) else 0))
    for l in range(Nz):
        for k in range(Nx + 1):
            c = k + l * (Nx + 1)
            if k in (0, Nx):
                tv[c] = -12 if kind == "periodic" else gV[k > 0]
            elif l in (0, Nz - 1):
                tv[c] = 2 if kind == "stress" and (sS if l == 0 else sN) else 0
    if kind == "surface":
        h = [rnd.randint(1, Nz - 1) for _ in range(Nx - 1)]
        air = lambda k, l: k < 0 or k > Nx - 2 or l < 0 or l > Nz - 2 or l >= h[k]
        for l in range(Nz - 1):
            for k in range(Nx - 1):
                if l >= h[k]:
                    tp[k + l * (Nx - 1)] = 31 if l == h[k] else 30
        for l in range(1, Nz):
            for k in range(Nx):
                if air(k - 1, l - 1) and air(k, l - 1):
                    tu[k + l * Nx] = 30
        for k in range(Nx):
            if tu[k + (Nz - 1) * Nx] == 30:
                tu[k + Nz * Nx] = 30
        for l in range(Nz):
            for k in range(1, Nx):
                if air(k - 1, l - 1) and air(k - 1, l):
                    tv[k + l * (Nx + 1)] = 30
        for l in range(Nz):
            if tv[1 + l * (Nx + 1)] == 30:
                tv[l * (Nx + 1)] = 30
            if tv[Nx - 1 + l * (Nx + 1)] == 30:
                tv[Nx + l * (Nx + 1)] = 30
        for l in range(Nz):
            for k in range(Nx):
                q = [(a, b) for a in (k - 1, k) for b in (l - 1, l) if 0 <= a < Nx - 1 and 0 <= b < Nz - 1]
                if any(air(a, b) for a, b in q):
                    tg[k + l * Nx] = 30
    m = 1 if small else 9
    g = lambda n, a: [rnd.randint(-a, a) for _ in range(n)]
    e = lambda n, a: [1 if small else rnd.randint(1, a) for _ in range(n)]
    wetp = [t == -1 for t in tp]
    r = dict(kind=kind, Nx=Nx, Nz=Nz, ix=1 if small else rnd.choice([1, 2, 4]), iz=1 if small else rnd.choice([1, 2, 4]), comp=rnd.choice([0, 1]), oop=rnd.choice([0, 1]), td=rnd.choice([0, 1]) if kind in ("box", "surface") else 0,
             gx=0 if kind == "stress" or small else rnd.choice([0, 2, -3]), gz=0 if kind == "stress" or small else rnd.choice([0, -2, 3]), tu=tu, tv=tv, tp=tp, tg=tg, vu=g(nu, 12 // (9 // m or 1)), vv=g(nv, 12 // (9 // m or 1)),
             en=[a if w else 0 for a, w in zip(e(nc, 9), wetp)], es=[a if t != 30 else 0 for a, t in zip(e(ns, 9), tg)], rn=[a if w else 0 for a, w in zip(e(nc, 9), wetp)], rs=e(ns, 9),
             bt=[rnd.randint(1, 5) for _ in range(nc)], p0=g(nc, m), q=g(nc, m), cc=[rnd.choice([0, 1]) for _ in range(nc)], u=g(nu, m), v=g(nv, m), p=[a if w else 0 for a, w in zip(g(nc, 2 * m), wetp)], du=g(nu, m), dv=g(nv, m), dp=g(nc, 2 * m))
    for t, val, f in ((tu, r["vu"], r["u"]), (tv, r["vv"], r["v"])):
        for c, y in enumerate(t):
            if y == 0:
                f[c] = val[c]
            if y == 30:
                f[c] = 0
            if y in (13, -1, 30, -2, -12):
                val[c] = 0
    if kind == "periodic":
        for l in range(Nz + 1):
            r["u"][l * Nx + Nx - 1] = r["u"][l * Nx]
    r["jac"] = int(r["comp"] == 1 and kind != "stress")
    if r["td"]:
        r["gx"] = 0
        cells = [(k, l) for l in range(Nz - 1) for k in range(Nx - 1)]
        if rnd.random() < 0.7:      # stable stratification
            r["gz"] = -abs(r["gz"])
            for k, l in cells:
                if wetp[k + l * (Nx - 1)]:
                    r["rn"][k + l * (Nx - 1)] = max(1, 9 - l)
            r["free"] = 0
        else:
            r["free"] = 1
    else:
        r["free"] = 0
    return r


def text(r):
    dt, theta = 2.0, 0.5 * r["td"]
    return "c %d %d %r %r %d %d %r %r %d %d %d %s\n" % (r["Nx"], r["Nz"], 1.0 / r["ix"], 1.0 / r["iz"], r["comp"], r["oop"], theta, dt, r["gx"], r["gz"], r["jac"],
        " ".join(J(r[k]) for k in ("tu", "vu", "tv", "vv", "tp", "tg", "en", "es", "rn", "rs")) + " " + J(2 * x for x in r["bt"]) + " " + " ".join(J(r[k]) for k in ("p0", "q", "cc", "u", "v", "p", "du", "dv", "dp")))


def line(r, v):
    s = r["ix"] * r["iz"]
    q = lambda a, f: [core.fixp(x * f, 1) for x in a]
    o = dict(e="Case", **{k: r[k] for k in ("Nx", "Nz", "ix", "iz", "comp", "oop", "td", "gx", "gz", "tu", "tv", "tp", "tg", "vu", "vv", "en", "es", "rn", "rs", "bt", "p0", "q", "cc", "jac", "free")})
    for n in "12":
        o["w" + n] = dict(u=q(v["u" + n], 1), v=q(v["v" + n], 1), p=q(v["p" + n], 1))
        o["k" + n] = dict(div=q(v["div" + n], 2), exx=q(v["exx" + n], 6), ezz=q(v["ezz" + n], 6), exz=q(v["exz" + n], 2))
        o["ru" + n], o["rv" + n], o["rp" + n] = q(v["ru" + n], -6 * s), q(v["rv" + n], -6 * s), q(v["rp" + n], 2 * s)
    # rows times -6 s as the residuals; mass rows times 2 s
    o["mu"], o["mv"], o["mp"] = q(v["mu"], -6 * s), q(v["mv"], -6 * s), q(v["mp"], 2 * s)
    if r["jac"]:
        o["ju"], o["jv"], o["jp"] = q(v["ju"], -6 * s), q(v["jv"], -6 * s), q(v["jp"], 2 * s)
    rs = v["res2"]
    sq = [100 * (rs[0] * 6 * s) ** 2, 100 * (rs[1] * 6 * s) ** 2, 100 * (rs[2] * 2 * s) ** 2]
    o["norm"] = int(r.get("small", 0) and all(x < 3e7 for x in sq))
    o["sq"] = [core.fixp(x, 1) if o["norm"] else 0 for x in sq]
    return o


def solved(e, p, ph, ex):
    """A dumped solved state as integers: stresses in units of their largest over 1e5."""
    Nx, Nz = p["Nx"], p["Nz"]
    dx, dz = e["gdx"], e["gdz"]
    a, b = next((a, b) for a in range(1, 9) for b in range(1, 9) if abs(a * dx - b * dz) < 1e-9 * dx)     # 1/dx : 1/dz = a : b
    unit_len = a * dx
    air = [t in (30, 31) for t in e["BCp.type"]]
    sx = [0 if w else d - q for d, q, w in zip(e["sxxd"], e["p_corr"], air)]
    sz = [0 if w else d - q for d, q, w in zip(e["szzd"], e["p_corr"], air)]
    sh = [0 if t == 30 else x for x, t in zip(e["sxz"], e["BCg.type"])]
    bx, bz = [0.0] * (Nx * (Nz + 1)), [0.0] * ((Nx + 1) * Nz)
    for l in range(1, Nz):
        for k in range(Nx):
            bx[k + l * Nx] = p["gx"] * 0.5 * (e["rho_s"][k + l * Nx] + e["rho_s"][k + (l - 1) * Nx]) * unit_len
    for l in range(1, Nz - 1):
        for k in range(1, Nx):
            bz[k + l * (Nx + 1)] = p["gz"] * 0.5 * (e["rho_n"][k - 1 + l * (Nx - 1)] + e["rho_n"][k - 1 + (l - 1) * (Nx - 1)]) * unit_len
    S = max([abs(x) for x in sx + sz + sh + bx + bz] + [1e-30]) / 1e5
    th = ex.get("theta", 0)
    if th:      # the stabilising term acts on the vertical velocity
        for l in range(1, Nz - 1):
            for k in range(1, Nx):
                c = k + l * (Nx + 1)
                bz[c] -= th * e["dt"] * p["gz"] * (e["rho_n"][k - 1 + l * (Nx - 1)] - e["rho_n"][k - 1 + (l - 1) * (Nx - 1)]) / dz * e["v_in"][c] * unit_len
    q = lambda A, u: [core.fixp(x, u) for x in A]
    V = max([abs(x) for x in e["u_in"] + e["v_in"]] + [1e-30]) / 2e4
    # 2*div in units V/unit_len; stress relation in units: eta_unit*V/unit_len*... (eta integer)
    cp = [0.0] * ((Nx - 1) * (Nz - 1))
    if p.get("compressible"):
        cp = [2 * bt * (x - y) / e["dt"] * unit_len if cc else 0 for bt, x, y, cc in zip(e["bet_n"], e["p_in"], e["p0_n"], e["comp_cells"])]
    E0 = max(x for x, w in zip(e["eta_n"], air) if not w) / 800.0      # viscosity unit: 0.12 per cent of the largest
    U = E0 * V / unit_len / 3.0
    rel = ex.get("elastic")
    z = lambda A, m, n: [2 * 3 * en / (2 * mu * e["dt"]) * s0 / 3.0 / U if rel and not w else 0 for s0, en, mu, w in zip(A, n, m, [False] * len(A))]
    ox, oz, oh = z(e["sxxd0"], e["mu_n"], e["eta_n"]), z(e["szzd0"], e["mu_n"], e["eta_n"]), z(e["sxz0"], e["mu_s"], e["eta_s"])
    top = max([abs(x / U) for x, w in zip(e["sxxd"] + e["szzd"], air + air) if not w] + [abs(x / U) for x in sh] + [1])
    return dict(e="Solved", Nx=Nx, Nz=Nz, ix=a, iz=b, comp=int(bool(p.get("compressible"))), oop=int(bool(p.get("out_of_plane"))), tu=e["BCu.type"], tv=e["BCv.type"], tp=e["BCp.type"], tg=e["BCg.type"],
                sx=q(sx, S), sz=q(sz, S), sh=q(sh, S), bx=q(bx, S), bz=q(bz, S), ftol=ex.get("ftol", 12 * (a + b)), w=dict(u=q(e["u_in"], V), v=q(e["v_in"], V)), cp=q(cp, V), mtol=ex.get("mtol", 16 * max(a, b)),
                dx=q(e["sxxd"], U), dz=q(e["szzd"], U), dh=q(sh, U), en=[core.fixp(x, E0) if not w else 0 for x, w in zip(e["eta_n"], air)], es=[core.fixp(x, E0) if t != 30 else 0 for x, t in zip(e["eta_s"], e["BCg.type"])],
                ox=q(ox, 1), oz=q(oz, 1), oh=q(oh, 1), stol=int(top * ex.get("srel", 4e-3)) + 100)


FIELDS = "u_in,v_in,p_in,p_corr,sxxd,szzd,sxz,rho_n,rho_s,eta_n,eta_s,bet_n,p0_n,comp_cells,sxxd0,szzd0,sxz0,mu_n,mu_s,BCu.type,BCv.type,BCp.type,BCg.type"


def run(c):
    c.assumptions = ASSUME
    c.model("Balance_MC", workers=8)
    exe, sim = build.build_driver("stokes"), build.build_driver("sim")
    rnd = random.Random(c.seed * 13 + 10)
    cases = [gen(rnd) for _ in range(160 if c.quick else 3000)]
    for _ in range(40 if c.quick else 400):
        r = gen(rnd, True)
        r["small"] = 1
        cases.append(r)
    items = []
    for b in range(0, len(cases), 20):
        part = cases[b:b + 20]

        def rec(part=part):
            ev = c.drive(exe, "".join(text(r) for r in part), len(part), what="Stokes operator")
            return [line(r, v) for r, v in zip(part, ev)]
        items.append(("cases:%d" % b, rec))
    runs = RUNS
    for name, q, ph, o, ex in runs:
        p = dict(sims.BASE, Nx=9, Nz=7, Nt=2, writer=0, nit_max=3)
        p.update(q)

        def rec(p=p, o=o, name=name, ph=ph, ex=ex):
            d = c.dir("r-" + name)
            shutil.rmtree(d, ignore_errors=True)
            rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=solved", "fields=" + FIELDS])
            D = [e for e in ev if e["event"] == "Dump"]
            if rc != 0 or len(D) != p["Nt"]:
                raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
            return [solved(e, p, ph, ex) for e in D]
        items.append(("run:" + name, rec))
    c.conform_batch(items, "Balance_Trace", size=3, heap="3g")
    if not c.violations:
        t = items[0][1]()[:2]
        def f(ev):
            i = [k for k, y in enumerate(ev[1]["tu"]) if y == -1]
            ev[1]["ru1"][i[-1]] += 1
        c.corrupted_rejected("Balance_Trace", t, f)
        def f(ev):
            i = [k for k, y in enumerate(ev[1]["tv"]) if y == -1]
            ev[1]["mv"][i[-1]] += 1
        c.corrupted_rejected("Balance_Trace", t, f)


FS = dict(free_surface=1, zmin=-1.5, zmax=0.5, xmin=-1.0, xmax=1.0, dt=0.01, gz=-1.0, Nx=9, Nz=9, free_surface_stab=1.0)
RUNS = [
    ("pure", {}, [], [], {}),
    ("gravity", dict(gz=-3.0, Nx=7, Nz=9), [dict(), dict(rho=3.0)], ["bc=box"], {}),
    ("gx", dict(gz=-3.0, gx=2.0), [dict(), dict(rho=3.0)], ["bc=box"], {}),
    ("simple", dict(shear_style=1, periodic_x=1), [], [], {}),
    ("contrast", dict(gz=-1.0), [dict(), dict(eta0=100.0, rho=2.0)], ["phase=checker"], {}),
    ("wide", dict(Nx=13, Nz=5, xmin=-3.0, xmax=3.0), [], ["phase=layers"], {}),
    ("tall", dict(Nx=5, Nz=13), [], ["phase=layers"], {}),
    ("compressible", dict(compressible=1, lin_solver=-1, dt=0.1), [dict(bet=0.5), dict(bet=0.2)], [], {}),
    ("elastic", dict(elastic=1, dt=0.1), [dict(G=2.0), dict(G=5.0)], [], dict(elastic=1)),
    ("surface", FS, [], ["topo=sine", "topo_A=0.2"], dict(theta=1.0)),
    ("powerlaw", dict(nit_max=30, nonlin_rel_mom=1e-9, nonlin_rel_div=1e-9, nonlin_abs_mom=1e-9, nonlin_abs_div=1e-9), [dict(pwlv=1, cstv=0, npwl=3.0)], [], dict(srel=6e-3)),
]
