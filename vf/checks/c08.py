"""C08: boundary conditions: set-up tables, stock conditions, ghost updates and whole runs against spec/Boundary."""
import random, shutil
from .. import core, build, sims

ASSUME = ["boundary-balancing option off", "in whole runs velocities compared to 5e-6 of the largest speed",
          "set-up tables: random types and values per node on grids of 3x3 to 6x6 vertices, random topography of air"]
BT = [0, 11, 13, -2, -12]


def pos(k, l, n, m):
    if k in (0, n - 1):
        return 7
    return 5 if l in (0, m - 1) else 4


def gen_set(rnd):
    Nx, Nz = rnd.randint(3, 6), rnd.randint(3, 6)
    nc, mc = Nx - 1, Nz - 1
    h = [rnd.choice([mc, mc, rnd.randint(1, mc)]) for _ in range(nc)] if rnd.random() < 0.6 else [mc] * nc
    airC = [1 if l >= h[k] else 0 for l in range(mc) for k in range(nc)]
    airU = [1 if (min(l - 1, mc - 1) >= max(h[max(k - 1, 0)], h[min(k, nc - 1)]) and l > 0) else 0 for l in range(Nz + 1) for k in range(Nx)]
    airV = [1 if (l > h[min(max(k - 1, 0), nc - 1)]) else 0 for l in range(Nz) for k in range(Nx + 1)]
    def tab(n, m):
        return [-1 if pos(k, l, n, m) == 4 else rnd.choice(BT) for l in range(m) for k in range(n)], [rnd.randint(-50, 50) for _ in range(n * m)]
    tu, vu = tab(Nx, Nz + 1)
    tv, vv = tab(Nx + 1, Nz)
    if rnd.random() < 0.25:
        t, air = rnd.choice([(tu, airU), (tv, airV)])
        i = rnd.randrange(len(t))
        t[i] = rnd.choice(BT) if t[i] == -1 else -1
    dx, dz = rnd.choice([0.25, 0.5, 1.0]), rnd.choice([0.25, 0.5, 1.0])
    x0, z0 = rnd.choice([-1.0, 0.0, 2.0]), rnd.choice([-3.0, 0.0])
    return dict(Nx=Nx, Nz=Nz, x0=x0, z0=z0, x1=x0 + dx * nc, z1=z0 + dz * mc, dz=dz, flux=rnd.randint(0, 1), hasP=rnd.randint(0, 1), hasT=rnd.randint(0, 1), airU=airU, airV=airV, airC=airC,
                tu=tu, vu=vu, tv=tv, vv=vv, tp=[rnd.choice([-1, 0, 31, 13]) for _ in range(10)], tT=[rnd.choice([0, 1, 2, 3]) for _ in range(10)])


J = lambda a: " ".join(str(x) for x in a)


def text_set(r):
    return "set %d %d %r %r %r %r %d %d %d %s\n" % (r["Nx"], r["Nz"], r["x0"], r["x1"], r["z0"], r["z1"], r["flux"], r["hasP"], r["hasT"],
            " ".join(J(r[k]) for k in ("airU", "airV", "airC", "tu", "vu", "tv", "vv", "tp", "tT")))


def ints(a):
    return [core.fixp(x, 1) if x == int(x) else "fraction" for x in a]


def line_set(r, v):
    o = {k: r[k] for k in ("Nx", "Nz", "airU", "airV", "airC", "tu", "vu", "tv", "vv", "hasP", "hasT", "tp", "tT", "flux")}
    if v["event"] == "Refused":
        return dict(o, e="Refused")
    return dict(o, e="Set", Tu=v["BCu.type"], Vu=ints(v["BCu.val"]), Pu=v["posu"], Tv=v["BCv.type"], Vv=ints(v["BCv.val"]), Pv=v["posv"], Tp=v["BCp.type"], badT=v["badT"], badX=v["badX"],
                Tt=v["BCT_exp.type"], Vt=ints(v["BCT_exp.val"]), Tc=v["BCC_exp.type"], Vc=ints(v["BCC_exp.val"]),
                west=core.fixp(v.get("west", 0) / r["dz"], 1), east=core.fixp(v.get("east", 0) / r["dz"], 1))


def gen_stock(rnd):
    Nx, Nz, dx, dz = rnd.randint(3, 7), rnd.randint(3, 7), rnd.choice([0.25, 0.5, 1.0]), rnd.choice([0.25, 0.5, 1.0])
    x0, z0 = rnd.choice([-1.0, 0.0, 2.0, -0.25]), rnd.choice([-3.0, 0.0, -0.5])
    return dict(Nx=Nx, Nz=Nz, x0=x0, z0=z0, dx=dx, dz=dz, bkg=rnd.choice([-1.0, 1.0, 0.5, -0.25, 0.0, 3.0]), style=rnd.randint(0, 1))


def text_stock(r):
    return "stock %d %d %r %r %r %r %r %d\n" % (r["Nx"], r["Nz"], r["x0"], r["x0"] + r["dx"] * (r["Nx"] - 1), r["z0"], r["z0"] + r["dz"] * (r["Nz"] - 1), r["bkg"], r["style"])


def line_stock(r, v):
    q = lambda a: [core.fixp(x, 1 / 256) for x in a]
    return dict(e="Stock", Nx=r["Nx"], Nz=r["Nz"], style=r["style"], bkg=core.fixp(r["bkg"], 1 / 16), x=[core.fixp(r["x0"] + i * r["dx"], 1 / 16) for i in range(r["Nx"])],
                z=[core.fixp(r["z0"] + i * r["dz"], 1 / 16) for i in range(r["Nz"])], Lz=core.fixp(r["dz"] * (r["Nz"] - 1), 1 / 16),
                Tu=v["BCu.type"], Vu=q(v["BCu.val"]), Tv=v["BCv.type"], Vv=q(v["BCv.val"]), Tp=v["BCp.type"], tol=0)


def gen_init(rnd):
    r = gen_stock(rnd)
    r["step"], r["periodic"], r["how"] = rnd.choice([0, 1, 5]), 0, rnd.randint(0, 1)
    Nx, Nz = r["Nx"], r["Nz"]
    def tab(n, m, u):
        t = []
        for l in range(m):
            for k in range(n):
                wall = (k in (0, n - 1)) if u else (l in (0, m - 1))
                side = (l in (0, m - 1)) if u else (k in (0, n - 1))
                t.append(rnd.choice([0, 11, 13]) if side else 0 if wall else -1)
        return t
    r["tu"], r["tv"] = tab(Nx, Nz + 1, True), tab(Nx + 1, Nz, False)
    if rnd.random() < 0.4:                     # periodic in x
        r["periodic"] = 1
        for l in range(1, Nz):
            r["tu"][l * Nx], r["tu"][l * Nx + Nx - 1] = -2, -12
        for l in range(Nz):
            r["tv"][l * (Nx + 1)] = r["tv"][l * (Nx + 1) + Nx] = -12
    if rnd.random() < 0.5:                     # air above
        h = rnd.randint(2, Nz)
        for l in range(h, Nz + 1):
            for k in range(Nx):
                r["tu"][l * Nx + k] = 30
        for l in range(h, Nz):
            for k in range(Nx + 1):
                r["tv"][l * (Nx + 1) + k] = 30
    g = lambda n: [rnd.randint(-40, 40) for _ in range(n)]
    r["vu"], r["vv"], r["u"], r["v"] = g(Nx * (Nz + 1)), g((Nx + 1) * Nz), g(Nx * (Nz + 1)), g((Nx + 1) * Nz)
    if r["how"] == 0:                          # a solution being completed has its prescribed values already
        r["u"] = [b if t == 0 else a for a, b, t in zip(r["u"], r["vu"], r["tu"])]
        r["v"] = [b if t == 0 else a for a, b, t in zip(r["v"], r["vv"], r["tv"])]
    for l in range(Nz + 1):
        if r["tu"][l * Nx + Nx - 1] == -12:
            r["u"][l * Nx + Nx - 1] = r["u"][l * Nx]
    return r


def text_init(r):
    return "init %s %d %d %d %s\n" % (text_stock(r).split(" ", 1)[1].strip(), r["step"], r["periodic"], r["how"], " ".join(J(r[k]) for k in ("tu", "vu", "tv", "vv", "u", "v")))


def line_init(r, v):
    q = lambda a: [core.fixp(x, 1 / 256) for x in a]
    return dict(e="Fields", Nx=r["Nx"], Nz=r["Nz"], tu=r["tu"], vu=q(r["vu"]), tv=r["tv"], vv=q(r["vv"]), u0=q(r["u"]), v0=q(r["v"]), u1=q(v["u_in"]), v1=q(v["v_in"]), tol=0, keep=2 if r["how"] else 1)


def run(c):
    c.assumptions = ASSUME
    c.model("Boundary_MC", workers=8)
    exe, sim = build.build_driver("bcs"), build.build_driver("sim")
    rnd = random.Random(c.seed * 31 + 8)
    items = []
    for what, gen, text, line, n in (("set", gen_set, text_set, line_set, 400), ("stock", gen_stock, text_stock, line_stock, 150), ("init", gen_init, text_init, line_init, 400)):
        cases = [gen(rnd) for _ in range(n if c.quick else n * 12)]
        for b in range(0, len(cases), 100):
            part = cases[b:b + 100]

            def rec(part=part, text=text, line=line, what=what):
                ev = c.drive(exe, "".join(text(r) for r in part), len(part), what="boundary " + what)
                return [line(r, v) for r, v in zip(part, ev)]
            items.append(("%s:%d" % (what, b), rec))
    B = dict(sims.BASE, Nx=6, Nz=5, Nt=2, writer=0, nit_max=1)
    fs = dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.01, gz=-1.0)
    runs = [("pure", {}, []), ("ale", dict(pure_shear_ALE=1), []), ("wide", dict(xmin=-2.0, xmax=0.5, Nx=7, bkg_strain_rate=0.5), []), ("simple", dict(shear_style=1, periodic_x=1), []),
            ("simple2", dict(shear_style=1, periodic_x=1, Newton=1, nit_max=3, bkg_strain_rate=0.5), []), ("box", dict(gz=-10.0), ["bc=box"]), ("noslip", dict(gz=-10.0), ["bc=box", "noslip=1"]),
            ("surface", fs, []), ("surfale", dict(fs, pure_shear_ALE=1), []), ("surfbox", dict(fs, gz=-0.1), ["bc=box"]), ("newton", dict(Newton=1, nit_max=4, line_search=1), [])]
    if not c.quick:
        runs += [(n + "L", dict(q, Nx=17, Nz=15, Nt=4), o) for n, q, o in runs]
    F = "u_in,v_in,BCu.type,BCu.val,BCv.type,BCv.val,BCp.type,xg_coord,zg_coord"
    for name, q, o in runs:
        p = dict(B)
        p.update(q)

        def rec(p=p, o=o, name=name):
            d = c.dir("r")
            shutil.rmtree(d, ignore_errors=True)
            rc, ev, out = sims.simulate(c, sim, d, p, [dict(pwlv=1, cstv=0, npwl=2.0)] if p["Newton"] else [], opts=o + ["dump=solved", "fields=" + F])
            D = [e for e in ev if e["event"] == "Dump"]
            if rc != 0 or len(D) != p["Nt"]:
                raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
            t = []
            for e in D:
                vm = max([abs(x) for x in e["u_in"] + e["v_in"] + e["BCu.val"] + e["BCv.val"] if x == x] + [1e-30])
                q6 = lambda a: [core.fixp(x, vm * 1e-6) for x in a]
                t.append(dict(e="Fields", Nx=p["Nx"], Nz=p["Nz"], tu=e["BCu.type"], vu=q6(e["BCu.val"]), tv=e["BCv.type"], vv=q6(e["BCv.val"]), u0=[], v0=[], u1=q6(e["u_in"]), v1=q6(e["v_in"]), tol=5, keep=0))
                if not o and not p["free_surface"]:
                    w = [core.fixp(x, 1e-4) for x in e["xg_coord"]], [core.fixp(x, 1e-4) for x in e["zg_coord"]]
                    q4 = lambda a: [core.fixp(x, 1e-6) for x in a]
                    t.append(dict(e="Stock", Nx=p["Nx"], Nz=p["Nz"], style=p["shear_style"], bkg=core.fixp(p["bkg_strain_rate"], 0.01), x=w[0], z=w[1], Lz=w[1][-1] - w[1][0],
                                  Tu=e["BCu.type"], Vu=q4(e["BCu.val"]), Tv=e["BCv.type"], Vv=q4(e["BCv.val"]), Tp=e["BCp.type"], tol=400))
            return t
        items.append(("run:" + name, rec))
    c.conform_batch(items, "Boundary_Trace", size=4, heap="3g")
    if not c.violations:
        for it, f in ((items[0], lambda ev: ev[0].update(Tp=[7] * len(ev[0]["airC"]))), (items[-1], lambda ev: ev[0]["u1"].__setitem__(0, ev[0]["u1"][0] + 500))):
            t = [x for x in it[1]() if x["e"] in ("Set", "Fields")][:3]
            c.corrupted_rejected("Boundary_Trace", t, f)
