"""C09: equation numbering and application of corrections against spec/Numbering."""
import random, shutil
from .. import core, build, sims

ASSUME = ["unit cases: integer velocities and corrections, so results are exact", "in whole runs values are compared to 4e-6 of the largest entry of the field"]
J = lambda a: " ".join(str(x) for x in a)


def gen(rnd):
    Nx, Nz = rnd.randint(3, 7), rnd.randint(3, 7)
    if rnd.random() < 0.2:
        Nx, Nz = rnd.choice([(3, 10), (10, 3)])
    nu, nv, np = Nx * (Nz + 1), (Nx + 1) * Nz, (Nx - 1) * (Nz - 1)
    per = rnd.random() < 0.4
    air = [rnd.randint(1, Nz) for _ in range(Nx + 1)] if rnd.random() < 0.5 else [99] * (Nx + 1)
    tu, tv, tp = [], [], []
    for l in range(Nz + 1):
        for k in range(Nx):
            t = rnd.choice([11, 13, 0]) if l in (0, Nz) else (-2 if k == 0 else -12 if k == Nx - 1 else -1) if per else (rnd.choice([0, 2]) if k in (0, Nx - 1) else -1)
            tu.append(30 if l > max(air[k], air[k + 1]) or (per and k in (0, Nx - 1) and l > air[0]) else t)
    for l in range(Nz):
        for k in range(Nx + 1):
            t = (-12 if per else rnd.choice([11, 13])) if k in (0, Nx) else rnd.choice([0, 2]) if l in (0, Nz - 1) else -1
            tv.append(30 if l > air[k] else t)
    for l in range(Nz - 1):
        for k in range(Nx - 1):
            tp.append(30 if l >= air[k] else 31 if l == air[k] - 1 and rnd.random() < 0.5 else rnd.choice([-1, -1, -1, 0]))
    g = lambda n, m=40: [rnd.randint(-m, m) for _ in range(n)]
    u, v, vu, vv = g(nu), g(nv), g(nu), g(nv)
    u = [b if t == 0 else a for a, b, t in zip(u, vu, tu)]
    v = [b if t == 0 else a for a, b, t in zip(v, vv, tv)]
    for l in range(Nz + 1):
        if tu[l * Nx + Nx - 1] == -12:
            u[l * Nx + Nx - 1] = u[l * Nx]
    return dict(Nx=Nx, Nz=Nz, a=rnd.choice([-1.0, 1.0, -0.5, 0.25, 0.0, -2.5]), tu=tu, vu=vu, u=u, tv=tv, vv=vv, v=v, tp=tp, p=g(np), d=g(nu + nv + np, 1000))


def text(r):
    return "c %d %d %r %s\n" % (r["Nx"], r["Nz"], r["a"], " ".join(J(r[k]) for k in ("tu", "vu", "u", "tv", "vv", "v", "tp", "p", "d")))


def line(r, v):
    q = lambda a: [core.fixp(x, 0.25) for x in a]
    return dict(e="Apply", vec=1, tol=0, Nx=r["Nx"], Nz=r["Nz"], tu=r["tu"], tv=r["tv"], tp=r["tp"], vu=q(r["vu"]), vv=q(r["vv"]), eu=v["eu"], ev=v["ev"], ep=v["ep"], neq=v["neq"], nmom=v["nmom"], ncont=v["ncont"],
                x=q(v.get("x", [])), u0=q(r["u"]), v0=q(r["v"]), p0=q(r["p"]), u1=q(v["u1"]), v1=q(v["v1"]), p1=q(v["p1"]), d=r["d"], a=core.fixp(r["a"], 0.25))


def run(c):
    c.assumptions = ASSUME
    c.model("Numbering_MC", workers=8)
    exe, sim = build.build_driver("eqn"), build.build_driver("sim")
    rnd = random.Random(c.seed * 7 + 9)
    cases = [gen(rnd) for _ in range(600 if c.quick else 8000)]
    items = []
    for b in range(0, len(cases), 100):
        part = cases[b:b + 100]

        def rec(part=part):
            ev = c.drive(exe, "".join(text(r) for r in part), len(part), what="numbering")
            return [line(r, v) for r, v in zip(part, ev)]
        items.append(("cases:%d" % b, rec))
    B = dict(sims.BASE, Nx=6, Nz=5, Nt=2, writer=0, nit_max=1)
    fs = dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.01, gz=-1.0, Nx=7, Nz=8)
    runs = [("pure", {}, []), ("simple", dict(shear_style=1, periodic_x=1), []), ("newton", dict(Newton=1, line_search=1, nit_max=3), []), ("surface", fs, ["topo=sine", "topo_A=0.2"]), ("step", fs, ["topo=step", "topo_A=0.2"]),
            ("direct", dict(lin_solver=-1, compressible=1, Newton=0), []), ("box", dict(gz=-5.0, Nx=5, Nz=9), ["bc=box", "noslip=1"])]
    for name, q, o in runs:
        p = dict(B)
        p.update(q)

        def rec(p=p, o=o, name=name):
            d = c.dir("r")
            shutil.rmtree(d, ignore_errors=True)
            rc, ev, out = sims.simulate(c, sim, d, p, [dict(pwlv=1, cstv=0, npwl=2.0)] if p["Newton"] else [], opts=o + ["num=1"])
            D = [e for e in ev if e["event"] == "Apply"]
            if rc != 0 or not D:
                raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
            t = []
            for e in D:
                vm = max([abs(x) for x in e["u0"] + e["v0"] + e["u1"] + e["v1"] + e["p0"] + e["p1"] + e["d"] + e["BCu.val"] + e["BCv.val"] if x == x] + [1e-30])
                q6 = lambda a: [core.fixp(x, vm * 1e-6) for x in a]
                t.append(dict(e="Apply", vec=0, tol=4, Nx=p["Nx"], Nz=p["Nz"], tu=e["BCu.type"], tv=e["BCv.type"], tp=e["BCp.type"], vu=q6(e["BCu.val"]), vv=q6(e["BCv.val"]), eu=e["eu"], ev=e["ev"], ep=e["ep"], neq=e["neq"], nmom=e["nmom"],
                              ncont=e["ncont"], x=[], u0=q6(e["u0"]), v0=q6(e["v0"]), p0=q6(e["p0"]), u1=q6(e["u1"]), v1=q6(e["v1"]), p1=q6(e["p1"]), d=[core.fixp(x * e["alpha"], vm * 1e-6) for x in e["d"]], a=1))
            return t
        items.append(("run:" + name, rec))
    c.conform_batch(items, "Numbering_Trace", size=4, heap="3g")
    if not c.violations:
        t = items[0][1]()[:3]
        def swap(ev):
            x = ev[1]["eu"]; i = [k for k, q in enumerate(x) if q >= 0]
            x[i[0]] = x[i[1]]
        c.corrupted_rejected("Numbering_Trace", t, swap)
        def off(ev):
            i = [k for k, q in enumerate(ev[1]["tp"]) if q == -1]
            ev[1]["p1"][i[-1]] += 1
        c.corrupted_rejected("Numbering_Trace", t, off)
