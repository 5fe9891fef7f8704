"""C05: time-step selection and advection sub-steps against spec/TimeStep."""
import random, shutil, os
from .. import core, build, sims

ASSUME = ["unit cases use exact values (dyadic lengths, velocities dividing 120) so the rule is compared without tolerance",
          "whole runs compared to 5e-4 relative"]
VS = [1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 24, 30, 40, 60]
ENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=66:detect_odr_violation=0")
U = 30720.0


def gen(c, n):
    rnd = random.Random(c.seed * 7 + 5)
    out = []
    for k in range(n):
        Nx, Nz = rnd.choice([(3, 3), (4, 3), (3, 5), (5, 4)])
        nvx, nvz = Nx * (Nz + 1), (Nx + 1) * Nz
        vx, vz = [0] * nvx, [0] * nvz
        mode = rnd.random()
        if mode < 0.85:
            for _ in range(rnd.randint(1, 6)):
                v = rnd.choice(VS) * rnd.choice([1, -1])
                if rnd.random() < 0.5:
                    vx[rnd.randrange(nvx)] = v
                else:
                    vz[rnd.randrange(nvz)] = v
        r = dict(vx=vx, vz=vz, C=rnd.choice([1, 2, 4, 5, 8]), dx=rnd.choice([1, 2, 4, 8, 16, 13]), dz=rnd.choice([1, 3, 4, 8, 16]), dt0=4 * rnd.choice([1, 10, 50, 200, 3000]),
                 elastic=rnd.randint(0, 1), surf=rnd.choice([0, 0, 1, 2, 3]), vinc=rnd.choice(VS) * rnd.choice([1, -1]), chem=rnd.choice([0, 0, 1]), tau=120 * rnd.randint(1, 40), red=rnd.choice([1, 2, 3, 4, 10]),
                 start=rnd.randint(1, 3000), max=rnd.choice([30, 300, 3000, 30000]), min=rnd.choice([1, 1, 10, 100]), const=rnd.choice([0, 0, 0, 1]), thermal=rnd.choice([0, 0, 1]), Nx=Nx, Nz=Nz)
        if r["const"] == 0:
            r["min"] = min(r["min"], r["max"])
        out.append(r)
    # each single node carrying the largest velocity, both signs
    for Nx, Nz in ((3, 3), (4, 3)):
        for fld in ("vx", "vz"):
            m = Nx * (Nz + 1) if fld == "vx" else (Nx + 1) * Nz
            for q in range(m):
                for sgn in (1, -1):
                    r = dict(vx=[0] * (Nx * (Nz + 1)), vz=[0] * ((Nx + 1) * Nz), C=8, dx=8, dz=16, dt0=40000, elastic=0, surf=0, vinc=1, chem=0, tau=120, red=1, start=7, max=60000, min=1, const=0, thermal=0, Nx=Nx, Nz=Nz)
                    r["vx"][0] = 1
                    r[fld][q] = 10 * sgn
                    out.append(r)
    return out


def text(r):
    g = lambda x: repr(float(x))
    return " ".join(["c", str(r["Nx"]), str(r["Nz"]), g(r["dx"] / 16), g(r["dz"] / 16), g(r["C"] / 16), g(r["dt0"] / U), g(r["dt0"] / U), g(r["min"] / U), g(r["max"] / U), g(r["start"] / U),
                     str(r["const"]), str(r["elastic"]), str(r["surf"]), g(r["vinc"]), str(r["chem"]), g(r["tau"] / U), g(r["red"]), str(r["thermal"])]
                    + [g(v) for v in r["vx"]] + [g(v) for v in r["vz"]]) + "\n"


def ifx(x):
    v = x * U
    k = int(round(v)) if abs(v) < 2e9 and v == v else -1
    return k if k >= 0 and abs(v - k) < 1e-6 * max(1, abs(v)) else -1


def run(c):
    c.assumptions = ASSUME
    exe = build.build_driver("courant", "asan")
    sim = build.build_driver("sim", "plain")
    c.model("TimeStep_MC", workers=8)
    cases = gen(c, 600 if c.quick else 6000)
    chunk = 500
    items = []
    for b in range(0, len(cases), chunk):
        part = cases[b:b + chunk]

        def rec(part=part):
            evs = c.drive(exe, "".join(text(r) for r in part), len(part), what="EvaluateCourantCriterion", env=ENV)
            return [dict(r, e="Case", dt=ifx(v["dt"])) for r, v in zip(part, evs)]
        items.append(("cases:%d" % b, rec))

    runs = [("var", dict(Nt=5, constant_dt=0, dt=0.01, Courant=0.3), []),
            ("elast", dict(Nt=5, constant_dt=0, dt=0.01, Courant=0.3, elastic=1), []),
            ("sub", dict(Nt=4, constant_dt=0, dt=1.0, Courant=0.2, gz=-300.0), ["bc=box", "phase=off"]),
            ("sub2", dict(Nt=4, constant_dt=0, dt=1.0, Courant=0.5, gz=-100.0), ["bc=box", "phase=off"]),
            ("dtmin", dict(Nt=4, constant_dt=0, dt=0.01, dt_min=0.015, dt_max=0.03, Courant=0.3), []),
            ("const", dict(Nt=3, constant_dt=1, dt=0.013), []),
            ("surf", dict(Nt=4, constant_dt=0, dt=0.02, Courant=0.3, free_surface=1, zmin=-1.5, zmax=0.5, Nx=11, Nz=8), ["topo=sine", "topo_A=0.05"])]
    for name, p, opts in runs:
        def rec(name=name, p=p, opts=opts):
            d = c.dir(name)
            shutil.rmtree(d, ignore_errors=True)
            rc, ev, out = sims.simulate(c, sim, d, p, [{}, dict(rho=2.0)], ["life=1"] + opts)
            sel = [e for e in ev if e["event"] == "SelectDt"]
            if rc != 0 or not sel:
                raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
            t = []
            el = 1 if p.get("elastic") else 0
            for s in sel:
                if p["constant_dt"] == 1:
                    u = s["dt_start"] / 1e6
                    t.append(dict(e="Const", dt=int(round(s["dt"] / u)), start=1000000))
                else:
                    us, uv = max(s["dt"], s["dt0"]) / 10000.0, (s["vmax"] or 1.0) / 20000.0
                    cl = lambda x: int(round(max(-1e8, min(x / us, 1e8))))
                    t.append(dict(e="Run", dt=cl(s["dt"]), v=int(round(s["vmax"] / uv)), lim=int(round(min(s["C"] * min(s["dx"], s["dz"]) / us / uv, 2e9))),
                                  min=cl(s["dt_min"]), max=cl(s["dt_max"]), dt0=cl(s["dt0"]), elastic=el))
                adv = [e for e in ev if e["event"] == "AdvDt" and e["step"] == s["step"]]
                sub = [e["dt"] for e in ev if e["event"] == "Advect" and e["step"] == s["step"] and not e["chain"]]
                if adv:
                    u = adv[0]["dt_solve"] / 1e6
                    t.append(dict(e="Subs", dt=1000000, lim=int(round(min(adv[0]["dt"] / u, 1e8))), subs=[int(round(x / u)) for x in sub]))
            return t
        items.append(("run:" + name, rec))
    c.conform_batch(items, "TimeStep_Trace", size=50, heap="4g")
    if not c.violations:
        first = items[0][1]()[:20]
        c.corrupted_rejected("TimeStep_Trace", first, lambda ev: ev[3].update(dt=ev[3]["dt"] + 1))
        s = items[[k for k, _ in items].index("run:sub")][1]()
        c.corrupted_rejected("TimeStep_Trace", s, lambda ev: [x for x in ev if x["e"] == "Subs"][0]["subs"].pop() and None)
