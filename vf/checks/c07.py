"""C07: the line search against spec/LineSearch; landscapes imposed on the real search, and the real search inside whole runs."""
import random, math
from .. import core, build, sims

ASSUME = ["imposed landscapes: the residual evaluation and the linear solve are stand-ins, the search and the application of the correction are the real code",
          "in whole runs residuals are compared to 0.6% of the residual before the correction"]


def gen(c, n):
    rnd = random.Random(c.seed * 11 + 7)
    out = []
    for k in range(n):
        hi = rnd.choice([1, 2, 3, 5, 30])
        ref = [rnd.randint(0, hi) for _ in range(3)]
        T = [[rnd.randint(0, hi) for _ in range(3)] for _ in range(6)]
        m = rnd.random()
        if m < 0.15:      # strictly growing
            T = [[ref[j] + rnd.randint(0, 3) for j in range(3)] for _ in range(6)]
        elif m < 0.35:    # one good trial only
            T = [[ref[j] + rnd.randint(0, 3) for j in range(3)] for _ in range(6)]
            q = rnd.randrange(6)
            T[q] = [max(0, ref[j] - rnd.randint(0, 2)) for j in range(3)]
        elif m < 0.5:     # only one component improves
            T = [[ref[j] + rnd.randint(0, 2) for j in range(3)] for _ in range(6)]
            T[rnd.randrange(6)][rnd.randrange(3)] = max(0, ref[0] - 1)
            for t in T:
                t[2] += 40
        elif m < 0.65:    # momentum improves while continuity gets worse
            T = [[max(0, ref[j] - rnd.randint(-2, 2)) for j in range(2)] + [ref[2] + 50] for _ in range(6)]
        out.append(dict(newton=rnd.randint(0, 1), ls=1 if rnd.random() < 0.9 else 0, grow=1 if rnd.random() < 0.2 else 0, min=rnd.choice([0, 0, 50000, 200000]), ref=ref, T=T, stag0=rnd.choice([0, 0, 1])))
    return out


def text(r):
    return "c %d %d %d %r %r %r %r %d 6 %s\n" % (r["newton"], r["ls"], r["grow"], r["min"] / 1e6, float(r["ref"][0]), float(r["ref"][1]), float(r["ref"][2]), r["stag0"], " ".join("%r" % float(x) for t in r["T"] for x in t))


def line(r, v):
    a = lambda x: core.fixp(x, 1e-6)
    T = [dict(a=a(v["ta"][k]), x=int(v["tr"][3 * k]), z=int(v["tr"][3 * k + 1]), p=int(v["tr"][3 * k + 2])) for k in range(len(v["ta"]))]
    return dict(e="Search" if r["ls"] else "Plain", newton=r["newton"], grow=r["grow"], min=r["min"], ref=dict(zip("xzp", r["ref"])), T=T, alpha=a(v["alpha"]), stag=v["stag"], stag0=r["stag0"], spread=0 if v["spread"] < 1e-9 else 1)


def run(c):
    c.assumptions = ASSUME
    c.model("LineSearch_MC", workers=8)
    exe, sim = build.build_driver("linesearch"), build.build_driver("sim")
    cases = gen(c, 1500 if c.quick else 20000)
    items = []
    for b in range(0, len(cases), 500):
        part = cases[b:b + 500]

        def rec(part=part):
            ev = c.drive(exe, "".join(text(r) for r in part), len(part), what="line search")
            return [line(r, v) for r, v in zip(part, ev)]
        items.append(("cases:%d" % b, rec))
    pl = [dict(pwlv=1, cstv=0, npwl=3.0, eta0=1.0), dict(pwlv=0, cstv=1, eta0=20.0)]
    pn = [dict(pwlv=1, cstv=0, npwl=5.0, eta0=1.0), dict(pwlv=1, cstv=0, npwl=3.0, eta0=20.0)]
    runs = [("picard", dict(nit_max=8), pl), ("newton", dict(nit_max=8, Newton=1), pl), ("newton5", dict(nit_max=10, Newton=1), pn), ("picard5", dict(nit_max=10), pn), ("min", dict(nit_max=6, Newton=1, line_search_min=0.2), pn),
            ("safe", dict(elastic=1, nit_max=8), pl), ("scaled", dict(nit_max=6, Newton=1, diag_scaling=1), pl), ("scaledp", dict(nit_max=6, diag_scaling=1), pn)]
    for name, q, ph in runs:
        p = dict(sims.BASE, Nx=9, Nz=9, Nt=2, writer=0, line_search=1, diag_scaling=0, nonlin_abs_mom=1e-9, nonlin_abs_div=1e-9)
        p.update(q)

        def rec(p=p, ph=ph, name=name):
            import shutil
            d = c.dir("r")
            shutil.rmtree(d, ignore_errors=True)
            rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=["ls=1", "nonlin=1"])
            S = [e for e in ev if e["event"] in ("Search", "Residual")]
            if not any(e["event"] == "Search" for e in S):
                raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
            t = []
            for k, e in enumerate(S):
                if e["event"] != "Search":
                    continue
                u = math.sqrt(e["rx"]**2 + e["rz"]**2 + e["rp"]**2) / 1000 or 1.0
                f = lambda x: core.fixp(min(x / u, 30000), 1)
                nx = S[k + 1] if k + 1 < len(S) and S[k + 1]["event"] == "Residual" and S[k + 1]["step"] == e["step"] else None
                if nx is None:
                    continue
                t.append(dict(e="Real", predict=1 - p["diag_scaling"], alpha=core.fixp(e["alpha"], 1e-6), stag=e["stag"], ref=dict(x=f(e["rx"]), z=f(e["rz"]), p=f(e["rp"])),
                              T=[dict(a=core.fixp(q[0], 1e-6), x=f(q[1]), z=f(q[2]), p=f(q[3])) for q in e["T"]], nxt=dict(x=f(nx["rx"]), z=f(nx["rz"]), p=f(nx["rp"]))))
            return t
        items.append(("run:" + name, rec))
    c.conform_batch(items, "LineSearch_Trace", size=50, heap="4g")
    if not c.violations:
        t = [x for x in items[0][1]() if x["e"] == "Search" and x["stag"] == 0][:5]
        c.corrupted_rejected("LineSearch_Trace", t, lambda ev: ev[2].update(stag=1))
        c.corrupted_rejected("LineSearch_Trace", t, lambda ev: ev[2].update(alpha=ev[2]["alpha"] + 100000))
