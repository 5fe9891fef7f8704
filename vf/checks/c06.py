"""C06: the nonlinear iterations of whole runs against spec/Nonlinear; TLC-generated residual histories are imposed on the real loop."""
import math, os, random, re, shutil
from .. import core, build, sims

ASSUME = ["imposed histories replace the residual norms and the stagnation verdict of the real solver; the control flow is the real one",
          "tolerance tests compared to 0.7% of the residual (3 milli-decades)"]


def level(r):
    if r != r or r < 0:
        return "nan"
    if r == 0:
        return 300000
    return max(-300000, min(300000, int(round(-1000 * math.log10(r)))))


def trace(ev, p, rc):
    lv = lambda x: level(x)
    cfg = dict(e="Cfg", nit_max=p["nit_max"], safe=p.get("safe_mode", 0), elastic=p.get("elastic", 0), maxstag=p.get("max_num_stag", 3), newton=p.get("Newton", 0),
               p2n=p.get("Picard2Newton", 0) if p.get("Newton", 0) else 0, maxpic=p.get("max_its_Pic", 10),
               absm=lv(p["nonlin_abs_mom"]), absd=lv(p["nonlin_abs_div"]), relm=lv(p["nonlin_rel_mom"]), reld=lv(p["nonlin_rel_div"]), p2ntol=lv(p.get("Picard2Newton_tol", 1e-1)), div=int(p.get("safe_dt_div", 5)))
    out = [cfg]
    res = [e for e in ev if e["event"] in ("Residual", "Correct", "AdvDt", "Finish")]
    step, u = None, None
    for n, e in enumerate(res):
        nx = res[n + 1] if n + 1 < len(res) else None
        t = e["event"]
        if t == "Residual":
            if e["step"] != step:
                step, u = e["step"], (e["dt"] or 1.0) / 1e9
                out.append(dict(e="Begin", fields=e["fields"], dt=10**9))
            out.append(dict(e="Residual", nit=e["nit"], x=lv(e["rx"]), z=lv(e["rz"]), p=lv(e["rp"]), x0=lv(e["rx0"]), z0=lv(e["rz0"]), p0=lv(e["rp0"]), newton=1 if e["newton"] else 0,
                            dt=core.fixp(e["dt"], u), fields=e["fields"], uv=e["uv"]))
            if nx is None or nx["event"] != "Correct":
                out.append(dict(e="Converged"))
        elif t == "Correct":
            out.append(dict(e="Correct", jac=e["jac"], aniso=p.get("anisotropy", 0)))
            out.append(dict(e="After", stag=1 if e["stag"] else 0))
        elif t == "AdvDt":
            out.append(dict(e="Advance", uv=e["uv"]))
    out.append(dict(e="End", finished=1 if (rc == 0 and any(e["event"] == "Finish" for e in ev)) else 0))
    return out


def run(c):
    c.assumptions = ASSUME
    exe = build.build_driver("sim", "plain")
    c.model("Nonlinear_MC", workers=8)
    # behaviours of the specification, replayed into the code
    n = 260 if c.quick else 4000
    r = c.tlc("Nonlinear_MC", "Nonlinear_Gen", workers=1, extra=["-simulate", "num=%d" % n, "-depth", "60", "-seed", str(c.seed)], timeout=600)
    hists = {}
    for m in re.finditer(r'<<\s*"HIST",\s*(\d+),\s*<<(.*?)>>\s*>>', r["out"], re.S):
        h = [tuple(int(x) for x in q) for q in re.findall(r"<<(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+)>>", m.group(2) + ">>")]
        if h:
            hists[(int(m.group(1)), tuple(h))] = 1
    if len(hists) < 30:
        raise core.CheckError("TLC generated only %d histories: %s" % (len(hists), r["out"][-800:]))
    cfgs = {1: dict(nit_max=2, safe_mode=0, elastic=0, max_num_stag=3, Newton=0), 2: dict(nit_max=1, safe_mode=1, elastic=1, max_num_stag=2, Newton=0),
            3: dict(nit_max=2, safe_mode=1, elastic=0, max_num_stag=3, Newton=0), 4: dict(nit_max=3, safe_mode=0, elastic=1, max_num_stag=3, Newton=1, Picard2Newton=1, max_its_Pic=2),
            5: dict(nit_max=2, safe_mode=1, elastic=1, max_num_stag=3, Newton=1, Picard2Newton=1, max_its_Pic=10), 6: dict(nit_max=2, safe_mode=0, elastic=0, max_num_stag=3, Newton=1),
            7: dict(nit_max=0, safe_mode=0, elastic=0, Newton=0)}
    tol = dict(nonlin_abs_mom=10**-6.5, nonlin_abs_div=10**-5.5, nonlin_rel_mom=10**-4.5, nonlin_rel_div=10**-3.5, Picard2Newton_tol=10**-2.5, safe_dt_div=2.0)
    hs = sorted(hists)
    random.Random(c.seed).shuffle(hs)
    per = {}
    items = []
    for k, h in hs:
        per[k] = per.get(k, 0) + 1
        if per[k] > (12 if c.quick else 250):
            continue
        p = dict(sims.BASE, Nx=5, Nz=5, Nt=2, writer=0, **tol)
        p.update(cfgs[k])
        p.update(((dict(Nx=5, Nz=12, xmin=-0.3, xmax=0.3), {}, dict(Nx=12, Nz=5, zmin=-0.3, zmax=0.3)))[per[k] % 3])     # tall, square and wide grids

        def rec(p=p, h=h, k=k):
            d = c.dir("h")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "res.txt"), "w") as f:
                for x, z, q, st in h:
                    f.write("%.17g %.17g %.17g %d\n" % (10**(-x / 1000), 10**(-z / 1000), 10**(-q / 1000), st))
                f.write("1e-30 1e-30 1e-30 0\n")
            rc, ev, out = sims.simulate(c, exe, d, p, opts=["life=1", "nonlin=1", "res=res.txt"])
            if not any(e["event"] == "Residual" for e in ev):
                raise core.CodeFailure("no residual was evaluated (rc=%s): %s" % (rc, out[-300:]))
            return trace(ev, p, rc)
        items.append(("history:cfg%d:%s" % (k, "/".join("%d,%d,%d,%d" % q for q in h)), rec))
    # the real solver, nonlinear rheologies
    pl = [dict(pwlv=1, cstv=0, npwl=3.0, eta0=1.0), dict(pwlv=0, cstv=1, eta0=20.0)]
    real = [("lin", {}, []), ("pl-picard", dict(nit_max=8, nonlin_rel_mom=1e-4, nonlin_rel_div=1e-4), pl), ("pl-newton", dict(nit_max=8, Newton=1, line_search=1, nonlin_rel_mom=1e-6, nonlin_rel_div=1e-6), pl),
            ("pl-p2n", dict(nit_max=10, Newton=1, Picard2Newton=1, Picard2Newton_tol=1e-1, line_search=1), pl), ("pl-p2n3", dict(nit_max=6, Newton=1, Picard2Newton=1, Picard2Newton_tol=1e-9, max_its_Pic=3, line_search=1), pl),
            ("pl-lim", dict(nit_max=2), pl), ("elastic", dict(elastic=1, nit_max=4), []), ("thermal", dict(thermal=1, nit_max=4), pl),
            ("safe", dict(elastic=1, safe_mode=1, nit_max=20, line_search=1, nonlin_abs_mom=1e-4, nonlin_abs_div=1e-4), pl)]
    for name, q, ph in real:
        p = dict(sims.BASE, Nx=6, Nz=9, Nt=3, writer=0)
        p.update(q)

        def rec(p=p, ph=ph, name=name):
            d = c.dir("r")
            shutil.rmtree(d, ignore_errors=True)
            rc, ev, out = sims.simulate(c, exe, d, p, ph, opts=["life=1", "nonlin=1"])
            if not any(e["event"] == "Residual" for e in ev):
                raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
            return trace(ev, p, rc)
        items.append(("run:" + name, rec))
    c.note("%d histories generated by TLC, %d replayed, configurations %s" % (len(hists), len(items) - len(real), sorted(per)))
    c.conform_batch(items, "Nonlinear_Trace", size=400, heap="4g")
    if not c.violations:
        t = items[-8][1]()
        def extra(ev):
            k = [i for i, x in enumerate(ev) if x["e"] == "Converged"][0]
            ev[k:k + 1] = [dict(e="Correct", jac=0, aniso=0), dict(e="After", stag=0)]
        c.corrupted_rejected("Nonlinear_Trace", t, extra)
        def worse(ev):
            k = [i for i, x in enumerate(ev) if x["e"] == "Converged"][0]
            ev[k - 1].update(x=1, z=1)
        c.corrupted_rejected("Nonlinear_Trace", t, worse)
