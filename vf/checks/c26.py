"""C26: one linear step of every solver against spec/LinearSolver."""
import random, shutil
from .. import core, build, sims
from . import c10, c18

ASSUME = ["integer viscosities, cell sizes and fields, so that the assembled rows are exact integers; corrections are read to 2^-22 and residuals judged to 1e-3 (momentum) and 1e-5 (mass) of a unit where the solver's tolerance is 1e-9",
          "solver 1 has no stopping rule: it is judged where the equations have a unique solution; solvers -1 and 2 are judged on everything they return",
          "with a non-symmetric Jacobian (and for solver -1 any non-symmetric matrix) only the mass equations are judged: neither solver has a stopping rule for the momentum there and the outer iteration corrects the state",
          "where the tolerance of one set of equations is large only the other is judged (momentum: not at all)", "equations are called well-posed when cells are compressible in a closed or periodic box, or rock lies under a flat free surface"]
J = c10.J
B = 4096


def gen(rnd):
    while True:
        r = c10.gen(rnd)
        if r["td"] == 0:
            break
    r["ix"], r["iz"] = rnd.choice([1, 2]), rnd.choice([1, 2])
    r["en"] = [min(x, 6) for x in r["en"]]
    r["es"] = [min(x, 6) for x in r["es"]]
    if not r["comp"]:
        r["cc"] = [0] * len(r["cc"])
    if r["kind"] == "periodic":
        for l in range(r["Nz"]):
            r["es"][l * r["Nx"] + r["Nx"] - 1] = r["es"][l * r["Nx"]]
    closed = 0
    if r["kind"] in ("box", "periodic") and rnd.random() < 0.8:      # nothing flows through the walls
        closed = int(r["oop"] == 0 and (r["comp"] == 0 or not any(r["cc"])))
        for t, val, f in ((r["tu"], r["vu"], r["u"]), (r["tv"], r["vv"], r["v"])):
            for k, y in enumerate(t):
                if y == 0:
                    val[k] = f[k] = 0
    sv = r["solver"] = rnd.choice([2, 2, 2, -1, -1, 1])
    r["diag"] = rnd.choice([0, 1])
    r["pre"] = rnd.choice([-1, 0, 1])
    r["newton"] = rnd.choice([0, 1]) if sv == 2 and r["jac"] else 0
    r["nd"] = rnd.choice([0, rnd.randrange(1, 9999)]) if r["newton"] else 0
    r["pen"] = rnd.choice([1e1, 1e2, 1e2, 1e3, 1e3, 1e4, 1e4, 1e5])
    r["dens"] = rnd.choice([0, 1]) if sv == 2 and r["comp"] else 0
    r["lmom"], r["ldiv"] = rnd.choice([("1e-9", "1e-9")] * 5 + [("1e3", "1e-9")] * 2 + [("1e-9", "1e3")])
    r["ph"] = rnd.choice([1, 2, 3] + [20] * 12)
    wet = [t == -1 for t in r["tp"]]
    flat = r["kind"] == "surface" and all(wet[l * (r["Nx"] - 1)] == wet[k + l * (r["Nx"] - 1)] for l in range(r["Nz"] - 1) for k in range(r["Nx"] - 1))
    r["must"] = int(r["nd"] == 0 and r["oop"] == 0 and r["ph"] == 20 and r["pen"] in (1e3, 1e4) and ((r["kind"] == "box" or r["kind"] == "periodic" and (11 in r["tu"])) and (r["comp"] == 1 and any(r["cc"]) or closed) or flat))
    return r


def text(r):
    return "c %d %d %r %r %d %d 2.0 %r %r %d %d %d %d %d %d %r %d %s 0 %s 0 %s 200 %s\n" % (r["Nx"], r["Nz"], 1.0 / r["ix"], 1.0 / r["iz"], r["comp"], r["oop"], r["gx"], r["gz"], r["dens"],
        r["solver"], r["diag"], r["pre"], r["newton"], r["nd"], r["pen"], r["ph"], r["ldiv"], r["lmom"], "1e-13" if r["solver"] == 1 else "1e-8",
        " ".join(J(r[k]) for k in ("tu", "vu", "tv", "vv", "tp", "tg", "en", "es", "rn", "rs")) + " " + J(2 * x for x in r["bt"]) + " " + " ".join(J(r[k]) for k in ("p0", "q", "cc", "u", "v", "p")))


def line(r, v):
    loose = r["lmom"] != "1e-9" or r["ldiv"] != "1e-9"
    opt = "%s solver %d diag %d pre %d newton %d/%d penalty %g its %d comp %d oop %d tol %s %s" % (r["kind"], r["solver"], r["diag"], r["pre"], r["newton"], r["nd"], r["pen"], r["ph"], r["comp"], r["oop"], r["lmom"], r["ldiv"])
    if v["event"] == "Stopped":
        if v["rc"] >= 128:
            raise core.CodeFailure("linear step ended by signal %d: %s" % (v["rc"] - 128, opt))
        return dict(e="Stopped", must=r["must"], opt=opt)
    m, n = v["mom"], v["cont"]
    s = r["ix"] * r["iz"]
    fm, fc = 6 * s, 2 * s
    ints = lambda row, f: [y for q in range(0, len(row), 2) for y in (row[q], core.fixp(row[q + 1] * f, 1))]
    K = []
    for a, b in zip(v["A"], v["B"]):
        K.append(ints(a + b, fm))
    for a, c in zip(v["C"], v["cell"]):
        K.append(ints(a, fc) + ([len(K), 2 * r["bt"][c]] if r["comp"] and r["cc"][c] else []))      # bet / dt * cell = 2 bt / 2 / s
    F = [core.fixp(x * (fm if q < m else fc), 1) for q, x in enumerate(v["F"])]
    x = v["x"]
    e = {(k, row[q]): row[q + 1] for k, row in enumerate(v["A"]) for q in range(0, len(row), 2)}
    sym = all(abs(y - e.get((b, a), 0)) < 1e-9 for (a, b), y in e.items())
    fin = int(all(abs(y) < 1e5 for y in x))
    X = [int(round(y * 2 ** 22)) if abs(y) < 1e5 else 0 for y in x]
    if (r["solver"] == 1 and not r["must"]) or (not fin and (r["nd"] or loose) and all(y == y for y in x)):
        return dict(e="Stopped", must=0, opt=opt)
    return dict(e="Solve", mom=m, K=K, F=F, x2=[y // (B * B) for y in X], x1=[y // B % B for y in X], x0=[y % B for y in X], fin=fin, kept=v["kept"], opt=opt,
                tolm=-1 if loose or r["nd"] or (r["solver"] == -1 and not sym) else int(1e-3 * fm * 2 ** 22), tolc=-1 if r["ldiv"] != "1e-9" else int(1e-5 * fc * 2 ** 22) + 1)


FIELDS = "u_in,v_in,p_in,BCu.type,BCv.type,BCp.type"


def agree(a, b, opt, closed):
    un = max(abs(x) for f in ("u_in", "v_in") for x in a[f]) / 1e5
    air = [t in (30, 31) for t in a["BCp.type"]]
    pn = max([abs(x) for x, w in zip(a["p_in"], air) if not w] + [1e-3]) / 1e5
    q = lambda e, f, t: [0 if y == 30 else core.fixp(x, un) for x, y in zip(e[f], e[t])]
    p = lambda e: [core.fixp(x, pn) for x, w in zip(e["p_in"], air) if not w]
    return dict(e="Agree", ua=q(a, "u_in", "BCu.type"), ub=q(b, "u_in", "BCu.type"), va=q(a, "v_in", "BCv.type"), vb=q(b, "v_in", "BCv.type"), pa=p(a), pb=p(b), closed=closed, tol=100, opt=opt)


def run(c):
    c.assumptions = ASSUME
    c.model("LinearSolver_MC", workers=8)
    c.model_violates("LinearSolver_MC", "LinearSolver_Signed")
    exe, sim = build.build_driver("solver", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 23 + 26)
    items = []

    def detect():
        r2 = random.Random(c.seed * 29 + 1)
        t, ex = "", []
        for n in range(30):
            Nx, Nz, q = r2.randint(3, 6), r2.randint(3, 6), r2.randint(1, 4)
            nc = (Nx - 1) * (Nz - 1)
            tp = [[r2.choice([-1, -1, 0, 30, 31]) for _ in range(nc)] for _ in range(q)]
            b = [[r2.choice([0, 1, 2]) for _ in range(nc)] for _ in range(q)]
            t += "d %d %d %d %s\n" % (Nx, Nz, q, " ".join(J(x) + " " + J([0, "1e-14", "1e-12"][y] for y in z) for x, z in zip(tp, b)))
            ex.append(dict(e="Detect", tp=tp, b=b))
        return [dict(x, flags=v["flags"]) for x, v in zip(ex, c.drive(exe, t, len(ex), what="compressible cells", env=c18.ENV))]
    items.append(("detect", detect))
    cases = [gen(rnd) for _ in range(600 if c.quick else 6000)]
    stat = {}
    for b in range(0, len(cases), 20):
        part = cases[b:b + 20]

        def rec(part=part):
            ev = c.drive(exe, "".join(text(r) for r in part), len(part), what="linear step", env=c18.ENV)
            out = [line(r, v) for r, v in zip(part, ev)]
            for r, o in zip(part, out):
                k = "solver %d %s" % (r["solver"], o["e"] + ("*" if r["must"] else ""))
                stat[k] = stat.get(k, 0) + 1
            return out
        items.append(("cases:%d" % b, rec))
    for name, q, ph, o, closed, solvers in RUNS:
        def rec(q=q, ph=ph, o=o, name=name, closed=closed, solvers=solvers):
            ev = []
            ref = None
            for sv, more in [(2, {})] + solvers:
                p = dict(sims.BASE, Nx=9, Nz=7, Nt=2, writer=0, nit_max=1, initial_noise=1, lin_rel_div=1e-13, lin_abs_div=1e-11, lin_rel_mom=1e-13, lin_abs_mom=1e-11, rel_tol_KSP=1e-10)
                p.update(q)
                p.update(more)
                p["lin_solver"] = sv
                d = c.dir("r-%s-%d" % (name, sv))
                shutil.rmtree(d, ignore_errors=True)
                rc, e, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=solved", "fields=" + FIELDS])
                S = [x for x in e if x["event"] == "Dump" and x["at"] == "solved"]
                if rc != 0 or len(S) != p["Nt"]:
                    raise core.CodeFailure("run %s with solver %d: rc=%s, %d steps %s" % (name, sv, rc, len(S), out[-300:]))
                if ref is None:
                    ref = S
                else:
                    ev += [agree(x, y, "%s solver %d %r step %d" % (name, sv, more, k), closed) for k, (x, y) in enumerate(zip(ref, S))]
            return ev
        items.append(("run:" + name, rec))
    c.conform_batch(items, "LinearSolver_Trace", size=4, heap="3g")
    c.note("; ".join("%s: %d" % x for x in sorted(stat.items())))
    if not c.violations:
        t = [x for _, f in items[1:6] for x in f() if x["e"] == "Solve" and x["tolm"] > 0][:1]
        def f(ev):
            ev[0]["x1"][0] += 40
        c.corrupted_rejected("LinearSolver_Trace", t, f)


FS = dict(free_surface=1, zmin=-1.5, zmax=0.5, xmin=-1.0, xmax=1.0, dt=0.01, gz=-1.0, Nx=9, Nz=9, free_surface_stab=0.0)
OTHERS = [(2, dict(diag_scaling=0)), (2, dict(penalty=1e2)), (1, {}), (-1, {}), (-1, dict(penalty=1e2))]
TWO = [{}, dict(eta0=3.0)]
RUNS = [
    ("box", dict(gz=-1.0), TWO, ["phase=checker"], 1, OTHERS),
    ("compressible", dict(gz=-0.1, dt=0.1, compressible=1, elastic=1), [dict(bet=0.1, G=1.0, density_model=0), dict(bet=0.3, eta0=5.0, G=3.0, density_model=0)], ["phase=layers"], 0, OTHERS),
    ("somecompressible", dict(gz=-0.1, dt=0.1, compressible=1), [dict(bet=0.1, density_model=0), dict(bet=1e-15, eta0=5.0, density_model=0)], ["phase=layers"], 0, OTHERS),
    ("shear", dict(shear_style=1, periodic_x=1), TWO, ["phase=checker"], 1, OTHERS),
    ("surface", FS, TWO, ["topo=slope", "topo_A=0.3"], 0, OTHERS),
    ("oop", dict(out_of_plane=1, compressible=1), [dict(bet=0.5, density_model=0), dict(bet=2.0, eta0=5.0, density_model=0)], ["phase=checker"], 0, OTHERS),
]
