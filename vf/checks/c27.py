"""C27: layered (anisotropic) materials against spec/Anisotropy."""
import random, shutil
from math import atan2, hypot, pi
from .. import core, build, sims
from . import c20
from .c19 import ENV
from .c20 import Case, F, fx, split

ASSUME = ["directors with small integer components and factors and viscosities that are powers of two, so that the law is exact arithmetic; stresses are read to a hundredth, viscosities to a thousandth",
          "the stress returned by the point function is not judged: the grid function discards it", "elastic strain rates of layered cells: see the known findings"]
DIRS = [(1, 0), (0, 1), (1, 1), (-1, 1), (2, 1), (1, -2), (1, 3), (-3, 1), (-1, -2)]


class Layered(Case):
    def __init__(self, nx, nz, np):
        Case.__init__(self, nx, nz, np)
        self.t = ["layered %d %d %d" % (nx, nz, np)]

    def directors(self, dc, dv):
        for s, D in (("n", dc), ("s", dv)):
            n2 = [x * x + z * z for x, z in D]
            self.f("d1_" + s, [2.0 * x * x * z * z / q / q for (x, z), q in zip(D, n2)])
            self.f("d2_" + s, [x * z * (z * z - x * x) / q / q for (x, z), q in zip(D, n2)])
            self.f("angle_" + s, [atan2(z, x) for x, z in D])


DS = "D11_n,D12_n,D13_n,D14_n,D21_n,D22_n,D23_n,D24_n", "D31_s,D32_s,D33_s,D34_s"
OUT = "aniso_factor_n,aniso_factor_s,eta_n,eta_s,eta_phys_n,eta_phys_s,sxxd,szzd,sxz_n,sxxd_s,szzd_s,sxz," + ",".join(DS)


def grid(rnd):
    """A grid of layered cells and vertices with everything drawn at random: factors, viscosities, stresses, operators."""
    np = rnd.randint(1, 3)
    k = Layered(*c20.size(rnd), np)
    el, per = int(rnd.random() < 0.4), int(rnd.random() < 0.25)
    v = [2 ** rnd.randint(0, 3) for _ in range(np)]
    if el:
        v = [v[0]] * np
    mat = [[v[p], 2 ** rnd.randint(0, 3), rnd.choice([0, 0, 1]), 2 ** rnd.randint(0, 3)] for p in range(np)]
    avg, aavg, dt = rnd.randint(0, 2), rnd.choice([0, 1, 1, 2]), rnd.choice([1, 2])
    lo, hi = rnd.choice([(0, 1000), (0, 1000), (1, 4), (2, 4), (2, 8), (4, 4)])
    k.p(step=rnd.choice([1, 3]), elastic=el, dt=float(dt), eta_average=avg, ani_average=aavg, periodic_x=per, min_eta=float(lo), max_eta=float(hi))
    for nm, j in (("eta0", 0), ("aniso_factor", 1), ("ani_fstrain", 2), ("ani_fac_max", 3)):
        k.m(nm, [m[j] for m in mat])
    k.m("cstv", [1] * np)
    tc, tv = c20.airy(rnd, k)
    if per:                                    # joined sides are both free or both not
        for l in range(k.nz):
            tv[l * k.nx + k.nx - 1] = tv[l * k.nx]
    k.types(tc, tv)
    n = k.nc + k.nv
    W = [split(rnd, np) for _ in range(n)]
    A = [2 ** rnd.randint(0, 3) for _ in range(n)]
    D = [rnd.choice(DIRS) for _ in range(n)]
    E = [[rnd.randint(-3, 3) for _ in range(3)] if rnd.random() < 0.95 else [0] * 3 for _ in range(n)]
    T0 = [[rnd.randint(-4, 4) for _ in range(3)] if any(E[i]) else [0] * 3 for i in range(n)]
    G = [2 ** rnd.randint(0, 3) for _ in range(n)]
    twin = {}
    for l in range(k.nz):
        a, b = k.nc + l * k.nx, k.nc + l * k.nx + k.nx - 1
        twin[a], twin[b] = b, a
        if per and rnd.random() < 0.5:
            W[b], A[b] = W[a], A[a]
    k.w(W[:k.nc], W[k.nc:])
    two = lambda a, b, f: (k.f(a, [f(i) for i in range(k.nc)]), k.f(b, [f(i) for i in range(k.nc, n)]))
    two("FS_AR_n", "FS_AR_s", lambda i: A[i]); two("mu_n", "mu_s", lambda i: G[i] / dt)
    two("exxd", "exxd_s", lambda i: E[i][0]); two("ezzd", "ezzd_s", lambda i: E[i][1]); two("exz_n", "exz", lambda i: E[i][2])
    two("sxxd0", "sxxd0_s", lambda i: T0[i][0]); two("szzd0", "szzd0_s", lambda i: T0[i][1]); two("sxz0_n", "sxz0", lambda i: T0[i][2])
    two("bet_n", "bet_s", lambda i: 0.5)
    k.f("T", [1.0] * k.nc); k.f("d0_n", [1.0] * k.nc)
    k.directors(D[:k.nc], D[k.nc:])
    for nm, m in (("D11_n", k.nc), ("D23_n", k.nc), ("D31_s", k.nv), ("D33_s", k.nv), ("D14_n", k.nc), ("D34_s", k.nv), ("aniso_factor_n", k.nc), ("aniso_factor_s", k.nv), ("sxxd", k.nc), ("sxz", k.nv), ("eta_n", k.nc)):
        k.f(nm, [7.0] * m)                     # left over from before
    k.t += ["call anifactor", "call layered %d" % rnd.randint(0, 1), "call operators 0 1"]
    k.t += ["get " + OUT]

    def out(X):
        x, S = X[0], []
        for i in range(n):
            c = i < k.nc
            j = i if c else i - k.nc
            q = lambda a, b, u: fx(x[a if c else b][j], u)
            air = int((tc[j] in (30, 31)) if c else tv[j] == 30)
            tw = twin.get(i) if per and not air else None
            S.append(dict(air=air, w=W[i], ar=A[i], w2=W[tw] if tw is not None else [], ar2=A[tw] if tw is not None else 0, n=list(D[i]), e=E[i], t0=T0[i] if el else [0] * 3, ee=G[i] if el else 0,
                          fac=q("aniso_factor_n", "aniso_factor_s", 1000), eta=q("eta_n", "eta_s", 1000), etap=q("eta_phys_n", "eta_phys_s", 1000), law=int(tw is None or (W[tw], A[tw]) == (W[i], A[i])),
                          t=[q("sxxd", "sxxd_s", 100), q("szzd", "szzd_s", 100), q("sxz_n", "sxz", 100)], D=[fx(x[a][j], 100) for a in DS[0 if c else 1].split(",")]))
        return [dict(e="Grid", m=mat, avg=avg, aavg=aavg, lo=lo, hi=hi, s=S)]
    return k.text(), 1, out


def setup(k, rnd, laws, el, D, Fa, S, avg, plast):
    """The same material state on a plain and a layered grid."""
    np, nc, nv = k.np, k.nc, k.nv
    k.p(step=1, elastic=el, dt=2.0, eta_average=avg, ani_average=1)
    c20.put_laws(k, laws, 1024, random.Random(S["put"]))
    k.m("gs_ref", [S["d"]] * np); k.m("plast", plast); k.m("Slim", S["slim"]); k.m("eta_vp", S["evp"]); k.m("aniso_factor", [1.0] * np)
    k.w(S["w"][:nc], S["w"][nc:])
    n = nc + nv
    two = lambda a, b, f: (k.f(a, [f(i) for i in range(nc)]), k.f(b, [f(i) for i in range(nc, n)]))
    two("exxd", "exxd_s", lambda i: S["E"][i][0]); two("ezzd", "ezzd_s", lambda i: S["E"][i][1]); two("exz_n", "exz", lambda i: S["E"][i][2])
    two("sxxd0", "sxxd0_s", lambda i: S["T0"][i][0]); two("szzd0", "szzd0_s", lambda i: S["T0"][i][1]); two("sxz0_n", "sxz0", lambda i: S["T0"][i][2])
    two("mu_n", "mu_s", lambda i: S["G"][i]); two("bet_n", "bet_s", lambda i: S["B"]); two("C_n", "C_s", lambda i: S["C"][i]); two("fric_n", "fric_s", lambda i: S["fr"]); two("dil_n", "dil_s", lambda i: S["di"])
    k.f("T", [1024.0] * nc); k.f("p_in", [S["P"]] * nc); k.f("p0_n", [S["P"]] * nc); k.f("d0_n", [float(S["d"])] * nc); k.f("phi0_n", [0.0] * nc)
    if isinstance(k, Layered):
        k.f("aniso_factor_n", Fa[:nc]); k.f("aniso_factor_s", Fa[nc:])
        k.directors(D[:nc], D[nc:])


def draw(rnd, nx, nz, np, el, plast, old):
    n = (nx - 1) * (nz - 1) + nx * nz
    while True:
        laws = [[l for l in L if l[0] != "gbs"] or [["cst", 1, 1, [0] * 5]] for L in c20.laws_of(rnd, np, rnd.random() < 0.5)]
        P, d = rnd.choice([0, 1, 5]) if not any(l[3][1] for L in laws for l in L) else 1, rnd.choice([1, 4])
        if all(-3 <= c20.base2(l, 1024, P, d, 0) <= 4 for L in laws for l in L):
            break
    S = dict(put=rnd.randrange(10 ** 6), evp=[rnd.choice([0, 1]) for _ in range(np)], w=[split(rnd, np) for _ in range(n)], E=[[rnd.choice([-1, 1]) * rnd.uniform(0.3, 4) for _ in range(3)] for _ in range(n)],
             T0=[[rnd.uniform(-3, 3) if old else 0.0 for _ in range(3)] for _ in range(n)], G=[2.0 ** rnd.randint(-1, 2) for _ in range(n)], B=rnd.choice([0.25, 1e9]), C=[rnd.choice([0.5, 2.0, 10.0]) for _ in range(n)],
             fr=rnd.choice([0.0, 0.3, 0.6]), di=rnd.choice([0.0, 0.1]) if el else 0.0, P=float(P), d=d)
    S["slim"] = [rnd.choice([1e90, 0.3] + ([2.0] if not S["di"] else [])) for _ in range(np)]
    return laws, S, [rnd.choice(DIRS) for _ in range(n)], [rnd.choice([1.0, 1.5, 3.0, 10.0]) for _ in range(n)], rnd.randint(0, 2), [int(plast and rnd.random() < 0.6) for _ in range(np)]


PART = "eta_n,eta_s,eta_phys_n,eta_phys_s,eII_pl,eII_pwl,eII_lin,eII_exp,eII_cst,p_corr,div_u_pl,OverS_n,Wtot,Wdiss,Wel,div_u_el,d_n"


def same(rnd):
    """Viscosities and partial strain rates do not depend on layers: the layered routine against the plain one."""
    nx, nz, np, el = rnd.choice([3, 4]), rnd.choice([3, 4]), rnd.randint(1, 2), int(rnd.random() < 0.6)
    laws, S, D, Fa, avg, plast = draw(rnd, nx, nz, np, el, 1, 0)
    a, b = Case(nx, nz, np), Layered(nx, nz, np)
    for k, call in ((a, "viscosity 0"), (b, "layered 0")):
        setup(k, rnd, laws, el, D, Fa, S, avg, plast)
        k.go(call, PART)

    def out(X):
        x, y = X
        return [dict(e="Same", what=f, opt="%s average %d elastic %d yield %s" % (laws, avg, el, plast), r=[1000000 if abs(p - q) < 1e-12 else fx(q / p, 1e6) if p else 0 for p, q in zip(x[f], y[f])]) for f in PART.split(",") if el or f != "Wel"]
    return a.text() + b.text(), 2, out


def tangent(rnd):
    """Newton operators against differences of stresses."""
    nx, nz, np, el = 3, 3, rnd.randint(1, 2), int(rnd.random() < 0.6)
    laws, S, D, Fa, avg, plast = draw(rnd, nx, nz, np, el, 1, el)
    h, k = 1e-4, Layered(nx, nz, np)
    setup(k, rnd, laws, el, D, Fa, S, avg, plast)
    k.p(compressible=1.0)
    k.t += ["call layered 0", "call operators 1 1", "get " + ",".join(DS)]
    N = k.nc, k.nv
    for a, b, j in (("exxd", "exxd_s", 0), ("ezzd", "ezzd_s", 1), ("exz_n", "exz", 2)):
        for s in (1, -1, 0):
            for f, o, q in ((a, 0, k.nc), (b, k.nc, k.nv)):
                k.f(f, [S["E"][o + i][j] + s * h for i in range(q)])
            if s:
                k.go("layered 0", "sxxd,szzd,sxz,p_corr")

    def out(X):
        d, K = X[0], 10000
        tot = lambda x, nm: x[nm] if nm == "sxz" else [a - b for a, b in zip(x[nm], x["p_corr"])]
        f = lambda j, nm, u: [(p - q) / (2 * h) / u for p, q in zip(tot(X[1 + 2 * j], nm), tot(X[2 + 2 * j], nm))]
        R = []
        for nm, (st, j) in dict(D11_n=("sxxd", 0), D12_n=("sxxd", 1), D13_n=("sxxd", 2), D21_n=("szzd", 0), D22_n=("szzd", 1), D23_n=("szzd", 2), D31_s=("sxz", 0), D32_s=("sxz", 1), D33_s=("sxz", 2)).items():
            R.append(dict(e="Tangent", opt="%s %s average %d elastic %d factor %s" % (nm, laws, avg, el, Fa[:3]), D=F(d[nm], K), fd=F(f(j, st, 2 if j == 2 else 1), K), tol=80))
        return R
    return k.text(), 7, out


def directors(rnd):
    PY = [(3, 4, 5), (4, 3, 5), (-3, 4, 5), (5, 12, 13), (1, 0, 1), (0, 1, 1), (-4, -3, 5), (8, -15, 17), (-1, 0, 1)]
    XZ = [(3, 4, 5), (-3, 4, 5), (0, 1, 1), (5, 12, 13), (-12, 5, 13), (15, 8, 17)]
    np, n, polar, own = rnd.randint(1, 3), rnd.randint(1, 6), rnd.randint(0, 1), rnd.randint(0, 1)
    k = Layered(3, 3, np)
    A, x = [rnd.choice(PY) for _ in range(np)], [rnd.choice(XZ) for _ in range(n)]
    O, ph = [rnd.choice(PY) for _ in range(n)], [rnd.choice([-1] + list(range(np)) * 2) for _ in range(n)]
    k.p(polar=polar, marker_aniso_angle=own)
    k.m("aniso_angle", ["%.17g" % atan2(a[1], a[0]) for a in A])
    k.t.append("k %d %s" % (n, " ".join("%r %r 0" % (q[0] / 8, q[1] / 8) for q in x)))
    k.t.append("call directors " + " ".join("%d %.17g" % (p, atan2(o[1], o[0])) for p, o in zip(ph, O)))
    return k.text(), 1, lambda X: [dict(e="Directors", polar=polar, ph=ph, x=[list(q) for q in x], a=[list(O[i] if own else A[max(ph[i], 0)]) for i in range(n)], n=[[fx(a, 10000), fx(b, 10000)] for a, b in zip(X[0]["nx"], X[0]["nz"])])]


GEN = [grid, grid, grid, same, same, tangent, directors]


def group(c, exe, part):
    v, out = c.drive(exe, "".join(t for t, _, _ in part), sum(q for _, q, _ in part), what="layered", env=ENV), []
    for _, q, f in part:
        out += f(v[:q]); v = v[q:]
    return out


RUNS = [
    ("plain", dict(Nt=3), [dict(aniso_factor=4.0, aniso_angle=30.0), dict(eta0=10.0, aniso_factor=2.0, aniso_angle=120.0)], []),
    ("growing", dict(Nt=6, dt=0.2, ani_average=0), [dict(ani_fstrain=1, ani_fac_max=1.5, aniso_angle=80.0), dict(eta0=5.0, aniso_factor=3.0)], ["phase=checker"]),
    ("elastic", dict(Nt=4, dt=0.1, elastic=1, bkg_strain_rate=-0.5, nit_max=4), [dict(G=1.0, aniso_factor=6.0, aniso_angle=45.0), dict(G=2.0, eta0=0.5, aniso_factor=1.0)], []),
    ("cutoffs", dict(Nt=2, min_eta=0.4, max_eta=3.0, eta_average=1), [dict(eta0=0.1, aniso_factor=2.0), dict(eta0=10.0, aniso_factor=5.0, aniso_angle=20.0)], []),
    ("creep", dict(Nt=2, nit_max=5), [dict(pwlv=1, cstv=0, npwl=3.0, aniso_factor=3.0, aniso_angle=60.0), dict(eta0=20.0, aniso_factor=1.5)], ["phase=checker"]),
    ("shear", dict(Nt=3, shear_style=1, periodic_x=1, pure_shear_ALE=0, dt=0.1), [dict(aniso_factor=4.0, aniso_angle=90.0), dict(eta0=0.2, aniso_factor=2.0, aniso_angle=45.0)], []),
]
FLDS = "eta_n,eta_s,sxxd,szzd,sxz_n,sxz,exxd,ezzd,exz_n,exxd_s,ezzd_s,exz,d1_n,d2_n,d1_s,d2_s,aniso_factor_n,aniso_factor_s,BCp.type,BCg.type,sxxd0,szzd0,sxz0,phase_perc_n,phase_perc_s"


def bounds(c, sim, name, p, ph, o):
    """Layered runs: the law between recorded strain rates and stresses, orientation tensors of unit directors, factors and viscosities in their range."""
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=solved", "fields=" + FLDS])
    D = [e for e in ev if e["event"] == "Dump"]
    if rc != 0 or len(D) < p["Nt"]:
        raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
    P = [dict(a, **(ph[i] if i < len(ph) else {})) for i, a in enumerate(sims.PHASE)]
    facs = [1.0 if x.get("ani_fstrain") else x.get("aniso_factor", 1.0) for x in P] + [x.get("ani_fac_max", 1000.0) if x.get("ani_fstrain") else 1.0 for x in P]
    top, K, L, was = max(facs), 100000, [], None
    for q, e in enumerate(D):
        B = []
        r = lambda what, v, a, b, tol=3: B.append(dict(what=what, v=F(v, K), lo=F(a, K), hi=F(b, K), tol=tol))
        for s, ty in (("n", e["BCp.type"]), ("s", e["BCg.type"])):
            I = [i for i, t in enumerate(ty) if t not in (30, 31)]
            at = lambda f: [e[f][i] for i in I]
            one = lambda x: [x] * len(I)
            r("factor in the range of the phases", at("aniso_factor_" + s), one(min(facs)), one(top))
            r("viscosity between the cut-offs", at("eta_" + s), one(max(p["min_eta"], 0)), one(min(p["max_eta"], 1e4)))
            r("orientation of unit directors", at("d1_" + s), one(0), one(0.5))
            a = [1 - 1 / x for x in at("aniso_factor_" + s)]
            if not p["elastic"]:
                X = [at(f) for f in (("exxd", "ezzd", "exz_n") if s == "n" else ("exxd_s", "ezzd_s", "exz"))]
                t1, t2, et = at("d1_" + s), at("d2_" + s), at("eta_" + s)
                w = [(2 * h * (x * (1 - a_ * u) + z * a_ * u - 2 * y * a_ * v), 2 * h * (z * (1 - a_ * u) + x * a_ * u + 2 * y * a_ * v), 2 * h * ((z - x) * a_ * v + 2 * y * (a_ * (u - 0.5) + 0.5))) for h, x, z, y, a_, u, v in zip(et, *X, a, t1, t2)]
                for f, j in (("sxxd", 0), ("szzd", 1), ("sxz_n", 2)) if s == "n" else (("sxz", 2),):
                    r("stress follows the strain rate of the same state", at(f), [x[j] for x in w], [x[j] for x in w], 50)
            if q == 0 and name not in ("growing",):      # before anything turned: orientation tensors of the phases
                W = [[e["phase_perc_%s%d" % (s, z)][i] for z in range(len(P))] for i in I]
                from math import cos, sin, radians
                g = [radians(x.get("aniso_angle", 90.0)) for x in P]
                pure = [(i, w_.index(max(w_))) for i, w_ in zip(I, W) if max(w_) > 1 - 1e-9]
                for f, fn in (("d1_", lambda t: 2 * cos(t) ** 2 * sin(t) ** 2), ("d2_", lambda t: cos(t) * sin(t) * (sin(t) ** 2 - cos(t) ** 2))):
                    r("orientation of the phase", [e[f + s][i] for i, _ in pure], [fn(g[z]) for _, z in pure], [fn(g[z]) for _, z in pure])
        L.append(dict(e="Run", b=[b for b in B if b["v"]]))
    return L


def run(c):
    c.assumptions = ASSUME
    for kd in ("law",) if c.quick else ("law", "deep"):
        c.model("Anisotropy_MC", "Anisotropy_" + kd, workers=4)
    for mu in ("MutSign", "MutIso"):
        c.model_violates("Anisotropy_MC", "Anisotropy_" + mu)
    exe = build.build_driver("rheo", "asan")
    rnd = random.Random(c.seed * 27 + 1)
    cases = [rnd.choice(GEN)(rnd) for _ in range(500 if c.quick else 8000)]
    items = []
    for b in range(0, len(cases), 50):
        items.append(("cases:%d" % b, lambda part=cases[b:b + 50]: group(c, exe, part)))
    sim = build.build_driver("sim")
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, writer=0, Nx=9, Nz=9, anisotropy=1)
        p.update(q)
        items.append(("run:" + name, lambda p=p, o=o, name=name, ph=ph: bounds(c, sim, name, p, ph, o)))
    c.conform_batch(items, "Anisotropy_Trace", size=3)
    if not c.violations:
        ev = [x for b in items[:3] for x in b[1]()]

        def spoil(kind, f):
            s = [x for x in ev if x["e"] == kind and f(x, False)][:1]
            c.corrupted_rejected("Anisotropy_Trace", s, lambda t: f(t[0], True))

        def stress(x, do):
            s = [y for y in x["s"] if not y["air"] and y["law"] and abs(y["t"][2]) > 100 and x["aavg"] == 1 and x["avg"] == 0]
            if s and do:
                s[0]["t"][2] += s[0]["t"][2] // 8
            return s

        def tan(x, do):
            s = [j for j, z in enumerate(x["fd"]) if abs(z) > 5000]
            if s and do:
                x["D"][s[0]] += 2 * x["tol"] + abs(x["fd"][s[0]]) // 40
            return s

        def dire(x, do):
            if do:
                x["n"][0] = [x["n"][0][1], x["n"][0][0] + 5]
            return x["ph"][0] >= 0

        def sam(x, do):
            if do:
                x["r"][0] += 500
            return x["r"]
        for kind, f in (("Grid", stress), ("Tangent", tan), ("Directors", dire), ("Same", sam)):
            spoil(kind, f)
