"""C18: energy balance of thermal steps against spec/Thermal."""
import random, shutil
from .. import core, build, sims

ASSUME = ["unit cases: integer coefficients, temperatures recorded to 1e-3 of the unit; the balance is judged to that resolution", "in runs to about 1e-4 of the largest term",
          "the side and top conditions 'flux' insulate (the code applies a given flow through the bottom only); polar coordinates are not covered"]
J = lambda a: " ".join(str(x) for x in a)
Q = 1000


def gen(rnd):
    kind = rnd.choice(["closed", "held", "mixed", "surface", "surface", "periodic", "persurf"])
    ncx, ncz = rnd.choice([(1, 4), (4, 1), (2, 2), (3, 4), (5, 3), (4, 6), (6, 4), (2, 7), (7, 2)])
    if kind in ("periodic", "persurf"):
        ncx = max(ncx, 3)
    Nx, Nz = ncx + 1, ncz + 1
    W = ncx + 2
    ne, nc = W * (ncz + 2), ncx * ncz
    ty, va = [0] * ne, [0] * ne
    X = lambda k, l: (k + 1) + (l + 1) * W
    h = [ncz] * ncx
    if kind in ("surface", "persurf"):
        h = [rnd.randint(1, ncz) for _ in range(ncx)]
        if rnd.random() < 0.5:
            b = rnd.randint(1, ncz)
            h = [max(1, min(ncz, b + rnd.randint(-1, 1))) for _ in range(ncx)]
    heldsurf = rnd.random() < 0.7
    side = lambda: (0, 0) if kind == "closed" else (1, rnd.randint(1, 30)) if kind == "held" else rnd.choice([(0, 0), (1, rnd.randint(1, 30))])
    for l in range(-1, ncz + 1):
        for k in range(-1, ncx + 1):
            if 0 <= k < ncx and 0 <= l < ncz:
                if l >= h[k]:
                    ty[X(k, l)] = 30
                elif l == h[k] - 1 and l < ncz - 1 and heldsurf:
                    ty[X(k, l)], va[X(k, l)] = 1, rnd.randint(1, 30)
                else:
                    ty[X(k, l)] = rnd.choice([-1, -1, 0]) if False else -1
    for l in range(ncz):
        for k in (-1, ncx):
            ty[X(k, l)], va[X(k, l)] = ((-2, 0) if kind in ("periodic", "persurf") else side())
    for k in range(ncx):
        ty[X(k, -1)], va[X(k, -1)] = side()
        if ty[X(k, -1)] == 0 and kind != "closed" and rnd.random() < 0.4:
            va[X(k, -1)] = rnd.randint(-6, 3)
        ty[X(k, ncz)], va[X(k, ncz)] = side()
    big = rnd.random() < 0.3
    kk = lambda n: [4 * rnd.randint(0 if big else 1, 3) for _ in range(n)]
    kx, kz = kk(Nx * (Nz + 1)), kk((Nx + 1) * Nz)
    if kind in ("periodic", "persurf"):       # the two sides are one and the same face
        for l in range(Nz + 1):
            kx[Nx - 1 + l * Nx] = kx[l * Nx]
    dt = rnd.choice([1, 2])
    rho, cp = [rnd.randint(1, 3) for _ in range(nc)], [16 * rnd.randint(1, 2) for _ in range(nc)]
    src = rnd.random() < 0.5
    z = lambda a, b, n: [rnd.randint(a, b) if src else 0 for _ in range(n)]
    return dict(ncx=ncx, ncz=ncz, ix=rnd.choice([1, 2]), iz=rnd.choice([1, 2]), dt=dt, nit=rnd.choice([1, 2, 3]), sh=rnd.choice([0, 1]), ad=rnd.choice([0, 1, 2]) if src else 0, gz=rnd.choice([-2, -1, 1]), ty=ty, va=va,
                T0=[rnd.randint(5, 30) for _ in range(nc)], rho=rho, cp=cp, kx=kx, kz=kz, Qr=z(0, 9, nc), W=z(0, 20, nc), alp=z(0, 1, nc), vz=[rnd.choice([-1, 0, 1]) for _ in range((Nx + 1) * Nz)], p=[2 * rnd.randint(-3, 3) for _ in range(nc)], p0=[0] * nc, kind=kind)


def text(r):
    return "c %d %d %r %r %d %d %d %d %d %s\n" % (r["ncx"] + 1, r["ncz"] + 1, 1.0 / r["ix"], 1.0 / r["iz"], r["dt"], r["nit"], r["sh"], r["ad"], r["gz"],
                                                 " ".join(J(r[k]) for k in ("ty", "va", "T0", "rho", "cp", "kx", "kz", "Qr", "W", "alp", "vz", "p", "p0")))


def line(r, v):
    q = lambda a: [core.fixp(x * Q, 1) for x in a]
    o = dict(e="Step", ax=r["ix"] ** 2, az=r["iz"] ** 2, Q=Q, C=[a * b // r["dt"] for a, b in zip(r["rho"], r["cp"])], T0=q(r["T0"]), T1=q(v["T1"]), Ts=q(v["Ts"]), Tn=q(v["Tn"]),
             va=[x * Q for x in r["va"]], mink=min(r["kx"]), tair=core.fixp(273.15 * Q, 1), **{k: r[k] for k in ("ncx", "ncz", "iz", "dt", "sh", "ad", "gz", "ty", "kx", "kz", "rho", "Qr", "W", "alp", "vz", "p", "p0")})
    return o


FIELDS = "T,T0_n,rho_n,Cp,kx,kz,Qr,Wdiss,alp,v_in,p_in,p0_n,BCT_exp.type,BCT_exp.val"


def runline(e0, e1, p):
    ncx, ncz = p["Nx"] - 1, p["Nz"] - 1
    dx, dz, dt = e0["gdx"], e0["gdz"], e0["dt"]
    kx, kz = [x / dx / dx for x in e0["kx"]], [x / dz / dz for x in e0["kz"]]
    air = [e0["BCT_exp.type"][(c % ncx + 1) + (c // ncx + 1) * (ncx + 2)] == 30 for c in range(ncx * ncz)]
    C = [r * cp / dt for r, cp in zip(e0["rho_n"], e0["Cp"])]
    unit = max([x for x, a in zip(C, air) if not a] + [2 * x for x in kx + kz]) / 3000.0
    held = [v for v, t in zip(e0["BCT_exp.val"], e0["BCT_exp.type"]) if t == 1]
    Ts = [t for t, a in zip(e0["T"] + e1["T"], air + air) if not a] + held
    lo, rng = min(Ts), max(Ts) - min(Ts) or 1.0
    U = rng / 15000.0
    S = []
    for c in range(ncx * ncz):
        k, l = c % ncx, c // ncx
        s = e0["Qr"][c] + (e0["Wdiss"][c] if p.get("shear_heating") else 0)
        if p.get("adiab_heating") == 1:
            s += e0["T"][c] * e0["alp"][c] * 0.5 * (e0["v_in"][k + 1 + l * (ncx + 2)] + e0["v_in"][k + 1 + (l + 1) * (ncx + 2)]) * p["gz"] * e0["rho_n"][c]
        if p.get("adiab_heating") == 2:
            s += e0["T"][c] * e0["alp"][c] * (e0["p_in"][c] - e0["p0_n"][c]) / dt
        S.append(0.0 if air[c] else s)
    q = lambda a, u: [core.fixp(x, u) for x in a]
    t = lambda a: [core.fixp((x - lo) / U, 1) if not w else 0 for x, w in zip(a, air)]
    # a given flow enters as -value/dz: iz = 1, value in flow units; held values as temperatures
    va = [core.fixp((v - lo) / U, 1) if ty == 1 else core.fixp(v / dz / (U * unit), 1) if ty == 0 else 0 for v, ty in zip(e0["BCT_exp.val"], e0["BCT_exp.type"])]
    return dict(e="Run", ncx=ncx, ncz=ncz, ax=1, az=1, iz=1, C=[0 if w else core.fixp(x, unit) for x, w in zip(C, air)], kx=q(kx, unit), kz=q(kz, unit), ty=e0["BCT_exp.type"], va=va, mink=core.fixp(min(kx), unit), S=q(S, U * unit),
                T0=t(e0["T"]), T1=t(e1["T"]), Tm=t(e0["T0_n"]), rng=15000, src=int(any(abs(x) > 0 for x in S)))


def run(c):
    c.assumptions = ASSUME
    c.model("Thermal_MC", workers=8)
    if not c.quick:
        for m in ("MutWest", "MutAir"):
            c.model_violates("Thermal_MC", "Thermal_" + m)
    exe, sim = build.build_driver("thermal", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 17 + 18)
    cases = [gen(rnd) for _ in range(300 if c.quick else 6000)]
    items = []
    for b in range(0, len(cases), 50):
        part = cases[b:b + 50]

        def rec(part=part):
            ev = c.drive(exe, "".join(text(r) for r in part), len(part), what="thermal step", env=ENV)
            return [line(r, v) for r, v in zip(part, ev)]
        items.append(("cases:%d" % b, rec))
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, Nx=9, Nz=7, Nt=2, writer=0, nit_max=2, thermal=1, bkg_strain_rate=-0.2)
        p.update(q)

        def rec(p=p, o=o, name=name, ph=ph):
            d = c.dir("r-" + name)
            shutil.rmtree(d, ignore_errors=True)
            rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=thermal0,thermal1", "fields=" + FIELDS])
            A, B = [[e for e in ev if e["event"] == "Dump" and e["at"] == a] for a in ("thermal0", "thermal1")]
            if rc != 0 or len(A) != p["Nt"] or len(B) != len(A):
                raise core.CodeFailure("run %s: rc=%s, %d thermal steps %s" % (name, rc, len(A), out[-300:]))
            return [runline(x, y, p) for x, y in zip(A, B)]
        items.append(("run:" + name, rec))
    c.conform_batch(items, "Thermal_Trace", size=3, heap="3g")
    if not c.violations:
        t = items[0][1]()[:3]
        def f(ev):
            i = [k for k, y in enumerate(ev[1]["T1"]) if y != ev[1]["tair"]]
            ev[1]["T1"][i[-1]] += 5
        c.corrupted_rejected("Thermal_Trace", t, f)


ENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=66:detect_odr_violation=0")
FS = dict(free_surface=1, zmin=-1.5, zmax=0.5, xmin=-1.0, xmax=1.0, dt=0.01, gz=-1.0, Nx=9, Nz=9, free_surface_stab=1.0)
TWO = [dict(k=2.0, Cp=1.5, rho=2.0), dict(k=5.0, Cp=3.0, rho=1.5)]
RUNS = [
    ("held", {}, TWO, []),
    ("closed", dict(dt=0.1), TWO, ["insul=2", "Tanom=200"]),
    ("hot", dict(Nx=7, Nz=9), TWO, ["Tanom=300", "phase=checker"]),
    ("bottomflux", dict(Nx=13, Nz=5), TWO, ["qbot=-900"]),
    ("periodic", dict(periodic_x=1, shear_style=1), [dict(k=2.0, Cp=1.5, rho=2.0)], ["tper=1", "Tanom=300", "phase=layers"]),
    ("shearheat", dict(shear_heating=1), [dict(k=2.0, Cp=1.0, eta0=50.0), dict(k=1.0, Cp=1.0, eta0=90.0)], []),
    ("radio", {}, [dict(k=2.0, Cp=1.0, Qr=900.0), dict(k=1.0, Cp=1.0, Qr=100.0)], []),
    ("adiab1", dict(adiab_heating=1, gz=-3.0), [dict(k=1.0, alp=1e-4), dict(k=2.0, alp=3e-4, rho=3.0)], []),
    ("adiab2", dict(adiab_heating=2, gz=-3.0), [dict(k=1.0, alp=1e-4), dict(k=2.0, alp=3e-4, rho=3.0)], []),
    ("surface", FS, TWO, ["topo=sine", "topo_A=0.3", "Tanom=100"]),
    ("surfaceclosed", FS, TWO, ["topo=slope", "topo_A=0.5", "insul=2", "Tanom=100"]),
]
