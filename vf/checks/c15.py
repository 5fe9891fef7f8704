"""C15: the initial marker cloud against spec/Cloud."""
import random, shutil
from .. import core, build, sims

ASSUME = ["positions are compared to 1/1000 of the marker spacing", "a place whose middle lies exactly on the surface may be filled or not", "grain size is set from the phase's reference value at the end of the initialisation, and temperature passes through the grid (whole runs: range only)"]
J = lambda a: " ".join(str(x) for x in a)


def gen(rnd):
    Nx, Nz = rnd.randint(3, 6), rnd.randint(3, 6)
    if rnd.random() < 0.2:
        Nx, Nz = rnd.choice([(3, 9), (9, 3)])
    r = dict(Nx=Nx, Nz=Nz, npx=rnd.choice([1, 2, 2, 4, 5, 3]), npz=rnd.choice([1, 2, 2, 4, 5, 3]), noise=int(rnd.random() < 0.3), fs=int(rnd.random() < 0.4), nph=rnd.randint(1, 5), fin=rnd.randint(0, 1), file=int(rnd.random() < 0.15), bad=-1, code=0)
    m = rnd.random()
    r["mask"] = rnd.getrandbits(17) if m < 0.5 else (1 << 17) - 1 if m < 0.7 else 0 if m < 0.8 else (1 << 17) - 1 - (1 << rnd.randint(0, 16))
    r["dx"], r["dz"] = rnd.choice([1.0, 0.5, 2.0, 0.3]) * r["npx"], rnd.choice([1.0, 0.25, 4.0, 0.7]) * r["npz"]
    r["xo"], r["zo"] = rnd.choice([0, -2, 3]), rnd.choice([0, -4, 1])
    H = (Nz - 1) * r["npz"] * 1000
    r["top"] = [rnd.randint(0, H // 100) * 100 for _ in range(Nx)]
    if rnd.random() < 0.12 and r["mask"] & 1:
        r["bad"], r["code"] = rnd.randint(0, 3), rnd.choice([r["nph"], r["nph"], -1, r["nph"] + 1])
        r["mask"] &= ~4
        r["fs"] = 0
    return r


def text(r):
    dxp, dzp = r["dx"] / r["npx"], r["dz"] / r["npz"]
    xmin, zmin = r["xo"] * dxp, r["zo"] * dzp
    return "c %d %d %r %r %r %r %d %d %d %d %d %d %d %d %d %r %d %s\n" % (r["Nx"], r["Nz"], xmin, zmin, r["dx"], r["dz"], r["npx"], r["npz"], r["noise"], r["fs"], r["nph"], r["mask"], r["fin"], r["bad"], r["code"], 1.0, r["file"], J(repr(zmin + h * dzp / 1000) for h in r["top"]))


def event(r, v):
    e = dict(e="Cloud", nx=(r["Nx"] - 1) * r["npx"], nz=(r["Nz"] - 1) * r["npz"], px=r["npx"], fs=r["fs"], top=r["top"], nph=r["nph"], **{"def": [k for k in range(17) if r["mask"] >> k & 1]}, fin=r["fin"], x0=r["xo"] * 1000, z0=r["zo"] * 1000, noise=r["noise"],
             badphase=int(r["bad"] >= 0), stop=0, max=0, X=[], Z=[], inside=[], v={}, loaded=1)
    if v["event"] == "Stop":
        e["stop"] = v["rc"]
        return e
    dxp, dzp = r["dx"] / r["npx"], r["dz"] / r["npz"]
    ex = lambda x: core.fixp(x, 1) if abs(x - round(x)) < 1e-9 else "not-exact"
    e.update(max=v["max"], X=v["X"], Z=v["Z"], inside=v["inside"], loaded=v["loaded"])
    e["v"] = dict(phase=v["phase"], dual=v["dual"], ani=[ex(x) for x in v["ani"]], X=[ex(x) for x in v["Xc"]])
    for f in ("T", "d", "phi", "rho", "P", "sxxd", "szzd", "sxz", "noise", "Fxx", "Fxz", "Fzx", "Fzz"):
        if f in v:
            e["v"][f] = [ex(x) for x in v[f]]
    e["v"]["Vx"] = [core.fixp(x, 1 if r["mask"] >> 4 & 1 else dxp / 1000) for x in v["Vx"]]
    e["v"]["Vz"] = [core.fixp(x, 1 if r["mask"] >> 5 & 1 else dzp / 1000) for x in v["Vz"]]
    return e


def run(c):
    c.assumptions = ASSUME
    c.model("Cloud_MC", workers=8)
    exe, sim = build.build_driver("cloud", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 31 + 15)
    cases = [gen(rnd) for _ in range(600 if c.quick else 8000)]
    env = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=66:detect_odr_violation=0", SCRATCH=c.dir("files"))
    items = []
    for b in range(0, len(cases), 30):
        part = cases[b:b + 30]
        items.append(("cases:%d" % b, lambda part=part: [event(r, v) for r, v in zip(part, c.drive(exe, "".join(text(r) for r in part), len(part), what="cloud", env=env))]))
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, Nx=7, Nz=6, Nt=1, writer=0, nit_max=1, Nx_part=3, Nz_part=3, min_part_cell=9)
        p.update(q)
        items.append(("run:" + name, lambda p=p, o=o, name=name, ph=ph: runrec(c, sim, name, p, ph, o)))
    c.conform_batch(items, "Cloud_Trace", size=4, heap="3g")
    if not c.violations:
        t = [x for x in items[0][1]() if not x["stop"]][:1]

        def f(ev):
            ev[0]["v"]["T"][-1] += 1
        c.corrupted_rejected("Cloud_Trace", t, f)

        def f(ev):
            ev[0]["X"][-1] += 1000 if ev[0]["X"][-1] < 1000 else -1000
        c.corrupted_rejected("Cloud_Trace", t, f)


def runrec(c, sim, name, p, ph, o):
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    phs = [dict(a, **b) for a, b in zip([dict(gs_ref=1.0), dict(gs_ref=3.0)], (ph or [{}, {}]))]
    F = "x,z,phase,dual,X,noise,sxxd,szzd,sxz,Vx,Vz,Fxx,Fxz,Fzx,Fzz,strain,strain_pl".split(",")
    rc, ev, out = sims.simulate(c, sim, d, p, phs, opts=o + ["dump=placed,initial", "fields=BCp.type", "mfields=" + ",".join(F) + ",T,d"])
    D = {e["at"]: e for e in ev if e["event"] == "Dump"}
    if rc != 0 or len(D) != 2:
        raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
    a, b = D["placed"], D["initial"]
    fs = [[f, int(a["m_" + f] == b["m_" + f])] for f in F if "m_" + f in a]
    n = (p["Nx"] - 1) * (p["Nz"] - 1) * p["Nx_part"] * p["Nz_part"]
    if not p["free_surface"] and len(b["m_x"]) != n:
        raise core.CodeFailure("run %s: %d markers instead of %d" % (name, len(b["m_x"]), n))
    lo, hi = min(a["m_T"]), max(a["m_T"])
    nt = lambda x: core.fixp((x - lo) / max(hi - lo, 1e-12 * abs(hi)) * 10000, 1)
    return [dict(e="Kept", f=fs, tmin0=0, tmax0=10000 if hi > lo else 0, tmin=nt(min(b["m_T"])), tmax=nt(max(b["m_T"])), grain=int(all(x == phs[h]["gs_ref"] for x, h in zip(b["m_d"], b["m_phase"]) if h >= 0)), dropped=sum(x != y for x, y in zip(a["m_phase"], b["m_phase"])))]


RUNS = [
    ("plain", dict(), [], ["phase=checker"]),
    ("thermal", dict(thermal=1, finite_strain=1, Nx=6, Nz=9), [], ["phase=layers"]),
    ("noise", dict(initial_noise=1, elastic=1), [], []),
    ("surface", dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.03, gz=-2.0, Nx=7, Nz=8, free_surface_stab=1.0), [], ["topo=sine", "topo_A=0.2", "bc=box"]),
    ("periodic", dict(shear_style=1, periodic_x=1), [], ["phase=random"]),
]
