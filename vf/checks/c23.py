"""C23: changes of the grid reach the markers, against spec/Update."""
import math, random, shutil
from .. import core, build, sims
from .c19 import grid, head, J, U, ENV

ASSUME = ["unit cases: positions on a raster of 1/16 of a cell, integer values, relaxation by 0, 1/2 or 3/4; results are compared to 0.04 of the unit",
          "in runs positions are known to 1/64 of a cell", "angles of a step are below a quarter of a radian in unit cases", "relaxed updates of vertex values are not covered for periodic models"]
K, QA = 256, 4096


def air(t):
    return t in (30, 31)


def upd(r, name, kind, where, new, old, inc, base=None, fr=None, lim=0, tol=6, st=1):
    q = lambda a: [core.fixp(x * K, 1) for x in a]
    t = r["tc"] if where == 1 else r["tg"]
    return dict(name=name, kind=kind, where=where, st=st, old=q(old), base=q(base) if base else [0] * len(t), inc=[core.fixp(x * K, 1) for x in inc], fr=fr or [0] * len(old), lim=lim, new=q(new), tol=tol)


def common(r, e):
    return dict(e=e, pu=0, **{k: r[k] for k in ("Nx", "Nz", "U", "per", "tc", "tg", "m")})


def mix(rnd, n, A):
    return [rnd.choice([0, rnd.randint(-A, A), rnd.randint(-5, 5)]) for _ in range(n)]


def diff(a, b, t):
    return [0 if air(w) else x - y for x, y, w in zip(a, b, t)]


def gen(rnd):
    op = rnd.choice("EEPGGGGII")
    r = grid(rnd, rnd.choice([4, 12]))
    n, nc, ng = len(r["m"]), len(r["tc"]), len(r["tg"])
    ks = [rnd.randint(0, 2) for _ in range(4)]
    fr_ = lambda: [0 if p < 0 else int(1024 * (1 - 0.5 ** ks[p])) for _, _, p in r["m"]]
    if op in "EP":
        a, b, old = mix(rnd, nc, 30), mix(rnd, nc, 30), mix(rnd, n, 30)
        if op == "P":
            a = [y if w == 31 else x for x, y, w in zip(a, b, r["tc"])]
            b0 = [0 if air(w) else x for x, w in zip(b, r["tc"])]
        else:
            b0 = b
        sub = rnd.choice([0, 1, 2])
        relax = sub >= (1 if op == "E" else 2)
        rho = rnd.choice([1.0, 2.0])
        if op == "E":
            mat = " ".join("%r %r" % (4.0, ks[p] * math.log(2) / r["dt"] * 4.0 * rho / (1 / r["dx"] ** 2 + 1 / r["dz"] ** 2)) for p in range(4))
        else:
            mat = " ".join("%r" % (ks[p] * math.log(2) * rho / r["dt"]) for p in range(4))
        t = head(op, r) + "%d 4 %s %s %s %s %s" % (sub, mat, J(a), J(b), J([rho] * nc), J(old))
        return t, lambda v: dict(common(r, "Val"), f=[upd(r, "temperature" if op == "E" else "pressure", "relax" if relax else "plain", 1, v["r0"], old, diff(a, b, r["tc"]), b0, fr_())])
    if op == "I":
        A = [mix(rnd, nc, 40) for _ in range(9)]
        for j in (2, 3, 4, 5):
            A[j] = [x / 64 for x in A[j]]
        M = [[mix(rnd, 1, 20)[0], rnd.randint(0, 64) / 64, rnd.randint(0, 64) / 64, mix(rnd, 1, 20)[0], rnd.randint(1, 9)] for _ in range(n)]
        t = head(op, r) + " ".join(J(a) for a in A) + " " + " ".join(J(x) for x in M)
        nm = ("density", "porosity", "composition", "thermal expansion", "grain size")

        def f(v):
            o = [upd(r, nm[j], "plain", 1, v["r%d" % j], [x[j] for x in M], diff(A[2 * j], A[2 * j + 1], r["tc"]), lim=K if j in (1, 2) else 0) for j in range(4)]
            return dict(common(r, "Val"), f=o + [upd(r, nm[4], "direct", 1, v["r4"], [x[4] for x in M], A[8])])
        return t, f
    sub, rot, el = rnd.choice([0, 1, 2, 2]), rnd.choice([0, 1, 2]), rnd.choice([0, 1, 1, 1])
    an, ad, st = rnd.choice([0, 1, 1]), rnd.choice([0, 1, 1, 1]), rnd.choice([1, 9])
    if sub == 2:
        r["per"] = 0
    Nx, Nz = r["Nx"], r["Nz"]
    C = [mix(rnd, nc, 30) for _ in range(4)]
    V = [mix(rnd, ng, 30) for _ in range(2)]
    eta = rnd.choice([1.0, 4.0])
    ang = [0 if air(t) else rnd.randint(-800, 800) for t in r["tg"]]
    w = [x / QA / r["dt"] for x in ang]
    A = rnd.choice([64, 512])
    u, v_ = [rnd.randint(-A, A) / QA for _ in range(Nx * (Nz + 1))], [rnd.randint(-A, A) / QA for _ in range((Nx + 1) * Nz)]
    th = [rnd.uniform(0, 6.3) for _ in range(n)]
    M = [[*mix(rnd, 3, 30), math.cos(x), math.sin(x)] for x in th]
    t = head(op, r) + "%d %d %d %d %d %d 4 %s " % (sub, rot, el, an, ad, st, " ".join("%r" % (ks[p] * math.log(2) * eta / r["dt"]) for p in range(4))) + " ".join(J(a) for a in C + V + [[eta] * ng, w, u, v_]) + " " + " ".join(J(x) for x in M)

    def f(v):
        kind = "keep" if not el else "relax" if sub == 2 else "plain"
        tol = 6 + 24 * (rot > 0)
        col = lambda j: [x[j] for x in M]
        o = [upd(r, ("sxx", "szz")[j], kind, 1, v["r%d" % j], col(j), diff(C[2 * j], C[2 * j + 1], r["tc"]), C[2 * j + 1], fr_(), tol=tol, st=st) for j in (0, 1)]
        o.append(upd(r, "sxz", kind, 0, v["r2"], col(2), diff(V[0], V[1], r["tg"]), V[1], fr_(), tol=tol, st=st))
        q = lambda a: [core.fixp(x * QA, 1) for x in a]
        gx, gz = QA * r["dt"] / r["dx"], QA * r["dt"] / r["dz"]
        cell = [(k, l) for l in range(Nz - 1) for k in range(Nx - 1)]
        vert = [(k, l) for l in range(Nz) for k in range(Nx)]
        i_ = lambda x: core.fixp(x, 1)
        return dict(common(r, "Stress"), f=o, rot=rot if el else 0, ang=ang, dir=int(an and ad), n0=[q(x[3:]) for x in M], n1=[q(x) for x in zip(v["nx"], v["nz"])], dtol=40,
                    ux=[i_((u[k + 1 + (l + 1) * Nx] - u[k + (l + 1) * Nx]) * gx) for k, l in cell], vz=[i_((v_[k + 1 + (l + 1) * (Nx + 1)] - v_[k + 1 + l * (Nx + 1)]) * gz) for k, l in cell],
                    uz=[i_((u[k + (l + 1) * Nx] - u[k + l * Nx]) * gz) for k, l in vert], vx=[i_((v_[k + 1 + l * (Nx + 1)] - v_[k + l * (Nx + 1)]) * gx) for k, l in vert])
    return t, f


def run(c):
    c.assumptions = ASSUME
    c.model("Update_MC", workers=8)
    exe, sim = build.build_driver("history", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 23 + 23)
    cases = [gen(rnd) for _ in range(600 if c.quick else 9000)]
    items = []
    for b in range(0, len(cases), 40):
        part = cases[b:b + 40]
        items.append(("cases:%d" % b, lambda part=part: [f(v) for (_, f), v in zip(part, c.drive(exe, "\n".join(t for t, _ in part) + "\n", len(part), what="update", env=ENV))]))
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, Nx=6, Nz=7, Nt=2, writer=0, nit_max=2, Nx_part=3, Nz_part=3, min_part_cell=9, elastic=1)
        p.update(q)
        items.append(("run:" + name, lambda p=p, o=o, name=name, ph=ph: runrec(c, sim, name, p, ph, o)))
    c.conform_batch(items, "Update_Trace", size=2, heap="3g")
    if not c.violations:
        t = items[0][1]()
        s = [x for x in t if x["e"] == "Val"][:1]

        def f(ev):
            k = [m[2] >= 0 for m in ev[0]["m"]].index(True)
            ev[0]["f"][0]["new"][k] += 20
        c.corrupted_rejected("Update_Trace", s, f)
        s = [x for x in t if x["e"] == "Stress"][:1]

        def f(ev):
            k = [m[2] >= 0 for m in ev[0]["m"]].index(True)
            ev[0]["f"][2]["new"][k] += 80
        c.corrupted_rejected("Update_Trace", s, f)


UR = 32
PAIR = {"energy": [("T", "T", "T0_n", 1)], "press": [("P", "p_in", "p0_n", 1)], "phi": [("phi", "phi_n", "phi0_n", 1)], "comp": [("X", "X_n", "X0_n", 1)], "dens": [("rho", "rho_n", "rho0_n", 1)], "grain": [("d", "d_n", None, 1)],
        "stress": [("sxxd", "sxxd", "sxxd0", 1), ("szzd", "szzd", "szzd0", 1), ("sxz", "sxz", "sxz0", 0)]}
HOOKS = ["solved", "stressed"] + [h + k for h in PAIR if h != "stress" for k in "01"]


def runrec(c, sim, name, p, ph, o):
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    phs = [dict(sims.PHASE[j], **(ph[j] if j < len(ph) else {})) for j in range(2)]
    fl = sorted({x for q in PAIR.values() for t in q for x in t[1:3] if x} | {"BCp.type", "BCg.type", "wxz", "u_in", "v_in", "eta_phys_n", "eta_phys_s", "rho_n"})
    rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=" + ",".join(HOOKS), "fields=" + ",".join(fl), "mfields=x,z,phase,T,P,phi,X,rho,d,sxxd,szzd,sxz,nx,nz"])
    D = [e for e in ev if e["event"] == "Dump"]
    if rc != 0 or len(D) < 8 * p["Nt"]:
        raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
    out, b = [], None
    for a in D:
        at = "stress" if a["at"] == "stressed" else a["at"][:-1]
        if a["at"] == "solved" or a["at"].endswith("0"):
            b = a
            continue
        out.append(runline(p, phs, at, b, a))
    return out


def sample(b, f, t, where, p):
    """Double-precision value of a grid field at every marker: only used for the relaxation times."""
    ncx, ncz, per = p["Nx"] - 1, p["Nz"] - 1, p["periodic_x"]
    out = []
    for x, z, h in zip(b["m_x"], b["m_z"], b["m_phase"]):
        X, Z = (x - b["xmin"]) / b["gdx"], (z - b["zmin"]) / b["gdz"]
        if where == 1:
            X, Z, W = X + 0.5, Z + 0.5, ncx
            j, i = min(max(math.ceil(X) - 1, 0), ncx), min(max(math.ceil(Z) - 1, 0), ncz)
            w, e, s, n = (j - 1 if j else (ncx - 1 if per else 0)), (j if j < ncx else (0 if per else ncx - 1)), max(i - 1, 0), min(i, ncz - 1)
        else:
            W = p["Nx"]
            j, i = min(max(math.ceil(X) - 1, 0), ncx - 1), min(max(math.ceil(Z) - 1, 0), ncz - 1)
            w, e, s, n = j, j + 1, i, i + 1
        g = lambda c, l, k: f[c + (k if air(t[c + l * W]) else l) * W]
        fx, fz = X - j, Z - i
        out.append((1 - fx) * (1 - fz) * g(w, s, n) + fx * (1 - fz) * g(e, s, n) + (1 - fx) * fz * g(w, n, s) + fx * fz * g(e, n, s))
    return out


def runline(p, phs, at, b, a):
    sub, dt, n = p.get("subgrid_diffusion", 0), b["dt"], b["Nb_part"]
    tc, tg = b["BCp.type"], b["BCg.type"]
    m = [[core.fixp((x - b["xmin"]) / b["gdx"] * UR, 1), core.fixp((z - b["zmin"]) / b["gdz"] * UR, 1), h] for x, z, h in zip(b["m_x"], b["m_z"], b["m_phase"])]
    relax = {"energy": sub >= 1, "press": sub >= 2, "stress": sub == 2}.get(at, False)
    fr = [0] * n
    if relax:
        if at == "energy":
            s = sample(b, b["rho_n"], [30 if air(t) else t for t in tc], 1, p)
            tau = lambda q, h: phs[h]["Cp"] * q / (phs[h]["k"] * (1 / b["gdx"] ** 2 + 1 / b["gdz"] ** 2))
        elif at == "press":
            s = sample(b, b["eta_phys_n"], tc, 1, p)
            tau = lambda q, h: q / phs[h]["bet"]
        else:
            s = sample(b, b["eta_phys_s"], tg, 0, p)
            tau = lambda q, h: q / phs[h]["G"]
        fr = [0 if h < 0 else core.fixp(1024 * (1 - math.exp(-dt / tau(q, h))), 1) for q, h in zip(s, b["m_phase"])]
    F, plan = [], []
    for mf, g, g0, where in PAIR[at]:
        t = tc if where == 1 else tg
        act = [x for x, h in zip(b["m_" + mf], b["m_phase"]) if h >= 0]
        new = b[g]
        base = b[g0] if g0 else [0.0] * len(new)
        rock = [[x for x, w in zip(f, t) if not air(w)] for f in (new, base)]
        off = sum(rock[1]) / max(len(rock[1]), 1) if g0 and at != "stress" and mf not in ("phi", "X") else 0.0          # the update is linear: take out the mean level
        rng = max([abs(x - y) for x, y in zip(*rock)] + [abs(x - off) for x in act + (rock[1] if relax else [])] + [1e-3 if mf in ("phi", "X") else 1e-12])
        plan.append((mf, g, g0, where, t, new, base, off, rng))
    for mf, g, g0, where, t, new, base, off, rng in plan:
        k = 8000.0 / max(x[-1] for x in plan)                              # the components of the stress share one unit
        q = lambda v, z=0.0: [core.fixp((x - z) * k, 1) for x in v]
        bs = [off if air(w) and (at == "press" or x != x) else x for x, w in zip(base, t)]
        if at == "press":
            bs = [0.0 if air(w) else x for x, w in zip(base, t)]
        lim = 0
        inc = [0 if (w == 30 or (at != "press" and w == 31)) else x - y for x, y, w in zip(new, base, t)] if g0 else new
        kind = "direct" if not g0 else "relax" if relax else "plain"
        if mf in ("phi", "X"):
            lim = core.fixp(1.0 * k, 1)
        F.append(dict(name=mf, kind=kind, where=where, st=p.get("interp_stencil", 1) if at == "stress" else 1, old=q(b["m_" + mf], off), base=q(bs, off), inc=q(inc), fr=fr, lim=lim, new=q(a["m_" + mf], off), tol=200 if relax else 12))
    o = dict(Nx=p["Nx"], Nz=p["Nz"], U=UR, per=p["periodic_x"], tc=tc, tg=tg, m=m, f=F, pu=1)
    if at != "stress":
        return dict(o, e="Val")
    for f in F:
        f["tol"] = 200
    Nx, Nz, u, v_ = p["Nx"], p["Nz"], b["u_in"], b["v_in"]
    cell = [(k, l) for l in range(Nz - 1) for k in range(Nx - 1)]
    vert = [(k, l) for l in range(Nz) for k in range(Nx)]
    gx, gz = QA * dt / b["gdx"], QA * dt / b["gdz"]
    i_ = lambda x: core.fixp(x, 1)
    return dict(o, e="Stress", rot=p.get("stress_rotation", 1), ang=[0 if air(t) else i_(x * dt * QA) for x, t in zip(b["wxz"], tg)], dir=int(p.get("anisotropy", 0) and p["advection"]), dtol=400,
                n0=[[i_(x * QA), i_(y * QA)] for x, y in zip(b.get("m_nx") or [0] * n, b.get("m_nz") or [0] * n)], n1=[[i_(x * QA), i_(y * QA)] for x, y in zip(a.get("m_nx") or [0] * n, a.get("m_nz") or [0] * n)],
                ux=[i_((u[k + 1 + (l + 1) * Nx] - u[k + (l + 1) * Nx]) * gx) for k, l in cell], vz=[i_((v_[k + 1 + (l + 1) * (Nx + 1)] - v_[k + 1 + l * (Nx + 1)]) * gz) for k, l in cell],
                uz=[i_((u[k + (l + 1) * Nx] - u[k + l * Nx]) * gz) for k, l in vert], vx=[i_((v_[k + 1 + l * (Nx + 1)] - v_[k + l * (Nx + 1)]) * gx) for k, l in vert])


FS = dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.03, gz=-2.0, Nx=7, Nz=8, free_surface_stab=1.0)
EL = [dict(G=2.0, k=1.0, bet=0.5, rho=1.0, density_model=0), dict(G=4.0, k=2.0, bet=0.2, rho=2.0, density_model=0)]
RUNS = [
    ("plain", dict(dt=0.1, thermal=1, stress_rotation=1), EL, ["Tbot=1600", "Ttop=300"]),
    ("simple", dict(dt=0.2, shear_style=1, periodic_x=1, stress_rotation=2), EL, []),
    ("relax", dict(dt=0.1, thermal=1, subgrid_diffusion=2, stress_rotation=1, Nx=7, Nz=5), EL, ["Tbot=1600", "Ttop=300"]),
    ("warm", dict(dt=0.1, thermal=1, subgrid_diffusion=1, stress_rotation=0, interp_stencil=9), EL, ["Tbot=1600", "Ttop=300", "Tanom=200"]),
    ("surface", dict(FS, stress_rotation=2, reseed_markers=0, dt=0.01, bkg_strain_rate=0.0), EL, ["topo=sine", "topo_A=0.2", "bc=box"]),
]
