"""C13: marker population (reseeding, inflow) against spec/Population."""
import random, shutil
from .. import core, build, sims

ASSUME = ["the two callable reseeding routines (reseed_mode 0 and 1) are judged; CountPartCell2 is never called", "in mode 1 a quarter cell of a material cell that lies above the surface may or may not receive a marker (it is removed right after)",
          "when the needed number of slots equals the capacity the run may stop or go on", "a marker exactly on the west or south wall may or may not count for the quarter cell next to it (not generated)", "in whole runs positions are known to 2/1024 of a cell: counts of markers on a line between quarter cells may go either way"]
U = 16
J = lambda a: " ".join(str(x) for x in a)
CENT = ["d", "T", "P", "phi", "X", "noise", "sxxd", "szzd"]


def gen(rnd, op):
    Nx, Nz = rnd.randint(3, 6), rnd.randint(3, 6)
    if rnd.random() < 0.2:
        Nx, Nz = rnd.choice([(3, 8), (8, 3), (4, 7)])
    if op == "i":
        Nx = max(Nx, 4)
    r = dict(op=op, Nx=Nx, Nz=Nz, ax=rnd.choice([1, 1, 2, 3]), az=rnd.choice([1, 1, 2, 4, 6]), mode=rnd.randint(0, 1), xmin=rnd.choice([0.0, -2.0, 3.0]), zmin=rnd.choice([0.0, -8.0, 1.0]), per=int(rnd.random() < 0.2), direct=rnd.randint(0, 1), sp=0, fs=0, sed=[2, 3])
    nc = (Nx - 1) * (Nz - 1)
    r["mp"] = rnd.choice([4, 4, 7, 8, 9, 12, 16])
    r["air"] = [0] * nc
    H = (Nz - 1) * U
    r["hv"], r["hi"] = [H + U] * Nx, [H + U] * Nx
    if rnd.random() < 0.4 and op == "r":
        r["fs"] = 1
        r["hv"] = [rnd.randint(U, H - 1) // 4 * 4 for _ in range(Nx)]
        r["sp"] = rnd.choice([0, 0, 1, 2])
        r["hi"] = [max(0, h - rnd.choice([0, 4, 8, 16])) for h in r["hv"]]
        for k in range(Nx - 1):
            for l in range(Nz - 1):
                r["air"][k + l * (Nx - 1)] = int((2 * l + 1) * U // 2 * 2 > r["hv"][k] + r["hv"][k + 1])
    elif rnd.random() < 0.2:
        r["air"] = [int(rnd.random() < 0.15) for _ in range(nc)]
    r["base"], r["bvert"] = [rnd.randint(-40, 40) for _ in range(nc)], [rnd.randint(-40, 40) for _ in range(Nx * Nz)]
    dead = rnd.choice([0, 0, 0.1, 0.3])
    dens = rnd.choice([0.3, 0.6, 1.0, 1.6, 2.2])
    M = []
    for k in range(2 * (Nx - 1)):
        for l in range(2 * (Nz - 1)):
            if r["air"][k // 2 + (l // 2) * (Nx - 1)] and rnd.random() < 0.9:
                continue
            for _ in range(int(dens + rnd.random())):
                x, z = k * U // 2 + rnd.randint(int(k == 0), U // 2), l * U // 2 + rnd.randint(int(l == 0), U // 2)
                M.append([x, z, -1 if rnd.random() < dead else rnd.randint(0, 3)])
    rnd.shuffle(M)
    r["M"] = M
    if op == "i":
        sh = rnd.choice([0, 1, 3, 5, 8])
        LX = (Nx - 1) * U
        M2 = []
        for x, z, p in M:
            x2 = min(LX, max(0, x + rnd.choice([sh, sh, 0, -2]) * (1 if 2 * x < LX else -1)))
            if x2 in (U, LX - U) or (dead and rnd.random() < 0.05):       # exactly one cell from the wall: a recycled twin could count again
                p2 = -1
            else:
                p2 = p
            M2.append([x2, z, p2])
        r["M2"] = M2
    n = len(M)
    free = sum(1 for m in (r.get("M2") or M) if m[2] == -1)
    r["cap"] = rnd.choice([8 * n + 40] * 4 + [n + rnd.randint(1, 12)]) if op == "r" else n + rnd.choice([0, 1, 2, 4, 40, 40])
    r["u"] = rnd.choice([1.0, 0.5]) / U
    return r


def text(r):
    dx, dz = r["ax"] * U * r["u"], r["az"] * U * r["u"]
    px, pz = lambda x: r["xmin"] + x * r["ax"] * r["u"], lambda z: r["zmin"] + z * r["az"] * r["u"]
    mk = lambda M: " ".join("%r %r %d" % (px(x), pz(z), p) for x, z, p in M)
    return "%s %d %d %d %d %r %r %r %r %d %d %d %d %d %d %s %s %s %s %s %d %d %s %s\n" % (r["op"], r["mode"], r["mp"], r["Nx"], r["Nz"], r["xmin"], r["zmin"], dx, dz, r["per"], r["direct"], r["sp"], r["sed"][0], r["sed"][1], r["fs"], J(r["air"]),
        J(repr(pz(h)) for h in r["hv"]), J(repr(pz(h)) for h in r["hi"]), J(r["base"]), J(r["bvert"]), r["cap"], len(r["M"]), mk(r["M"]), mk(r.get("M2", [])))


def event(r, v):
    fine = lambda hv: [x // 4 for k in range(r["Nx"] - 1) for x in (3 * hv[k] + hv[k + 1], hv[k] + 3 * hv[k + 1])]
    out = dict(e="Reseed" if r["op"] == "r" else "Inflow", Nx=r["Nx"], Nz=r["Nz"], U=U, ax=r["ax"], az=r["az"], thr=r["mp"] // 4 if r["mode"] == 0 else 2, mode=r["mode"], air=r["air"], top=fine(r["hv"]) if r["fs"] else [100000] * (2 * r["Nx"]), ini=fine(r["hi"]) if r["fs"] else [100000] * (2 * r["Nx"]),
               sed=r["sed"] if r["sp"] > 0 and r["mode"] == 0 else [], fz=0, slack=0, cap=r["cap"], per=r["per"], direct=r["direct"] if r["op"] == "r" else 1, m=r.get("M2") or r["M"], t=r["M"], base=r["base"], bvert=r["bvert"], stop=0, r=[], tag=[])
    if v["event"] == "Stop":
        out["stop"] = v["rc"]
        return out
    fx, fz = lambda x: core.fixp((x - r["xmin"]) / (r["ax"] * r["u"]), 1), lambda z: core.fixp((z - r["zmin"]) / (r["az"] * r["u"]), 1)
    exact = lambda x, q, o, a: q if q == "out-of-range" or x == r[o] + q * r[a] * r["u"] else "off-grid"
    out["tag"] = v["tag"]
    for k in range(len(v["x"])):
        iv = v["iv"][9 * k:9 * k + 9]
        out["r"].append([exact(v["x"][k], fx(v["x"][k]), "xmin", "ax"), exact(v["z"][k], fz(v["z"][k]), "zmin", "az"), v["ph"][k], v["fresh"][k], v["kp"][k], [v["src"][k] + 1] if v["src"][k] >= 0 else [], v["cp"][k]] + [core.fixp(x, 1 / 64.0) for x in iv])
    return out


def run(c):
    c.assumptions = ASSUME
    c.model("Population_MC", None if c.quick else "Population_MCdeep", workers=8)
    exe, sim = build.build_driver("population", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 31 + 13)
    cases = [gen(rnd, rnd.choice("rrri")) for _ in range(500 if c.quick else 6000)]
    items = []
    for b in range(0, len(cases), 20):
        part = cases[b:b + 20]

        def rec(part=part):
            ev = c.drive(exe, "".join(text(r) for r in part), len(part), what="population", env=dict(ASAN_OPTIONS="detect_leaks=0:exitcode=66:detect_odr_violation=0"))
            return [event(r, v) for r, v in zip(part, ev)]
        items.append(("cases:%d" % b, rec))
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, Nx=7, Nz=7, Nt=3, writer=0, nit_max=2, Nx_part=3, Nz_part=3, min_part_cell=9, reseed_markers=1)
        p.update(q)
        items.append(("run:" + name, lambda p=p, o=o, name=name, ph=ph: runrec(c, sim, name, p, ph, o)))
    c.conform_batch(items, "Population_Trace", size=3, heap="3g")
    if not c.violations:
        for b in range(4):
            t = items[b][1]()
            t = [x for x in t if x["e"] == "Reseed" and not x["stop"] and any(m[3] for m in x["r"])][:1]
            if t:
                break

        def f(ev):
            m = [m for m in ev[0]["r"] if m[3]][0]
            m[5] = [(m[5][0] % len(ev[0]["m"])) + 1]
        c.corrupted_rejected("Population_Trace", t, f)

        def f(ev):
            m = [m for m in ev[0]["r"] if not m[3]][0]
            m[4] = 0
        c.corrupted_rejected("Population_Trace", t, f)


FIELDS = "x,z,P,Vx,Vz,phi,X,T,d,nx,nz,rho,sxxd,szzd,sxz,divth,noise,strain,strain_el,strain_pl,strain_pwl,strain_exp,strain_lin,strain_gbs,Fxx,Fxz,Fzx,Fzz,T0,P0,x0,z0,Tmax,Pmax,phase,dual"
NOTCOPY = ("x", "z")


def runrec(c, sim, name, p, ph, o):
    V = 1024
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    inflow = p["pure_shear_ALE"] == -1
    rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=reseed0,reseed1,inflow01,inflow10,inflow11", "fields=BCt.type", "mfields=" + FIELDS + ",intag"])
    D = [e for e in ev if e["event"] == "Dump"]
    T, D = [e for e in D if e["at"] == "inflow01"], [e for e in D if e["at"] != "inflow01"]
    if rc != 0 or (inflow and len(T) != p["Nt"]) or len(D) < 2 * p["Nt"] or len(D) % 2:
        raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
    t = []
    direct = p.get("direct_neighbour", 0)
    cf = [f for f in FIELDS.split(",") if f not in NOTCOPY and (direct or f not in CENT + ["sxz"])]
    for a, b in zip(D[::2], D[1::2]):
        if a["at"][:6] == "inflow":
            cf2 = [f for f in FIELDS.split(",") if f not in NOTCOPY]
        else:
            cf2 = cf
        n, N, Nx, Nz = a["Nb_part"], b["Nb_part"], p["Nx"], p["Nz"]
        fx, fz = lambda x: core.fixp((x - a["xmin"]) / a["gdx"] * V, 1), lambda z: core.fixp((z - a["zmin"]) / a["gdz"] * V, 1)
        cols = [f for f in cf2 if "m_" + f in a]
        sig = {}
        for k in range(n):
            if a["m_phase"][k] != -1:
                sig.setdefault(tuple(a["m_" + f][k] for f in cols), []).append(k + 1)
        allf = [f for f in FIELDS.split(",") if "m_" + f in a]
        r = []
        for k in range(N):
            fresh = int(k >= n or (a["m_phase"][k] == -1 and b["m_phase"][k] != -1))
            kp = int(not fresh and all(a["m_" + f][k] == b["m_" + f][k] or a["m_" + f][k] != a["m_" + f][k] for f in allf))
            src = sig.get(tuple(b["m_" + f][k] for f in cols), []) if fresh else []
            r.append([fx(b["m_x"][k]), fz(b["m_z"][k]), b["m_phase"][k], fresh, kp, src, int(bool(src)) if fresh else 1])
        dx, dz = a["gdx"], a["gdz"]
        ax, az = (2, int(round(2 * dz / dx))) if dz >= dx else (int(round(2 * dx / dz)), 2)
        top = [100000] * (2 * Nx)
        if "topo_a" in a:
            top = [fz(a["topo_a"][i // 2] * (a["xmin"] + (i + .5) * dx / 2) + a["topo_b"][i // 2]) for i in range(2 * Nx - 2)]
        e = dict(e="Reseed", Nx=Nx, Nz=Nz, U=V, ax=1, az=1, thr=p["min_part_cell"] // 4 if p.get("reseed_mode", 0) == 0 else 2, mode=p.get("reseed_mode", 0), air=[int(x == 30) for x in a["BCt.type"]], top=top, ini=[100000] * (2 * Nx), sed=[], fz=2, slack=6000,
                 cap=a["Nb_part_max"], per=p["periodic_x"], direct=1, m=[[fx(a["m_x"][k]), fz(a["m_z"][k]), a["m_phase"][k]] for k in range(n)], t=[], base=[], bvert=[], stop=0, r=r, tag=[])
        if abs(dx / dz - 1) > 1e-3:
            e["ax"], e["az"] = (1, dz / dx) if dz > dx else (dx / dz, 1)
            e["ax"], e["az"] = round(e["ax"] * 4), round(e["az"] * 4)
            e["slack"] = 200000
        if a["at"][:6] == "inflow":
            e["e"], e["tag"], e["t"] = "Inflow", T[0]["m_intag"], [[fx(x), fz(z), h] for x, z, h in zip(T[0]["m_x"], T[0]["m_z"], T[0]["m_phase"])]
            T.pop(0)
        t.append(e)
    return t


RUNS = [
    ("pure", dict(dt=0.1, finite_strain=1, track_T_P_x_z=1), [], []),
    ("ale", dict(dt=0.1, pure_shear_ALE=1, reseed_mode=1), [], ["phase=checker"]),
    ("direct", dict(dt=0.2, direct_neighbour=1, elastic=1), [], []),
    ("periodic", dict(dt=0.2, shear_style=1, periodic_x=1, reseed_mode=1), [], []),
    ("inflow", dict(dt=0.15, pure_shear_ALE=-1, bkg_strain_rate=1.0, reseed_markers=1), [], ["phase=checker"]),
    ("inflow2", dict(dt=0.1, pure_shear_ALE=-1, bkg_strain_rate=1.0, Nx=6, Nz=8, xmax=1.0, reseed_mode=1, Nx_part=4, min_part_cell=12, finite_strain=1), [], []),
    ("surface", dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.03, gz=-2.0, Nx=7, Nz=8, free_surface_stab=1.0), [dict(rho=1.0), dict(rho=3.0)], ["topo=sine", "topo_A=0.2", "bc=box"]),
    ("surface1", dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.03, gz=-2.0, Nx=7, Nz=8, free_surface_stab=1.0, reseed_mode=1), [dict(rho=1.0), dict(rho=3.0)], ["topo=slope", "topo_A=0.3", "bc=box"]),
]
