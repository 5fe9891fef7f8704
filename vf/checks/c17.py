"""C17: the free surface, its markers and surface processes against spec/Topography."""
import random, shutil, math
from .. import core, build, sims

ASSUME = ["unit cases: positions in 1/16 of a cell, heights integers, diffusion numbers in sixteenths: exact", "whole runs: heights to 1e-5 of the cell height, markers within 2e-4 cells of the surface are not judged", "the surface markers given to the projection lie inside the model, as advection leaves them"]
J = lambda a: " ".join(str(x) for x in a)
D = 16


def gen(rnd):
    op = rnd.choice("tttrrrrsckiddddaz")
    Nx = rnd.choice([3, 4, 4, 5, 6, 9])
    r = dict(op=op, Nx=Nx, dx=rnd.choice([1.0, 0.5, 4.0]), xo=rnd.randint(-4, 2), h=[rnd.randint(-60, 60) for _ in range(Nx)])
    if rnd.random() < 0.2:
        r["h"] = [rnd.randint(-60, 60)] * Nx
    r["hp"] = [x + rnd.randint(-8, 8) for x in r["h"]] if rnd.random() < 0.7 else list(r["h"])
    W = D * (Nx - 1)
    if op in "trsckz":
        per = rnd.choice([1, 2, 5, 9])
        x = []
        for k in range(Nx - 1):
            if op == "r" and rnd.random() < 0.25:
                continue
            x += [D * k + rnd.randint(0 if k == 0 and rnd.random() < 0.1 else 1, D) for _ in range(rnd.randint(1, per))]
        if op == "r":
            x += [rnd.choice([-rnd.randint(1, 30), W + rnd.randint(1, 30)]) for _ in range(rnd.choice([0, 0, 1, 2, 5, 30]))]
        rnd.shuffle(x)
        n = len(x)
        r.update(x=x, z=[rnd.randint(-99, 99) for _ in x], z0=[rnd.randint(-99, 99) for _ in x], ph=[0] * n)
        if rnd.random() < 0.2:
            v = rnd.randint(-99, 99)
            r["z"] = [v] * n
        if op in "tz":
            for k in range(n):
                if rnd.random() < 0.2:
                    r["ph"][k] = -1
        if op == "k":
            r["ph"] = [rnd.choice([-1, 0, 1, 2]) for _ in x]
        r["upd"], r["ale"] = rnd.randint(0, 1), rnd.choice([-1, 0, 1])
        r["cap"] = rnd.choice([10 ** 3, 10 ** 3, n + rnd.randint(3, 30)]) if op == "r" else 0
        if r["cap"] > 50 * Nx:
            r["cap"] = 50 * Nx
        if op == "z":
            r["cap"] = n + rnd.randint(1, 20)
    if op == "d":
        r.update(sp=rnd.choice([1, 1, 5, 2, 1]), n=rnd.randint(1, 3), base=rnd.choice([0, -200, 20, 200]), rate=rnd.choice([0, 0, 16, 48]))
        r["r"] = rnd.choice({1: [1, 2, 4, 6], 2: [4, 5, 6], 3: [5, 6]}[r["n"]])
        r["W"] = rnd.choice([0.5, 2.5, 4.5, 1.5]) * r["dx"]
        r["V"] = rnd.choice([0, 840, 1680])
        r["xo"] = -rnd.randint(0, Nx - 1)
    if op == "a":
        n = rnd.randint(0, 5)
        r.update(n=n, cap=rnd.choice([n + 4 * Nx, n + 4 * Nx, n + rnd.randint(1, 8)]), s1=rnd.randint(0, 3), s2=rnd.randint(0, 3), fin=rnd.randint(0, 1), trk=rnd.randint(0, 1), My=rnd.randint(0, 5))
        r["h"] = [16 * x for x in r["h"]]
        r["hp"] = [x + rnd.choice([-16, 0, 16, 32]) for x in r["h"]]
    if op in "rscka":
        r["h"], r["hp"] = [16 * x for x in r["h"]], [16 * x for x in r["hp"]]
    return r


def text(r):
    X = lambda x: repr(r["xo"] * r["dx"] + x * r["dx"] / D)
    op = {"s": "r"}.get(r["op"], r["op"])
    s = "%s %d 3 %r -8.0 %r 1.0 %s %s " % (op, r["Nx"], r["xo"] * r["dx"], r["dx"], J(r["h"]), J(r["hp"]))
    pts = lambda: "%d %s" % (len(r["x"]), " ".join("%s %d %d %d" % (X(x), z, z0, p) for x, z, z0, p in zip(r["x"], r["z"], r["z0"], r["ph"])))
    if op == "t":
        s += "%d %d %s" % (r["upd"], r["ale"], pts())
    elif op == "r":
        s += "%d %d %s %s %s" % (2 if r["op"] == "s" else 1, r["cap"], pts(), J([0] * r["Nx"]), J([0] * (r["Nx"] + 1)))
    elif op in "ck":
        s += pts()
    elif op == "z":
        s += "%d %s" % (r["cap"], pts())
    elif op == "d":
        # K dtr / dx^2 = r/16, dtr = 1/4: total time n/4; the code's own limit is 0.4
        K = r["r"] / 16 * 4 * r["dx"] ** 2
        s += "%d %r %r %d %d %r %r" % (r["sp"], K, 0.25 * r["n"], r["base"], r["rate"], r["W"], float(r["V"]))
    elif op == "a":
        s += "%d %d %d %d %d %d %r" % (r["cap"], r["n"], r["s1"], r["s2"], r["fin"], r["trk"], (r["My"] + 0.5) * 3600 * 365.25 * 24 * 1e6)
    return s + "\n"


def event(r, v):
    if v["event"] == "Stop" and not (r["op"] in "ra" and 0 < v["rc"] != 66):
        raise core.CodeFailure("the surface code failed (%s) on %s" % (v, r))
    q = lambda a, u=1.0: [core.fixp(x, u) if abs(x / u - round(x / u)) < 1e-9 else "not-exact" for x in a]
    qx = lambda a: [core.fixp((x - r["xo"] * r["dx"]) / r["dx"] * D, 1) if abs((x - r["xo"] * r["dx"]) / r["dx"] * D - round((x - r["xo"] * r["dx"]) / r["dx"] * D)) < 1e-9 else "not-exact" for x in a]
    e = dict(run=0, D=D, ncx=r["Nx"] - 1, h=r["h"], hp=r["hp"], stop=v["rc"] if v["event"] == "Stop" else 0, tol=0, full=r.get("cap", 0) or 10 ** 6)
    op = r["op"]
    if op in "rsckz":
        e.update(x=r["x"], z=r["z"], ph=r["ph"])
    ended = e["stop"] > 0
    if op == "t":
        M = 1000
        m = lambda a: [core.fixp(x * M, 1) for x in a]
        xs = [(r["xo"] + k) * r["dx"] for k in range(r["Nx"])]
        e.update(e="Topo", M=M, slack=4, x=r["x"], ph=r["ph"], v=[a - b for a, b in zip(r["z"], r["z0"])] if r["upd"] else r["z"], h0=r["hp"] if r["upd"] else [0] * r["Nx"], h=m(v["h"]), hf=m(v["hf"]),
                 lw=m(a * x + b for a, b, x in zip(v["a"], v["b"], xs)), le=m(a * x + b for a, b, x in zip(v["a"], v["b"], xs[1:])), lw0=m(a * x + b for a, b, x in zip(v["a0"], v["b0"], xs)), le0=m(a * x + b for a, b, x in zip(v["a0"], v["b0"], xs[1:])))
    elif op in "rs":
        e["e"] = "Grow" if op == "r" else "Snap"
        if not ended:
            e.update(x1=qx(v["x"]), z1=q(v["z"]), z01=q(v["z0"]), ph1=v["ph"])
    elif op == "c":
        e.update(e="Below", x1=qx(v["x"]), z1=q(v["z"]))
    elif op == "k":
        e.update(e="Clean", ph1=v["ph"], same=int(qx(v["x"]) == r["x"] and q(v["z"]) == r["z"] and v["n"] == len(r["x"])))
    elif op == "i":
        e.update(e="New", x1=[core.fixp((x - r["xo"] * r["dx"]) / r["dx"] * 46000, 1) for x in v["x"]], z1=q(v["z"]), z01=q(v["z0"]), ph1=v["ph"], full=v["max"], D=46000)
    elif op == "d":
        S = 16 ** r["n"]
        n = r["n"]
        xm = [(r["xo"] + k) * r["dx"] for k in range(r["Nx"])]
        e.update(e="Proc", sp=r["sp"], n=n, r=r["r"], h=[x * S for x in r["h"]], base=r["base"] * S, s=core.fixp(r["rate"] * (0.25 * n if r["sp"] == 2 else 0.25) * S, 1), W=core.fixp(r["W"] / r["dx"] * D, 1), X0=r["xo"] * D,
                 cut=core.fixp(r["W"] / r["dx"] * r["V"] * 0.25 * S, 1), h1=q(v["h"], 1 / S))
    elif op == "a":
        e.update(e="Sed", n0=r["n"], My=r["My"], s1=r["s1"], s2=r["s2"])
        if not ended:
            n = r["n"]
            F = ["T", "P", "d", "strain", "sxxd", "sxz", "phi", "X"] + (["Fxx", "Fxz", "Fzx", "Fzz"] if r["fin"] else []) + (["T0", "P0", "x0", "z0", "Tmax", "Pmax"] if r["trk"] else [])
            e.update(n1=v["n"], kept=v["kept"], x1=qx(v["m_x"][n:]), z1=q(v["m_z"][n:]), ph1=v["m_phase"][n:], val={f: (qx if f == "x0" else q)(v["m_" + f][n:]) for f in F})
    elif op == "z":
        M = 1000
        e.update(e="Zero", h=[x * M for x in r["h"]], h1=[core.fixp(x * M, 1) for x in v["h"]], z=[x * M for x in r["z"]], z1=[core.fixp(x * M, 1) for x in v["z"]], tol=1)
    return e


RUNS = [
    ("sine", dict(), [], ["topo=sine", "topo_A=0.2", "topo_z=0.013", "bc=box"]),
    ("total", dict(topo_update=0, Nx=9, Nz=7), [], ["topo=step", "topo_A=0.2", "topo_z=0.017", "bc=box"]),
    ("shear", dict(gz=-1.0, bkg_strain_rate=0.6, Nt=5), [], ["topo=slope", "topo_A=0.2", "topo_z=0.0131"]),
    ("diffuse", dict(surface_processes=1, surf_diff=0.4, dt=0.1, Nt=3), [], ["topo=sine", "topo_A=0.2", "topo_z=0.013", "bc=box"]),
    ("sediment", dict(surface_processes=2, surf_sedirate=0.4, surf_baselev=0.05, surf_ised1=1, surf_ised2=1, reseed_markers=1), [], ["topo=sine", "topo_A=0.2", "topo_z=0.013", "bc=box"]),
    ("zeromean", dict(zero_mean_topo=1), [], ["topo=sine", "topo_A=0.2", "topo_z=0.113", "bc=box"]),
    ("substeps", dict(constant_dt=0, gz=-300.0, dt=1.0, Courant=0.2), [{}, dict(rho=2.0)], ["topo=sine", "topo_A=0.2", "topo_z=0.013", "bc=box", "phase=off"]),
]


def runrec(c, sim, name, q, ph, o):
    p = dict(sims.BASE, Nx=7, Nz=8, Nt=3, writer=0, nit_max=1, zmin=-1.5, zmax=0.5, dt=0.03, gz=-2.0, free_surface=1, free_surface_stab=1.0)
    p.update(q)
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    p["Nt"] = q.get("Nt", 3)
    rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=chain0,chain1,topo,remesh10,remesh11,remesh20,remesh21,proc0,proc1,clean0,clean1,flagged", "fields=xg_coord", "mfields=x,z,phase"])
    if rc != 0:
        raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
    return convert(p, [e for e in ev if e["event"] == "Dump"])


def convert(p, ev):
    t, Nx = [], p["Nx"]
    Dr = 400
    M = 1                                   # heights in 1e-5 of the cell height
    fin = lambda a: int(all(math.isfinite(x) for x in a))
    last, chain0, adv, prev, sub = {}, None, None, None, 0
    for e in ev:
        at = e["at"]
        dx, dz, x0 = e["dx"], e["dz"], e["xmin"]
        H = lambda a: [core.fixp(x / dz * 1e5, 1) for x in a]
        X = lambda a: [core.fixp((x - x0) / dx * Dr, 1) for x in a]
        B = dict(run=1, D=Dr, ncx=Nx - 1, stop=0, tol=40 * Dr, full=e.get("chain_max", 10 ** 9))
        if "topo_a" in e:
            hh = line(e, x0, dx, Nx) + line(e, x0, dx, Nx)[-1:]
            steep = max(abs(a - b) / dz * 1e5 for a, b in zip(hh, hh[1:])) if fin(hh) else 0
            B["tol"] = 4 * Dr + int(steep)
        if "height" in e and not fin(e["height"]):
            t.append(dict(B, e="End", finite=0, zero=0, h=[]))
            break
        if at == "chain0":
            sub += 1
            if sub % 2:                     # the current chain is advected before the initial one
                chain0 = e
        elif at == "chain1":
            if sub % 2:
                adv = e
                prev = last.get("h")
        elif at == "topo":
            if adv is not None and prev is not None:
                n = len(adv["m_x"])
                if last.get("at") not in ("remesh11",):
                    xs, ph = e["chain_x"], e["chain_phase"]
                    v = [a - (b if p.get("topo_update", 1) else 0) for a, b in zip(e["chain_z"], chain0["m_z"])]
                    t.append(topo(B, e, H, X, M, v, prev if p.get("topo_update", 1) else [0.0] * Nx, Nx, x0, dx))
            last = dict(at=at, h=e["height"])
            continue
        elif at == "remesh10":
            r0 = e
        elif at == "remesh11":
            t.append(dict(B, e="Grow", h=H(line(r0, x0, dx, Nx)), hp=H(prev), x=X(r0["chain_x"]), z=H(r0["chain_z"]), ph=r0["chain_phase"], x1=X(e["chain_x"]), z1=H(e["chain_z"]), z01=H(e["chain_z0"]), ph1=e["chain_phase"]))
        elif at == "remesh20":
            r0 = e
        elif at == "remesh21":
            t.append(dict(B, e="Snap", h=H(line(r0, x0, dx, Nx)), x=X(r0["chain_x"]), z=H(r0["chain_z"]), ph=r0["chain_phase"], x1=X(e["chain_x"]), z1=H(e["chain_z"]), z01=H(e["chain_z0"]), ph1=e["chain_phase"]))
        elif at == "proc0":
            p0 = e
        elif at == "proc1":
            t.append(proc(p, B, p0, e, dx, dz, x0, H))
        elif at == "clean0":
            c0 = e
        elif at == "clean1":
            t.append(dict(B, e="Clean", h=H(line(e, x0, dx, Nx)), x=X(e["m_x"]), z=H(e["m_z"]), ph=c0["m_phase"], ph1=e["m_phase"], same=int(c0["m_x"] == e["m_x"] and c0["m_z"] == e["m_z"])))
        elif at == "flagged":
            t.append(dict(B, e="End", finite=1, h=H(e["height"]), zero=int(p.get("zero_mean_topo", 0) and adv is not None), tol=2))
        last = dict(at=at, h=e["height"] if "height" in e else last.get("h"))
    if len(t) < 5 * p["Nt"]:
        raise core.CodeFailure("run recorded only %d surface operations" % len(t))
    return t


def line(e, x0, dx, Nx):
    "heights of the broken line the code uses (its a, b)"
    a, b = e["topo_a"], e["topo_b"]
    return [a[0] * x0 + b[0]] + [a[k] * (x0 + (k + 1) * dx) + b[k] for k in range(Nx - 1)]


def topo(B, e, H, X, M, v, h0, Nx, x0, dx):
    h, V = H(e["height"]), H(v)
    return dict(B, e="Topo", M=M, slack=8 + (max(V) - min(V)) // 50, x=X(e["chain_x"]), ph=e["chain_phase"], v=H(v), h0=H(h0), h=h, lw=h[:-1], le=h[1:])


def proc(p, B, a, b, dx, dz, x0, H):
    h, h1 = H(a["height"]), H(b["height"])
    sp, dt = p["surface_processes"], b["dt"]
    K = p.get("surf_diff", 0.0)
    n = int(dt / (0.4 * dx * dx / K) + 1) if K else 1
    r = 16 * K * dt / n / dx / dx
    # the diffusion number is not a whole number of sixteenths in a run: one sub-step at most, larger unit
    return dict(B, e="Proc", sp=sp, n=n, r=core.fixp(r, 1), rx=r, h=h, h1=h1, base=core.fixp(p.get("surf_baselev", 0.0) / dz * 1e5, 1), s=core.fixp(p.get("surf_sedirate", 0.0) * dt / n / dz * 1e5, 1), W=0, X0=0, cut=0,
                tol=3 + (int(abs(r - round(r)) / 16 * 4 * n * (max(h) - min(h))) if sp == 1 else 0))


def run(c):
    c.assumptions = ASSUME
    c.model("Topography_MC", workers=8)
    exe, sim = build.build_driver("surface", "asan"), build.build_driver("sim")
    rnd = random.Random(c.seed * 41 + 17)
    cases = [gen(rnd) for _ in range(900 if c.quick else 12000)]
    env = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=66:detect_odr_violation=0")
    items = [("run:" + n, lambda a=(n, q, ph, o): runrec(c, sim, *a)) for n, q, ph, o in RUNS]
    for b in range(0, len(cases), 50):
        part = cases[b:b + 50]
        items.append(("cases:%d" % b, lambda part=part: [event(r, v) for r, v in zip(part, c.drive(exe, "".join(text(r) for r in part), len(part), what="surface", env=env))]))
    c.conform_batch(items, "Topography_Trace", size=4, heap="3g")
    if not c.violations:
        t = [x for x in items[len(RUNS)][1]() if x["e"] == "Topo"][:1]

        def f(ev):
            ev[0]["h"][0] += 500
        c.corrupted_rejected("Topography_Trace", t, f)
