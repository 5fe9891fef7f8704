"""C12: marker advection against spec/Advection."""
import random, shutil
from .. import core, build, sims

ASSUME = ["positions are compared to 8/4096 of a cell (the specification computes in fixed point)", "next to air nodes markers within 3/4096 of a grid line are not compared: the interpolation jumps there",
          "a marker whose intermediate Runge-Kutta point leaves the domain counts as having left it, as in the code"]
U = 4096
J = lambda a: " ".join(str(x) for x in a)
STATIC = "P,phi,X,T,d,nx,nz,rho,sxxd,szzd,sxz,divth,noise,strain,strain_el,strain_pl,strain_pwl,strain_exp,strain_lin,strain_gbs,progress,Fxx,Fxz,Fzx,Fzz,T0,P0,x0,z0,Tmax,Pmax,aniso_angle,dual,generation"


def gen(rnd):
    Nx, Nz = rnd.randint(3, 6), rnd.randint(3, 6)
    if rnd.random() < 0.2:
        Nx, Nz = rnd.choice([(3, 9), (9, 3)])
    nu, nv = Nx * (Nz + 1), (Nx + 1) * Nz
    kind = rnd.choice(["random", "random", "smooth", "uniform", "air", "cons"])
    r = dict(Nx=Nx, Nz=Nz, kind=kind, per=int(rnd.random() < 0.4), cons=int(kind == "cons"), dx=rnd.choice([1.0, 0.5, 2.0]), dz=rnd.choice([1.0, 0.5, 4.0]), xmin=rnd.choice([0.0, -2.0, 3.0]), zmin=rnd.choice([0.0, -8.0, 1.0]),
             dt=rnd.choice([1.0, 0.5, 0.25]), tu=[-1] * nu, tv=[-1] * nv, exact=0, air=int(kind == "air"))
    A = rnd.choice([200, 1000, 3000])
    if kind == "uniform":
        q = rnd.choice([U // 4, U // 2, U])
        a, b = rnd.choice([-1, 0, 1]) * q, rnd.choice([-1, 0, 1]) * q
        r["u"], r["v"], r["exact"] = [a] * nu, [b] * nv, 1
    elif kind == "smooth":
        a, b, c, d, e, f = [rnd.randint(-A // 3, A // 3) for _ in range(6)]
        r["u"] = [a + b * k + c * l for l in range(Nz + 1) for k in range(Nx)]
        r["v"] = [d + e * k + f * l for l in range(Nz) for k in range(Nx + 1)]
    else:
        r["u"] = [rnd.randint(-A, A) for _ in range(nu)]
        r["v"] = [rnd.randint(-A, A) for _ in range(nv)]
    if r["per"] and kind != "air":
        for l in range(Nz + 1):
            r["u"][l * Nx + Nx - 1] = r["u"][l * Nx]
        for l in range(Nz):
            r["v"][l * (Nx + 1)] = r["v"][l * (Nx + 1) + Nx - 1]
            r["v"][l * (Nx + 1) + Nx] = r["v"][l * (Nx + 1) + 1]
    if kind == "air":
        h = [rnd.randint(1, Nz - 1) for _ in range(Nx - 1)]
        at = lambda k: [h[j] for j in (k - 1, k) if 0 <= j < Nx - 1]
        for k in range(Nx):
            for l in range(Nz + 1):
                if l > max(at(k)):
                    r["tu"][k + l * Nx] = 30
        for k in range(Nx + 1):
            for l in range(Nz):
                if l > h[min(max(k - 1, 0), Nx - 2)]:
                    r["tv"][k + l * (Nx + 1)] = 30
        r["h"] = h
        r["per"] = 0
        for t, f in ((r["tu"], r["u"]), (r["tv"], r["v"])):
            for c, y in enumerate(t):
                if y == 30:
                    f[c] = 0
    M = []
    for _ in range(14):
        g = rnd.random()
        if r["exact"]:
            x, z = rnd.randint(0, 4 * (Nx - 1)) * (U // 4), rnd.randint(0, 4 * (Nz - 1)) * (U // 4)
        elif g < 0.2:
            x, z = rnd.randint(0, 2 * (Nx - 1)) * (U // 2), rnd.randint(0, 2 * (Nz - 1)) * (U // 2)
        elif g < 0.4:
            x, z = rnd.choice([rnd.randint(1, 300), (Nx - 1) * U - rnd.randint(1, 300)]), rnd.choice([rnd.randint(1, 300), (Nz - 1) * U - rnd.randint(1, 300)])
        else:
            x, z = rnd.randint(1, (Nx - 1) * U - 1), rnd.randint(1, (Nz - 1) * U - 1)
        if kind == "air":       # rock markers only
            j = min(x // U, Nx - 2)
            if z > h[j] * U:
                z = rnd.randint(1, h[j] * U - 1)
        M.append((x, z, -1 if rnd.random() < 0.15 else rnd.randint(0, 3)))
    r["M"] = M
    r["steps"] = 1 if kind == "air" else rnd.randint(1, 3)
    return r


def text(r):
    sx, sz = r["dx"] / U, r["dz"] / U
    return "c %d %d %r %r %r %r %d %d %r %d %s %s %s %s %d %s\n" % (r["Nx"], r["Nz"], r["xmin"], r["zmin"], r["dx"], r["dz"], r["per"], r["cons"], r["dt"], r["steps"], J(r["tu"]), " ".join(repr(x * sx / r["dt"]) for x in r["u"]),
        J(r["tv"]), " ".join(repr(x * sz / r["dt"]) for x in r["v"]), len(r["M"]), " ".join("%r %r %d" % (r["xmin"] + x * sx, r["zmin"] + z * sz, h) for x, z, h in r["M"]))


def adv(r, v, M):
    fx = lambda x: core.fixp((x - r["xmin"]) / r["dx"] * U, 1)
    fz = lambda z: core.fixp((z - r["zmin"]) / r["dz"] * U, 1)
    m = [[fx(v["x0"][i]), fz(v["z0"][i]), v["h0"][i], fx(v["x1"][i]), fz(v["z1"][i]), v["h1"][i], core.fixp(v["vx"][i] * r["dt"] / r["dx"] * U, 1) if v["h1"][i] >= 0 else 0, core.fixp(v["vz"][i] * r["dt"] / r["dz"] * U, 1) if v["h1"][i] >= 0 else 0, v["mv"][i], v["kp"][i]] for i in range(M)]
    return dict(e="Adv", U=U, Nx=r["Nx"], Nz=r["Nz"], per=r["per"], cons=r["cons"], u=r["u"], v=r["v"], tu=r["tu"], tv=r["tv"], exact=r["exact"], air=r["air"], tol=8 if not r["exact"] else 0, m=m)


def run(c):
    c.assumptions = ASSUME
    c.model("Advection_MC", workers=8)
    exe, sim = build.build_driver("advect"), build.build_driver("sim")
    rnd = random.Random(c.seed * 31 + 12)
    cases = [gen(rnd) for _ in range(700 if c.quick else 9000)]
    items = []
    for b in range(0, len(cases), 50):
        part = cases[b:b + 50]

        def rec(part=part):
            ev = c.drive(exe, "".join(text(r) for r in part), sum(r["steps"] for r in part), what="advection")
            out, k = [], 0
            for r in part:
                for _ in range(r["steps"]):
                    if ev[k]["np"] != len(r["M"]):
                        raise core.CodeFailure("advection changed the number of markers")
                    out.append(adv(r, ev[k], len(r["M"])))
                    k += 1
            return out
        items.append(("cases:%d" % b, rec))
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, Nx=7, Nz=6, Nt=3, writer=0, nit_max=2, Nx_part=3, Nz_part=3, min_part_cell=9)
        p.update(q)

        def rec(p=p, o=o, name=name, ph=ph):
            d = c.dir("r-" + name)
            shutil.rmtree(d, ignore_errors=True)
            rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=adv0,adv1,chain0,chain1", "fields=u_in,v_in,BCu.type,BCv.type", "mfields=x,z,Vx,Vz,phase," + STATIC])
            D = [e for e in ev if e["event"] == "Dump"]
            if rc != 0 or len(D) < 2 * p["Nt"]:
                raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
            t = []
            for a, b in zip(D[::2], D[1::2]):
                n = a["Nb_part"]
                if b["Nb_part"] != n:
                    raise core.CodeFailure("advection changed the number of markers")
                other = ["m_" + f for f in STATIC.split(",") if "m_" + f in a]
                v = dict(x0=a["m_x"], z0=a["m_z"], h0=a["m_phase"], x1=b["m_x"], z1=b["m_z"], h1=b["m_phase"], vx=b["m_Vx"], vz=b["m_Vz"], mv=[int(a["m_x"][i] != b["m_x"][i] or a["m_z"][i] != b["m_z"][i]) for i in range(n)],
                         kp=[int(all(a[f][i] == b[f][i] or (a[f][i] != a[f][i] and b[f][i] != b[f][i]) for f in other)) for i in range(n)])
                r = dict(Nx=p["Nx"], Nz=p["Nz"], per=p["periodic_x"], cons=p.get("conserv_interp", 0), dt=a["dt"], dx=a["gdx"], dz=a["gdz"], xmin=a["xmin"], zmin=a["zmin"], exact=0, air=int(30 in a["BCu.type"]), tu=a["BCu.type"], tv=a["BCv.type"],
                         u=[core.fixp(x * a["dt"] / a["gdx"] * U, 1) for x in a["u_in"]], v=[core.fixp(x * a["dt"] / a["gdz"] * U, 1) for x in a["v_in"]])
                t.append(adv(r, v, n))
            return t
        items.append(("run:" + name, rec))
    c.conform_batch(items, "Advection_Trace", size=3, heap="3g")
    if not c.violations:
        t = items[0][1]()[:2]
        def f(ev):
            for m in ev[1]["m"]:
                if m[5] >= 0:
                    m[3] += 40
                    return
            return False
        c.corrupted_rejected("Advection_Trace", t, f)
        def f(ev):
            ev[1]["m"][0][9] = 0
        c.corrupted_rejected("Advection_Trace", t, f)


FS = dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.03, gz=-2.0, Nx=7, Nz=8, free_surface_stab=1.0)
RUNS = [
    ("pure", dict(dt=0.1), [], []),
    ("ale", dict(dt=0.1, pure_shear_ALE=1, finite_strain=1), [], []),
    ("inflow", dict(dt=0.1, pure_shear_ALE=-1, Nx=6, Nz=9, reseed_markers=0), [], []),
    ("simple", dict(dt=0.2, shear_style=1, periodic_x=1, track_T_P_x_z=1), [], []),
    ("cons", dict(dt=0.2, shear_style=1, periodic_x=1, conserv_interp=1), [], []),
    ("sub", dict(constant_dt=0, dt=1.0, gz=-300.0, Courant=0.2), [dict(), dict(rho=2.0)], ["bc=box", "phase=off"]),
    ("surface", FS, [dict(rho=1.0), dict(rho=3.0)], ["topo=sine", "topo_A=0.2", "bc=box"]),
]
