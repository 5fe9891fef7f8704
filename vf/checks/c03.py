"""C03: a run resumed from a restart file continues as if it had never stopped, against spec/Restart."""
import glob, os, shutil
from .. import core, build, sims

ASSUME = ["runs with unit scales compare to 1e-9 of the largest value of a quantity (they are bit-identical), scaled ones to 1e-5",
          "not compared: solver iteration histories, marker stresses and elastic divergence when elastic=0 (not used by any later step), wall-clock times"]
# name in the code -> carried quantity
GRID = {"u_in": "velocity", "v_in": "velocity", "p_in": "pressure", "p_lith": "plith", "nb_part_cell": "counts", "BCp.type": "flags", "BCg.type": "flags", "BCu.type": "flags", "BCv.type": "flags"}
GOUT = "T,rho_n,rho_s,sxxd,szzd,sxz,wxz,div_u,strain_n,d_n,phi_n,X_n,p0_n,rho0_n,T0_n,FreeSurfW_n,xg_coord,zg_coord"
MARK = {"x": "x", "z": "x", "phase": "phase", "dual": "dual", "noise": "noise", "T": "T", "P": "P", "rho": "rho", "X": "X", "d": "d", "divth": "divth", "Vx": "x", "Vz": "x",
        "strain": "strain", "strain_el": "strain", "strain_pl": "strain", "strain_pwl": "strain", "strain_exp": "strain", "strain_lin": "strain", "strain_gbs": "strain"}
WITH = {"elastic": {"sxxd": "stress", "szzd": "stress", "sxz": "stress"}, "finite": {"Fxx": "F", "Fxz": "F", "Fzx": "F", "Fzz": "F"}, "aniso": {"nx": "n", "nz": "n"},
        "track": {k: "tracks" for k in ("T0", "P0", "x0", "z0", "Tmax", "Pmax")}, "melt": {"phi": "phi"}}
EL = [dict(G=5.0), dict(G=9.0)]
FS = dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.02, gz=-1.0, free_surface_stab=1.0)
HOT = ["Tbot=1600", "Ttop=300"]
# name, switches, parameters, phases, options, exact
CONF = [
    ("all", "elastic thermal finite track", dict(elastic=1, stress_rotation=1, thermal=1, shear_heating=1, finite_strain=1, track_T_P_x_z=1), EL, HOT, True),
    ("surface", "surface elastic", dict(FS, elastic=1), EL, ["topo=sine", "topo_A=0.2"], True),
    ("scaled", "elastic thermal track melt", dict(eta=2.5, L=3.0, V=0.7, T=11.0, elastic=1, thermal=1, track_T_P_x_z=1, melting=1), [dict(G=5.0, melt=11), dict(G=9.0)], HOT, False),
    ("aniso", "aniso finite reseed", dict(anisotropy=1, finite_strain=1, reseed_markers=1, dt=0.15), [dict(pwlv=1, cstv=0, npwl=3.0, eta0=1.0)], [], True),
    ("ale", "moving surface elastic", dict(FS, elastic=1, pure_shear_ALE=1, dt=0.05), EL, ["topo=slope", "topo_A=0.2"], True),
    ("inflow", "reseed elastic", dict(pure_shear_ALE=-1, dt=0.1, reseed_markers=1, elastic=1), EL, [], True),
    ("plastic", "elastic", dict(elastic=1), [dict(G=5.0, plast=1, C=0.5, phi=10.0)], [], True),
    ("variable", "variable", dict(constant_dt=0, Courant=0.2, dt=0.3), [], [], True),
    ("scaledfs", "surface thermal", dict(FS, eta=0.8, L=5.0, V=3.0, T=7.0, thermal=1), [], ["topo=sine", "topo_A=0.6"] + HOT, False),
]
MORE = [
    ("viscous", "", dict(), [], [], True),
    ("periodic", "reseed", dict(shear_style=1, periodic_x=1, dt=0.1, reseed_markers=1), [], [], True),
    ("newton", "finite", dict(Newton=1, finite_strain=1), [dict(pwlv=1, cstv=0, npwl=3.0, eta0=1.0)], [], True),
    ("compress", "elastic", dict(compressible=1, elastic=1), [dict(G=5.0, bet=1e-2, density_model=0)], [], True),
    ("melt", "thermal melt", dict(thermal=1, melting=1), [dict(melt=11)], HOT, True),
    ("random", "elastic reseed", dict(elastic=1, reseed_markers=1, dt=0.15, Nx=9, Nz=5), EL, ["phase=random"], True),
    ("fsvar", "surface variable reseed", dict(FS, constant_dt=0, Courant=0.3, dt=0.2, reseed_markers=1), [], ["topo=step", "topo_A=0.3"], True),
    ("fsin", "surface reseed", dict(FS, pure_shear_ALE=-1, reseed_markers=1), [], ["topo=sine", "topo_A=0.2"], True),
    ("scaledall", "elastic thermal finite aniso track", dict(eta=3.0, L=0.3, V=20.0, T=5.0, elastic=1, thermal=1, finite_strain=1, anisotropy=1, track_T_P_x_z=1), EL, HOT, False),
]
SKIPH5 = ("Iterations/",)


def ints(v, unit):
    return [core.fixp(x, unit) for x in v]


def field(q, name, step, a, b, exact):
    a, b = ([x if isinstance(x, list) else [x] for x in (a, b)])
    if any(isinstance(x, str) for x in list(a) + list(b)):
        return dict(e="Field", q=q, name=name, step=step, a=[str(x) for x in a], b=[str(x) for x in b], tol=0)
    m = max([abs(x) for x in a + b if x == x and abs(x) < 1e300] + [0.0])
    unit = max(m * 1e-9, 1e-13) if exact else max(m * 1e-6, 1e-9)
    return dict(e="Field", q=q, name=name, step=step, a=ints(a, unit), b=ints(b, unit), tol=2 if exact else 10)


def h5(c, d, f):
    return {k: v["v"] for k, v in sims.h5read(c, [d + "/" + f])[f].items() if not k.startswith(SKIPH5)}


def pair(c, sim, conf, k, Nt=5, stop=None):
    """the uninterrupted run and the one resumed after step k; stop: the first part was a run with that Nt"""
    name, sw, q, ph, o, exact = conf
    sw = sw.split()
    p = dict(sims.BASE, Nx=7, Nz=6, Nt=Nt, writer_step=1, nit_max=3, Nx_part=3, Nz_part=3, min_part_cell=9, writer_markers=1)
    p.update(q)
    mark = dict(MARK)
    for s in sw:
        mark.update(WITH.get(s, {}))
    opts = o + ["dump=output", "fields=" + ",".join(list(GRID) + GOUT.split(",")), "mfields=" + ",".join(mark)]

    def go(d, p):
        rc, ev, out = sims.simulate(c, sim, d, p, ph, opts)
        if rc != 0:
            raise core.CodeFailure("run %s of %s: rc=%s %s" % (os.path.basename(d), name, rc, out[-300:]))
        return [e for e in ev if e["event"] == "Dump" and e["at"] == "output"]
    d1, d2 = c.dir("a-" + name), c.dir("b-%s-%d" % (name, k))
    for d in (d1, d2):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d2)
    A = go(d1, p)
    if stop:
        go(d2, dict(p, Nt=stop))
        for f in glob.glob(d2 + "/*.h5"):
            os.remove(f)
    else:
        bp = d1 + "/Breakpoint%05d.dat" % k
        if not os.path.exists(bp):
            raise core.CodeFailure("run %s: no restart file for step %d" % (name, k))
        shutil.copy(bp, d2)
    B = go(d2, dict(p, irestart=1, istep=k))
    A = [e for e in A if e["step"] > k]
    B = [e for e in B if e["step"] > k]
    if [e["step"] for e in A] != list(range(k + 1, Nt + 1)) or [e["step"] for e in B] != [e["step"] for e in A]:
        raise core.CodeFailure("run %s: steps %s, resumed %s" % (name, [e["step"] for e in A], [e["step"] for e in B]))
    L = [dict(e="Start", sw=sw, k=k)]
    for a, b in zip(A, B):
        def f(q, n):
            L.append(field(q, n, a["step"], a[n], b[n], exact))
        for n in ("time", "dt"):
            f(n, n)
        for n in ("xmin", "xmax", "zmin", "zmax"):
            f("box", n)
        for n, s in GRID.items():
            f(s if s != "flags" or "surface" in sw else "file", n)
        for n in GOUT.split(","):
            t = {len(a["BCg.type"]): a["BCg.type"], len(a["BCp.type"]): a["BCp.type"]}.get(len(a[n])) if n not in ("xg_coord", "zg_coord") else None
            live = [x for x in range(len(a[n])) if not t or t[x] not in (30, 31)]  # what is left in the air is meaningless
            L.append(field("file", n, a["step"], [a[n][x] for x in live], [b[n][x] for x in live], exact))
        for n, s in mark.items():
            f(s, "m_" + n)
        if "surface" in sw:
            for n, s in (("chain_x", "chain"), ("chain_z", "chain"), ("chain_phase", "active"), ("height", "height")):
                f(s, n)
            L.append(dict(e="Place", step=a["step"], x=ints(a["chain_x"], 1e-8), ph=a["chain_phase"], lo=core.fixp(a["xmin"], 1e-8), hi=core.fixp(a["xmax"], 1e-8)))
        L.append(dict(e="End", step=a["step"]))
    fa, fb = [sorted(os.path.basename(x) for x in glob.glob(d + "/*.h5")) for d in (d1, d2)]
    want = [x for x in fa if any("%05d" % s in x for s in range(k + 1, Nt + 1))]
    L.append(dict(e="Field", q="file", name="output files", step=Nt, a=want, b=[x for x in fb if x in want], tol=0))
    for x in [y for y in want if "%05d" % Nt in y and y in fb]:
        ha, hb = h5(c, d1, x), h5(c, d2, x)
        L.append(dict(e="Field", q="file", name=x + " datasets", step=Nt, a=sorted(ha), b=sorted(hb), tol=0))
        for n in sorted(set(ha) & set(hb)):
            if "elastic" not in sw and (n.split("/")[-1] in ("sxxd", "szzd", "sxz", "divu_el") and ("Particles" in x or "divu_el" in n)):
                continue
            L.append(field("file", x + ":" + n, Nt, ha[n], hb[n], exact))
    for d in (d1, d2):
        shutil.rmtree(d, ignore_errors=True)
    return L


def run(c):
    c.assumptions = ASSUME
    c.model("Restart_MC", workers=8)
    for m in ("Restart_MutChain", "Restart_MutNoise"):
        c.model_violates("Restart_MC", m)
    sim = build.build_driver("sim")
    items = [("%s:%d" % (f[0], k), lambda f=f, k=k: pair(c, sim, f, k)) for f in CONF for k in ([2] if c.quick else [1, 2, 3, 4])]
    items.append(("longer", lambda: pair(c, sim, CONF[0], 3, stop=3)))
    items.append(("single", lambda: pair(c, sim, CONF[1][:2] + (dict(CONF[1][2], delete_breakpoints=-1),) + CONF[1][3:], 3, stop=3)))
    if not c.quick:
        items += [("%s:%d" % (f[0], k), lambda f=f, k=k: pair(c, sim, f, k)) for f in MORE for k in (1, 3)]
        items += [("%s-big:%d" % (f[0], k), lambda f=f, k=k: pair(c, sim, f[:2] + (dict(f[2], Nx=12, Nz=10),) + f[3:], k, Nt=8)) for f in CONF for k in (3, 6)]
    c.conform_batch(items, "Restart_Trace", size=2, heap="6g")
    if not c.violations:
        def f(ev):
            for x in ev:
                if x["e"] == "Field" and x["name"] == "m_T":
                    x["b"][3] += 5
                    return
        c.corrupted_rejected("Restart_Trace", items[0][1](), f)
