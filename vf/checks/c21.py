"""C21: the output files hold the state of their step in SI units, against spec/Output."""
import glob, math, os, re, shutil, struct
from .. import core, build, sims

ASSUME = ["characteristic values are powers of two, so that the conversion to SI is exact and compared bit by bit in single precision",
          "averages of marker quantities are computed by the library's own marker-to-grid transfer, which C14 decides", "the contents of the iteration log are decided by C04",
          "time series: means to 1e-3 of the largest value; energies (Work, Uthermal, Uelastic) only for their history"]
FIELDS = "rho_s rho_n eta_phys_s eta_phys_n u_in v_in p_in sxxd szzd sxz exxd ezzd exz div_u div_u_el div_u_pl divth0_n div_u_r eII_el eII_pl eII_pwl eII_exp eII_lin eII_gbs T d_n X_n phi_n OverS_n fric_n C_n aniso_factor_n BCp.type BCg.type BCu.type BCv.type BCt.type BCt_fine.type xg_coord zg_coord xc_coord zc_coord xvz_coord zvx_coord".split()
MF = "x z Vx Vz T P sxxd sxz phase generation nx nz dual".split()
EL = [dict(G=5.0), dict(G=9.0)]
FS = dict(free_surface=1, zmin=-1.5, zmax=0.5, dt=0.02, gz=-1.0, free_surface_stab=1.0)
HOT = ["Tbot=1600", "Ttop=300"]
# name, switches, log2 of (eta, L, V, T), parameters, phases, options; lengths etc. in model units; with a surface the rock must stay denser than the 1 kg/m3 of the air
CONF = [
    ("plain", "", (0, 0, 0, 0), dict(), [], []),
    ("scaled", "track finite", (3, -1, 2, 5), dict(thermal=1, track_T_P_x_z=1, finite_strain=1, elastic=1), EL, HOT),
    ("surface", "surface", (2, 3, -1, 4), dict(FS), [], ["topo=sine", "topo_A=%g" % (0.2 * 8)]),
    ("aniso", "aniso finite", (-2, 1, 1, 0), dict(anisotropy=1, finite_strain=1, writer_step=2), [dict(pwlv=1, cstv=0, npwl=3.0, eta0=1.0)], []),
    ("plastic", "track surface", (1, -2, 0, 2), dict(FS, track_T_P_x_z=1, elastic=1, thermal=1, reseed_markers=1), [dict(G=5.0, plast=1, C=0.5, phi=10.0)], ["topo=slope", "topo_A=%g" % (0.2 / 4)] + HOT),
    ("folder", "", (0, 1, 0, 0), dict(writer_subfolder="out/", writer_step=3, shear_style=1, periodic_x=1, compressible=1, elastic=1), [dict(G=5.0, bet=1e-2, density_model=0)], ["phase=random"]),
]
MORE = [
    ("ale", "surface", (4, 0, -3, 1), dict(FS, pure_shear_ALE=1, dt=0.05), [], ["topo=step", "topo_A=0.2"]),
    ("melt", "track", (0, 2, 0, 3), dict(melting=1, thermal=1, track_T_P_x_z=1), [dict(melt=11)], HOT),
    ("inflow", "finite", (0, 0, 5, 0), dict(pure_shear_ALE=-1, dt=0.1, reseed_markers=1, finite_strain=1), [], []),
    ("all", "aniso track finite surface", (7, 4, 2, 6), dict(FS, anisotropy=1, track_T_P_x_z=1, finite_strain=1, thermal=1, elastic=1), EL, ["topo=sine", "topo_A=%g" % (0.2 * 16)] + HOT),
    ("large", "", (10, 9, -11, 7), dict(elastic=1, thermal=1), EL, HOT),
    ("newton", "", (0, 0, 0, 0), dict(Newton=1, line_search=1), [dict(pwlv=1, cstv=0, npwl=3.0, eta0=1.0)], ["phase=checker"]),
    ("variable", "", (1, 1, 1, 1), dict(constant_dt=0, dt=0.3, Courant=0.2), [], []),
    ("restart", "track", (2, 1, 3, 2), dict(thermal=1, track_T_P_x_z=1, elastic=1), EL, HOT),
]
LEN, VEL, TIM, STR, VIS, DEN, TMP, RAT = (0, 1, 0, 0), (0, 1, -1, 0), (0, 0, 1, 0), (1, -1, -2, 0), (1, -1, -1, 0), (1, -3, 0, 0), (0, 0, 0, 1), (0, 0, -1, 0)
# dimensions of the input parameters, to state every configuration in model units
DIMS = dict(xmin=LEN, xmax=LEN, zmin=LEN, zmax=LEN, dt=TIM, bkg_strain_rate=RAT, gz=(0, 1, -2, 0), gx=(0, 1, -2, 0), min_eta=VIS, max_eta=VIS, user0=LEN, user1=LEN)
PDIMS = dict(rho=DEN, G=STR, eta0=VIS, C=STR, Cp=(0, 2, -2, -1), k=(1, 1, -3, -1), Qr=(1, -1, -3, 0), alp=(0, 0, 0, -1), bet=(-1, 1, 2, 0))


def shift(d, sc):
    kg, m, s, K = d
    return kg * sc[0] + (m + s + 2 * kg) * sc[1] + (-s - kg) * sc[2] + K * sc[3]


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.inf


def me(x):
    x = f32(x) if not isinstance(x, str) else float(x)
    if x != x or math.isinf(x):
        return [99, 999] if x != x else [98, 999]
    m, e = math.frexp(x)
    return [int(m * 2 ** 24), e - 24] if m else [0, 0]


def pairs(src, v):
    """single-precision mantissas and exponents; values below the normal range cannot carry their scale"""
    src = src if isinstance(src, list) else [src]
    a, b = [me(x) for x in src], [me(x) for x in v]
    for i in range(min(len(a), len(b))):
        if (a[i][0] and a[i][1] < -149) or (b[i][0] and b[i][1] < -149) or (a[i][0] and not b[i][0] and a[i][1] < -140):
            a[i] = b[i] = [0, 0]
    return a, b


def cents(a, lo, h):
    return [int(round((x - lo) / h * 1000)) for x in a]


def shape(conf):
    name, sw, sc, q, ph, o = conf
    p = dict(sims.BASE, Nx=7, Nz=6, Nt=4, writer_step=1, Nx_part=3, Nz_part=3, min_part_cell=9, writer_markers=1, delete_breakpoints=-1)
    p.update(q)
    p.update(eta=2.0 ** sc[0], L=2.0 ** sc[1], V=2.0 ** sc[2], T=2.0 ** sc[3])
    for k, d in DIMS.items():
        if k in p:
            p[k] = p[k] * 2.0 ** shift(d, sc)
    P = []
    for k in range(2):
        a = dict(sims.PHASE[k])
        if k < len(ph):
            a.update(ph[k])
        for n, d in PDIMS.items():
            if n in a and a[n] < 1e80:
                a[n] = a[n] * 2.0 ** shift(d, sc)
        P.append(a)
    return p, P


SERC = [("sxxd_mean_time", "cell", "sxxd", 0, 0), ("szzd_mean_time", "cell", "szzd", 0, 0), ("sxz_mean_time", "mid", 0, 0, "sxz"), ("Tii_mean_time", "inv", "sxxd", "szzd", "sxz"), ("exxd_mean_time", "cell", "exxd", 0, 0),
        ("ezzd_mean_time", "cell", "ezzd", 0, 0), ("exz_mean_time", "mid", 0, 0, "exz"), ("Eii_mean_time", "inv", "exxd", "ezzd", "exz"), ("T_mean_time", "cell", "T", 0, 0), ("P_mean_time", "cell", "p_in", 0, 0)]


def means(m, w0):
    L = []
    for name, op, a, b, g in SERC:
        top = max([abs(m[x][k]) for x in (a, b) if x for k in range(len(m[x])) if m["BCp.type"][k] not in (30, 31)] + [abs(x) for x in (m[g] if g else [])] + [1e-30])
        u = math.frexp(top)[1] - 13
        F = lambda x: [int(round(max(-3.0 * 2 ** 13, min(3.0 * 2 ** 13, y / 2.0 ** u)))) for y in m[x]] if x else []
        L.append(dict(e="Mean", name=name, op=op, step=m["step"], t=m["BCp.type"], a=F(a), b=F(b), g=F(g), u=u))
    L.append(dict(e="Clock", step=m["step"], time=me(m["time"]), w0=10000, w=int(round((m["xmax"] - m["xmin"]) / w0 * 10000)), short=0))
    return L


def case(c, sim, conf):
    name, sw, sc, q, ph, o = conf
    p, P = shape(conf)
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    opts = o + ["more=1", "dump=output,outmark,outini,means", "fields=" + ",".join(FIELDS), "mfields=" + ",".join(MF)]
    due0 = 0
    if name == "restart":
        rc, ev, out = sims.simulate(c, sim, d, dict(p, Nt=2), P, opts)
        if rc:
            raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
        for f in glob.glob(d + "/*.h5"):
            os.remove(f)
        p.update(irestart=1, istep=2)
        due0 = 3
    rc, ev, out = sims.simulate(c, sim, d, p, P, opts)
    if rc:
        raise core.CodeFailure("run %s: rc=%s %s" % (name, rc, out[-300:]))
    nx, nz, ws = p["Nx"], p["Nz"], p["writer_step"]
    D = [e for e in ev if e["event"] == "Dump"]
    base = os.path.join(d, p["writer_subfolder"].rstrip("/")) if p.get("writer_subfolder") else d
    files = sorted(os.path.basename(x) for x in glob.glob(base + "/*.h5"))
    dues = [s for s in range(due0, p["Nt"] + 1) if s % ws == 0 or s == 0]
    due = sorted(["Output%05d.gzip.h5" % s for s in dues] + ["Particles%05d.gzip.h5" % s for s in dues])
    L = [dict(e="Run", sw=sw.split(), sc=list(sc), n=[nx, nz], Nt=p["Nt"], nit=p["nit_max"], units=[me(x) for x in D[0]["units"]])]
    M = [e for e in D if e["at"] == "means"]
    done = -1
    for s in dues:
        S = {e["at"]: e for e in D if e["step"] == s and e["at"] != "means"}
        if "output" not in S or "outmark" not in S:
            raise core.CodeFailure("run %s: nothing was written for step %d" % (name, s))
        h = sims.h5read(c, [base + "/Output%05d.gzip.h5" % s, base + "/Particles%05d.gzip.h5" % s])
        a = h.get("Output%05d.gzip.h5" % s)
        ms = h.get("Particles%05d.gzip.h5" % s)
        st = S["output"]
        par = lambda e: [me(x) for x in (e["time"], e["xmax"] - e["xmin"], e["zmax"] - e["zmin"], nx, nz, e["dx"], e["dz"], e["dt"])]
        L.append(dict(e="File", kind="model", step=s, ok=int(bool(a)), names=sorted(a or []), np=st["Nb_part"], nc=len(st.get("chain_x", [])), t=st["BCt.type"]))
        for n in sorted(a or []):
            v = a[n]["v"]
            src = SRC.get(n)
            if src and src in st:
                x, y = pairs(st[src], v)
                L.append(dict(e="Data", name=n, s=x, v=y, **{"from": src}))
            elif n == "Model/Params":
                L.append(dict(e="Params", s=par(st), v=[me(x) for x in v]))
            elif n.startswith("VizGrid/") and "viz" in n:
                f = 2 if n.endswith("_hr") else 1
                k = "x" if "xviz" in n else "z"
                lo, hh = st[k + "min"] * 2.0 ** sc[1], st["d" + k] * 2.0 ** sc[1]
                L.append(dict(e="Axis", name=n, f=f, k=k if f == 1 else k + "f", v=cents(v, lo, hh)))
            elif n.startswith("VizGrid/"):
                f = 2 if "_hr" in n else 1
                val = st["m_phase"] if n == "VizGrid/compo_hr" else st["m_dual"]
                xs, zs = cents(st["m_x"], st["xmin"], st["dx"]), cents(st["m_z"], st["zmin"], st["dz"])
                L.append(dict(e="Picture", name=n, f=f, t=st["BCp.type"], v=v, m=[[x, z, w] for x, z, w, ph_ in zip(xs, zs, val, st["m_phase"]) if ph_ != -1]))
            elif n.startswith("TimeSeries/"):
                L.append(dict(e="Series", name=n[11:], v=[me(x) for x in v]))
        for m in M:
            if done < m["step"] <= s:
                for x in means(m, p["xmax"] / 2.0 ** sc[1] - p["xmin"] / 2.0 ** sc[1]):
                    if x["e"] == "Clock":
                        x["short"] = int(round(a["TimeSeries/Short_time"]["v"][m["step"]] * 1000))
                    L.append(x)
        done = s
        L.append(dict(e="End"))
        L.append(dict(e="File", kind="marks", step=s, ok=int(bool(ms)), names=sorted(ms or []), np=S["outmark"]["Nb_part"], nc=len(S["outmark"].get("chain_x", [])), t=[]))
        st = dict(S["outmark"])
        st["index"] = list(range(st["Nb_part"]))
        for k, v in S["outini"].items():
            st["ini_" + k] = v
        for n in sorted(ms or []):
            v = ms[n]["v"]
            src = SRCM.get(n)
            if src and src in st:
                x, y = pairs(st[src], v)
                L.append(dict(e="Data", name=n, s=x, v=y, **{"from": src}))
            elif n == "Model/Params":
                L.append(dict(e="Params", s=par(st), v=[me(x) for x in v]))
        L.append(dict(e="End"))
    L.append(dict(e="Done", have=files, due=due))
    shutil.rmtree(d, ignore_errors=True)
    return L


def table():
    """dataset -> model quantity, read from the specification (which checks the pairing again)"""
    t = open(os.path.join(core.SPEC, "Output.tla")).read()
    e = re.findall(r'D\("([^"]+)", "([^"]+)"', t)
    src = dict((n, s) for n, s in e if not n.startswith("Particles/"))
    mk = dict((n, s) for n, s in e if n.startswith("Particles/"))
    for g, pre in (("Topo", ""), ("Topo_ini", "ini_")):
        for n, s in re.findall(r'D\(t\[1\] \\o "/(\w+)", t\[2\] \\o "(\w+)"', t):
            mk[g + "/" + n] = pre + s
    return src, mk


def run(c):
    global SRC, SRCM
    SRC, SRCM = table()
    c.assumptions = ASSUME
    c.model("Output_MC", workers=8)
    c.model_violates("Output_MC", "Output_MutLate")
    sim = build.build_driver("sim")
    items = [(f[0], lambda f=f: case(c, sim, f)) for f in CONF + ([] if c.quick else MORE)]
    if not c.quick:
        import random
        rnd = random.Random(c.seed)
        for k in range(12):
            f = rnd.choice(CONF + MORE[:-1])
            if "surface" in f[1].split():
                continue
            g = ("%s-%d" % (f[0], k), f[1], tuple(rnd.randint(-4, 6) for _ in range(4)), dict(f[3], Nx=rnd.randint(5, 11), Nz=rnd.randint(5, 9), Nt=rnd.randint(2, 7), writer_step=rnd.randint(1, 3)), f[4], f[5] + ["phase=" + rnd.choice(["incl", "layers", "checker", "random"])])
            items.append((g[0], lambda g=g: case(c, sim, g)))
    c.conform_batch(items, "Output_Trace", size=1, heap="6g")
    if not c.violations:
        def f(ev):
            for x in ev:
                if x["e"] == "Data" and x["name"] == "Centers/P":
                    x["v"][3][1] += 1
                    return
        c.corrupted_rejected("Output_Trace", items[1][1](), f)
