"""C01: every input-file parameter reaches the model, against spec/Input (table of parameters, units, defaults in spec/input_table.txt)."""
import os, sys
from .. import core, build
sys.path.insert(0, os.path.join(core.VERIF, "tools"))
import gen_input_table as table

ASSUME = ["the four scales are powers of two, so that conversions are exact in binary and compared to 2^-28 (angles and Celsius temperatures to 2e-4)",
          "a parameter is named at the start of its line; lines are shorter than 1000 characters", "phase diagrams, kinetics tables and density model 4 need data files that the repository does not hold: not generated",
          "the flow-law data base is compared with the values published in the repository at the pinned commit (spec/flow_laws.txt)"]
ROWS = list(table.rows())
RUN = {r["k"]: r for r in reversed(ROWS) if r["w"] != "phase" and r["k"] != "-"}
MAT = {r["k"]: r for r in reversed(ROWS) if r["w"] == "phase" and r["k"] != "-"}
FIXED = dict(kinetics=(0, 1), interp_stencil=(1, 9), Nx=(3, 5, 11, 40), Nz=(4, 6, 17, 33), Nx_part=(1, 3, 4), Nz_part=(2, 5), Newton=(0, 1), anisotropy=(0, 1), shear_style=(0, 1, 2), lin_solver=(0, 1, 2, 3, -1), istep=(0, 20, 300), irestart=(0, 1))
LAWS = {}
for l in open(os.path.join(core.SPEC, "flow_laws.txt")):
    if l.strip() and l[0] != "#":
        LAWS.setdefault(l.split()[0], []).append(int(l.split()[1]))
SCALES = dict(eta=0, L=1, V=2, T=3)


def real(rng, pos=False):
    m = rng.choice(["1", "2.5", "-3.75", "7.1e3", "-1.25e-6", "4e10", "0.001", "9.99e21", "6.02e-14", "0", "1e0", "-0.5", "123456.789", "5.", ".25", "1E3"])
    if rng.random() < 0.5:
        m = "%s%d.%d%s" % (rng.choice(["", "-"]), rng.randint(0, 99), rng.randint(1, 999), rng.choice(["", "e%d" % rng.randint(-20, 25)]))
    return m.lstrip("-") if pos else m


def value(rng, r):
    k, t = r["k"], r["t"]
    if t == "int":
        return str(rng.choice(FIXED[k]) if k in FIXED else rng.choice([0, 1, 1, 2, 3, 7, 25, -1]))
    if t == "str":
        return rng.choice(["./", "out/", "../../IMPORT/some_directory/with_a_long_name/below", "file.bin", "a", "markers_%d.bin" % rng.randint(0, 99), "x=y.bin", "/tmp/data/%s" % ("d" * rng.randint(1, 60))])
    if t == "ang":
        return rng.choice(["0", "1", "30.0", "45", "60", "88.5", "12.25"])
    if t == "degC":
        return str(rng.randint(-200, 1900))
    if k in ("xmin", "zmin"):
        return rng.choice(["-1", "-3", "-150e3", "0", "-0.5"])
    if k in ("xmax", "zmax"):
        return rng.choice(["1", "2", "10e3", "5.0e5", "0.25"])
    return real(rng)


def absval(r, text):
    return int(text) if r["t"] == "int" else text if r["t"] == "str" else list(table.num(float(text)))


def block(rng, k, nph, n, compress, mode):
    """lines of one phase that do not contradict each other"""
    b = {}
    for key in rng.sample(sorted(MAT), n):
        r = MAT[key]
        b[key] = value(rng, r)
        if key in ("eta0", "npwl", "tau0", "k", "Cp", "rho"):
            b[key] = real(rng, True)
    for q in ("psi",):
        if not compress:
            b.pop(q, None)
    for key in ("linv", "gbsv", "expv", "gs", "kin", "n_vp", "density_model", "phase_diagram", "coh_soft", "phi_soft", "psi_soft", "reac_soft", "reac_phase", "Slim", "pwlv"):
        b.pop(key, None)
    if rng.random() < 0.5:
        b["density_model"] = rng.choice("013")
        b["phase_diagram"] = rng.choice(["-1", "3"])
    if rng.random() < 0.3:
        b["C"] = rng.choice(["1e6", "0", "50"]); b["Slim"] = rng.choice(["1e9", "1e6", "2.5e7"])
    elif "C" in b:
        b["C"] = real(rng, True)
    if rng.random() < 0.4:
        b["coh_soft"] = "1"; b["C"] = "1e7"; b["Ce"] = rng.choice(["2e6", "9.9e6"])
        b["phi_soft"] = "1"; b["phi"] = "30"; b["phie"] = rng.choice(["10", "29"])
        if compress:
            b["psi_soft"] = "1"; b["psi"] = "10"; b["psie"] = "2.5"
    if rng.random() < 0.4:
        b["reac_soft"] = rng.choice("01"); b["reac_phase"] = str(rng.randrange(nph) if b["reac_soft"] == "1" else 99)
    if mode == "pwl":
        b["pwlv"] = "1"; b["npwl"] = rng.choice(["1.0", "3.5"]); b["eta0"] = "1e20"; b.pop("cstv", None)
    elif mode == "mix":
        b["cstv"] = rng.choice(["1", "-1"])
        for kind in rng.sample(sorted(LAWS), rng.randint(1, 3)):
            b[kind] = str(rng.choice(LAWS[kind]) * rng.choice([1, 1, -1] if kind not in ("gs", "kin") else [1]))
    else:
        b["cstv"] = rng.choice(["1", "2", "-1"])
    return b


def junk(rng, names):
    n = rng.choice(names)
    return rng.choice(["", "   ", "/**** %s = 77 ****/" % n, "/ %s = 12" % n, "# %s = 3" % n, "%s is explained here" % n, "%s" % n, "long%s %s = 5" % ("-" * rng.randint(40, 60), n),
                       "/" + "." * 48 + "%s = 66" % n, "/" + "c" * rng.randint(100, 400), "= 5", " = ", "*", "%s-%s = 4" % (n, n), "/ID = 0", "IDs = 4"])


def strange(rng, names):
    n = rng.choice(names)
    w = rng.choice([n + "_", n + "2", "x" + n, n[:-1] or "q", n.upper() + n, "unknown", n + "." + n, "no_" + n])
    return "unknown" if w in RUN or w in MAT or w in SCALES else w


class F:
    """one input file: text and meaning"""
    def __init__(s, rng, sc, run, blocks, order=None, style="plain", noise=0.0, last=None):
        names = sorted(RUN) + sorted(MAT)
        s.sc, lines = sc, []
        head = list(run.items())
        for q, i in SCALES.items():
            if sc[i] != 0 or rng.random() < 0.3:
                head.append((q, repr(2.0 ** sc[i])))
        rng.shuffle(head)
        cut = rng.randint(0, len(head)) if noise else len(head)
        early, late = head[:cut], head[cut:]
        bs = list(enumerate(blocks))
        rng.shuffle(bs)
        lines += [("set", k, v) for k, v in early]
        for p, b in bs:
            lines.append(("id", "ID", str(p)))
            it = list(b.items())
            rng.shuffle(it)
            lines += [("set", k, v) for k, v in it]
            if late and noise and rng.random() < 0.5:
                lines.append(("set",) + late.pop())
        lines = [("set", k, v) for k, v in late] + lines if rng.random() < 0.5 or not noise else lines + [("set", k, v) for k, v in late]
        if noise:
            out = []
            for l in lines:
                while rng.random() < noise:
                    out.append(("text", "", junk(rng, names)) if rng.random() < 0.7 else ("set", strange(rng, names), "55"))
                out.append(l)
            lines = out
            for _ in range(rng.randint(0, 4)):            # a later line for the same parameter is ignored, an earlier one wins
                ls = [i for i, l in enumerate(lines) if l[0] == "set" and l[1] in RUN and l[1] not in SCALES and l[1] not in ("Nb_phases",)]
                if ls:
                    l = lines[rng.choice(ls)]
                    if l[1] not in ("Nx", "Nz", "kinetics", "interp_stencil", "compressible"):
                        lines.insert(rng.randint(0, len(lines)), ("set", l[1], value(rng, RUN[l[1]])))
        if last:
            lines.append(last)
        s.lines = []
        for k, n, v in lines:
            if k == "text":
                s.lines.append(dict(k="text", n="", v=0))
            elif k == "id":
                s.lines.append(dict(k="id", n="", v=int(v)))
            elif n in SCALES:
                s.lines.append(dict(k="set", n=n, v=0))
            else:
                r = RUN.get(n) or MAT.get(n)
                s.lines.append(dict(k="set", n=n, v=absval(r, v) if r else 0))
        nl = "\r\n" if style == "crlf" else "\n"
        def fmt(l):
            if l[0] == "text":
                return l[2]
            if style == "plain":
                return "%s = %s" % (l[1], l[2])
            a, b, t = rng.choice([" ", "  ", "          ", "\t", " \t", ""]), rng.choice([" ", "", "   ", "\t"]), rng.choice(["", " ", "   / comment", " / other = 5", "\t/ dt = 3"])
            return l[1] + a + "=" + b + l[2] + t
        s.text = nl.join(fmt(l) for l in lines) + (nl if rng.random() < 0.6 else "")


def good(rng, n, heavy):
    nph = rng.choice([0, 1, 1, 2, 3, 4] + ([12] if heavy else []))
    run = {k: value(rng, RUN[k]) for k in rng.sample(sorted(RUN), rng.choice([0, 5, 40, 100, len(RUN)])) if k != "Nb_phases"}
    if nph or rng.random() < 0.5:
        run["Nb_phases"] = str(nph)
    if run.get("kinetics") == "1":
        run["kinetics"] = "0"
    comp = run.get("compressible", "0") != "0"
    run.pop("interp_stencil", None) if rng.random() < 0.5 else None
    sc = rng.choice([(0, 0, 0, 0), (20, 10, -10, 3), (70, 13, -31, 9), (rng.randint(-20, 70), rng.randint(-10, 20), rng.randint(-40, 10), rng.randint(-5, 12)), (30, 10, -10, 10), (60, 20, 10, 4)])
    blocks = [block(rng, p, nph, rng.choice([0, 5, 20, 40, len(MAT)]), comp, rng.choice(["cst", "cst", "pwl", "mix"])) for p in range(nph)]
    return F(rng, sc, run, blocks, style=rng.choice(["plain", "free", "free", "crlf"]), noise=rng.choice([0, 0, 0.2, 0.5]))


def bad(rng, n):
    """inputs that contradict themselves, and their valid neighbours"""
    b, run = dict(cstv="1"), dict(Nb_phases="2")
    ok = dict(cstv="1")
    cases = [lambda: run.update(interp_stencil="4"), lambda: run.update(interp_stencil="9"), lambda: b.update(psi="5"), lambda: (b.update(psi="5"), run.update(compressible="1")), lambda: b.update(Slim="1e6"), lambda: b.update(Slim="1e7"),
             lambda: b.update(n_vp="2.0"), lambda: b.update(n_vp="1.0"), lambda: b.update(psi_soft="1", psi="0", psie="3"), lambda: (b.update(psi_soft="1", psi="4", psie="3"), run.update(compressible="1")),
             lambda: (b.update(psi_soft="1", psi="4", psie="4"), run.update(compressible="1")), lambda: b.update(coh_soft="1"), lambda: b.update(coh_soft="1", C="1e6", Ce="1e6"), lambda: b.update(coh_soft="1", Ce="1e6"),
             lambda: b.update(coh_soft="0", Ce="1e7"), lambda: b.update(phi_soft="1"), lambda: b.update(phi_soft="1", phi="20", phie="20"), lambda: b.update(phi_soft="1", phi="20", phie="21"), lambda: b.update(phi_soft="1", phie="0"),
             lambda: b.update(reac_soft="1", reac_phase="2"), lambda: b.update(reac_soft="1", reac_phase="1"), lambda: b.update(reac_soft="0", reac_phase="9"), lambda: b.pop("cstv"), lambda: b.update(cstv="0", linv="19"), lambda: b.update(cstv="0", linv="99"),
             lambda: b.update(pwlv="9"), lambda: b.update(gbsv="3"), lambda: b.update(expv="41"), lambda: b.update(gs="1"), lambda: b.update(kin="2"), lambda: b.update(kin="1"), lambda: b.update(density_model="2"), lambda: b.update(density_model="3"),
             lambda: run.update(Nb_phases="3"), lambda: run.update(Nb_phases="1"), lambda: b.update(Slim="1e6", C="1e6"), lambda: b.update(C="2e8", Slim="1e8"), lambda: b.update(Ce="3e6", psie="2", phie="4")]
    i = n % len(cases)
    cases[i]()
    sc = rng.choice([(0, 0, 0, 0), (20, 10, -10, 3), (70, 13, -31, 9)])
    bl = [ok, b] if run["Nb_phases"] != "1" and rng.random() < 0.5 else [b, ok]
    return F(rng, sc, run, bl, style=rng.choice(["plain", "free"]), noise=rng.choice([0, 0.2]))


def law(rng, kind, num, sc):
    run = dict(Nb_phases="1")
    if rng.random() < 0.4:
        run.update(force_act_vol_ast=rng.choice("01"), act_vol_dis_ast="1.4e-05", act_vol_dif_ast="6e-06", force_melt_weak=rng.choice("01"), melt_weak="30.0")
    return F(rng, sc, run, [{kind: str(num), "cstv": "1"}])


def run(c):
    c.assumptions += ASSUME
    c.model("Input_MC")
    for m in ("Rewinds", "Exact", "WholeFile", "StopsAtId"):
        c.model_violates("Input_MC", "Input_Mut%s" % m)
    exe = build.build_driver("input")
    d = c.dir("files")
    rng = __import__("random").Random(c.seed * 7919 + 1)
    fs = []
    for i in range(90 if c.quick else 1500):
        fs.append(("file-%d" % i, good(rng, i, not c.quick)))
    for i in range(76 if c.quick else 380):
        fs.append(("contradiction-%d" % i, bad(rng, i)))
    for kind, nums in sorted(LAWS.items()):
        for num in nums:
            for sg in ((1, -1) if kind in ("pwlv", "linv", "gbsv", "expv") else (1,)):
                for sc in ((0, 0, 0, 0), (30, 10, -10, 10), (60, 20, 10, 4)) if not c.quick else ((0, 0, 0, 0), (60, 20, 10, 4) if kind in ("gs",) or num in (20, 22, 33) else (30, 10, -10, 10)):
                    if c.quick and sg < 0 and sc != (0, 0, 0, 0):
                        continue
                    fs.append(("law-%s%d-%d" % (kind, sg * num, sc[0]), law(rng, kind, sg * num, sc)))
    for i, l in enumerate([("set", "writer_step", "4"), ("set", "import_file", "last.bin"), ("set", "max_eta", "1e2")]):
        fs.append(("last-%d" % i, F(rng, (0, 0, 0, 0), dict(Nb_phases="1"), [dict(cstv="1")], last=l)))
    def record(key, f):
        def go():
            p = os.path.join(d, key + ".txt")
            with open(p, "w", newline="") as h:
                h.write(f.text)
            ev = c.drive(exe, p + "\n", 1, what="input reader")[0]
            if ev["event"] == "read":
                return [dict(e="Read", sc=list(f.sc), f=f.lines, r={k: ev[k] for k in ("run", "mat", "law", "der", "scale")})]
            return [dict(e="Stop", sc=list(f.sc), f=f.lines, code=ev["code"], sig=ev["sig"])]
        return go
    def missing():
        ev = c.drive(exe, os.path.join(d, "no-such-file.txt") + "\n", None, what="input reader")[0]
        return [dict(e="Missing", code=ev.get("code", 0), sig=ev.get("sig", 0))]
    c.conform("missing-file", missing, "Input_Trace")
    c.conform_batch([(k, record(k, f)) for k, f in fs], "Input_Trace", size=100, heap="4g")
    good1 = record("corrupt", F(rng, (20, 10, -10, 3), dict(Nb_phases="1", dt="5.0"), [dict(cstv="1", rho="2500")]))()
    def m1(ev): ev[0]["r"]["run"][4] = 1 - ev[0]["r"]["run"][4]
    def m2(ev): ev[0]["r"]["mat"][0][0][1] += 1
    def m3(ev): ev[0]["r"]["scale"][7][1] -= 1
    for m in (m1, m2, m3):
        c.corrupted_rejected("Input_Trace", good1, m)
    c.note("%d files: %d run parameters, %d constants per phase, %d flow laws" % (len(fs), len(RUN), len(MAT), sum(map(len, LAWS.values()))))
