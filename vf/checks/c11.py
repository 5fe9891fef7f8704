"""C11: results do not depend on the number of threads or their schedule, against spec/Parallel.

The library is compiled with -fopenmp and access instrumentation and linked against harness/omprt.c, an OpenMP run time whose threads are coroutines:
the number of threads, the order in which they run and the points where they are preempted are inputs of the check, and every access to memory inside a
region is recorded.  (1) Access records of every parallel region executed are judged by Parallel_Trace; (2) every quantity of whole runs and of the unit
drivers of the other checks is compared between one thread and several threads under several schedules."""
import importlib, json, math, os, shutil
from .. import core, build, sims
from . import c03

ASSUME = ["the threads of the model run time number at most 8; accesses by the C library inside a region other than memcpy, memset and memmove are not seen",
          "sums may be reordered: values compare to 1e-6 of the largest value of the quantity, integers exactly", "runs are a few steps on coarse grids, so that rounding is not amplified"]
UNITS = ["c10", "c14", "c13", "c18", "c12", "c16", "c17", "c19", "c23", "c22", "c20", "c24", "c09", "c08", "c05"]
VAR = [(2, 1, 0), (3, 3, 60), (4, 2, 0), (5, 3, 17), (8, 3, 200), (7, 0, 0), (8, 1, 0), (6, 3, 5)]


def env(T, sched, every, seed, log=""):
    return dict(RT_THREADS=str(T), RT_SCHED=str(sched), RT_EVERY=str(max(every, 1)), RT_SEED=str(seed), RT_LOG=log)


def field(name, step, a, b):
    a, b = [x if isinstance(x, list) else [x] for x in (a, b)]
    if any(isinstance(x, (str, bool)) for x in a + b) or not all(isinstance(x, (int, float)) for x in a + b):
        return dict(e="Field", name=name, step=step, a=[json.dumps(x) for x in a], b=[json.dumps(x) for x in b], exact=1, tol=0)
    if all(isinstance(x, int) and abs(x) < 2 ** 31 for x in a + b):
        return dict(e="Field", name=name, step=step, a=a, b=b, exact=1, tol=0)
    m = max([abs(x) for x in a + b if x == x and abs(x) < 1e300] + [0.0])
    u = max(m * 1e-7, 1e-10)
    out = [[core.fixp(x, u) for x in v] for v in (a, b)]
    if any(isinstance(x, str) for v in out for x in v):
        return dict(e="Field", name=name, step=step, a=[str(x) for x in out[0]], b=[str(x) for x in out[1]], exact=1, tol=0)
    return dict(e="Field", name=name, step=step, a=out[0], b=out[1], exact=0, tol=10)


def where(so, off):
    import subprocess
    p = subprocess.run(["addr2line", "-s", "-e", so, "0x" + off], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return p.stdout.strip().split(" ")[0] or off


class Regions:
    """distinct region records of the whole check"""
    def __init__(s, c):
        s.c, s.seen, s.sites, s.words, s.inst = c, {}, set(), 0, 0
        s.so = os.path.join(build.BUILD, "race", "libmdoodz.so")

    def add(s, path):
        if not os.path.exists(path):
            return
        for l in open(path):
            r = json.loads(l)
            s.sites.add((r["off"], r["epoch"]))
            s.words += r["ro"] + r["own"]
            s.inst += r["n"]
            for cl in r["cls"]:
                k = (r["off"], r["epoch"])
                cl = [{**a, "t": i} for i, a in enumerate(cl)]
                s.seen.setdefault(k, {})[json.dumps(cl)] = cl
        os.unlink(path)

    def trace(s):
        return [dict(e="Region", site=where(s.so, o), epoch=ep, cls=list(v.values())) for (o, ep), v in sorted(s.seen.items())]


class Skip(Exception):
    pass


class Tap:
    """runs the generator of another check, handing its unit-driver cases to the parallel build with one and with several threads"""
    def __init__(s, c, pid, regions, cap, var):
        s.c, s.pid, s.regions, s.cap, s.var = c, pid, regions, cap, var
        s.quick, s.seed, s.assumptions, s.items, s.tier = True, c.seed, [], [], "quick"

    def __getattr__(s, n):
        return lambda *a, **k: True

    def dir(s, name):
        return s.c.dir("tap-" + name)

    def note(s, *a):
        pass

    def run(s, *a, **k):
        raise Skip()

    def conform(s, key, record, *a, **k):
        s.items.append((key, record))
        return True

    def conform_batch(s, items, *a, **k):
        s.items += list(items)

    def drive(s, exe, text, n=None, timeout=120, env=None, what="driver"):
        base = s.c.drive(exe, text, n, timeout, env_(1, 0, 0, 1), what)
        for j, (T, sc, ev) in enumerate(s.var):
            log = os.path.join(s.c.dir("log"), "%s-%d.json" % (s.key.replace("/", "_").replace(":", "_"), T))
            got = s.c.drive(exe, text, n, timeout, env_(T, sc, ev, s.seed + j, log), what + " with %d threads" % T)
            s.regions.add(log)
            s.out.append(dict(e="Done", rc=0, rc1=0, n=len(got), n1=len(base)))
            for i, (a, b) in enumerate(zip(base, got)):
                for k in a:
                    if k in b and not (k in IGNORE):
                        s.out.append(field("%s.%s" % (a.get("event", what), k), i, a[k], b[k]))
                s.out.append(dict(e="Field", name="members", step=i, a=sorted(a), b=sorted(b), exact=1, tol=0))
        raise Skip()


IGNORE = ("kp",)    # "the previous value was kept", decided by exact comparison of a value that is itself compared
env_ = env


def unit_items(c, regions):
    out = []
    real = build.build_driver
    for n, name in enumerate(UNITS):
        mod = importlib.import_module("vf.checks." + name)
        var = [VAR[(n + c.seed) % len(VAR)]] if c.quick else VAR[n % 2::2]
        tap = Tap(c, name, regions, 2 if c.quick else 5, var)
        build.build_driver = lambda d, variant="plain", extra_src=(): real(d, "race", extra_src)
        try:
            mod.run(tap)
        except Skip:
            pass
        finally:
            build.build_driver = real
        taken = 0
        for key, rec in tap.items:
            if taken >= tap.cap:
                break
            tap.out, tap.key, done = [], name + "-" + key, False
            try:
                rec()
            except Skip:
                done = bool(tap.out)
            if done:
                taken += 1
                out.append(("%s:%s" % (name, key), lambda L=tap.out: L))
        if not taken:
            raise core.CheckError("no case of %s could be run in parallel" % name)
    return out


FIELDS = list(c03.GRID) + c03.GOUT.split(",") + ["exxd", "ezzd", "exz", "mu_n", "mu_s", "eta_phys_n", "sxxd0", "szzd0", "sxz0", "C_n", "fric_n", "bet_n", "alp", "Qr", "Cp", "kx", "kz", "nb_part_vert", "strain_s", "Wdiss", "divth_n"]
VERTEXY = ("xg_coord", "zg_coord")


def one_run(c, sim, conf, d, p, e):
    name, sw, q, ph, o, exact = conf
    mark = dict(c03.MARK)
    for s in sw.split():
        mark.update(c03.WITH.get(s, {}))
    opts = o + ["dump=placed,solved,thermal1,output", "fields=" + ",".join(FIELDS), "mfields=" + ",".join(mark)]
    rc, ev, out = sims.simulate(c, sim, d, p, ph, opts, env=e, timeout=600)
    return rc, [x for x in ev if x["event"] == "Dump"], out[-200:]


def whole(c, sim, regions, conf, var, Nt=2, grid=(7, 6)):
    name = conf[0]
    p = dict(sims.BASE, Nx=grid[0], Nz=grid[1], Nt=Nt, writer_step=Nt, nit_max=3, Nx_part=4, Nz_part=4, min_part_cell=16, writer_markers=1, initial_noise=1)
    p.update(conf[2])
    d1 = c.dir("one-" + name)
    rc1, A, o1 = one_run(c, sim, conf, d1, p, env(1, 0, 0, 1))
    if rc1 != 0:
        raise core.CodeFailure("run %s with one thread: rc=%s %s" % (name, rc1, o1))
    L = []
    for j, (T, sc, evr) in enumerate(var):
        d = c.dir("par-%s-%d-%d" % (name, T, sc))
        rc, B, o = one_run(c, sim, conf, d, p, env(T, sc, evr, c.seed + j, "regions.json"))
        regions.add(os.path.join(d, "regions.json"))
        L.append(dict(e="Done", rc=rc, rc1=rc1, n=len(B), n1=len(A)))
        for a, b in zip(A, B):
            for n in a:
                if n in ("event",):
                    continue
                va, vb = a[n], b.get(n, [])
                if n in FIELDS and n not in VERTEXY and isinstance(va, list) and isinstance(vb, list):
                    t = {len(a["BCg.type"]): a["BCg.type"], len(a["BCp.type"]): a["BCp.type"], len(a["BCu.type"]): a["BCu.type"], len(a["BCv.type"]): a["BCv.type"]}.get(len(va))
                    if n[:2] != "BC" and t and len(va) == len(vb):
                        live = [x for x in range(len(va)) if t[x] not in (30, 31)]
                        va, vb = [va[x] for x in live], [vb[x] for x in live]
                L.append(field("%s at %s, %d threads" % (n, a["at"], T), a["step"], va, vb))
        fa, fb = [sorted(x for x in os.listdir(q) if x.endswith(".h5")) for q in (d1, d)]
        L.append(dict(e="Field", name="output files", step=Nt, a=fa, b=fb, exact=1, tol=0))
        for x in [y for y in fa if "%05d" % Nt in y and y in fb]:
            ha, hb = c03.h5(c, d1, x), c03.h5(c, d, x)
            for n in sorted(ha):
                if n in hb and "elastic" in conf[1] or not (n.split("/")[-1] in ("sxxd", "szzd", "sxz", "divu_el")):
                    L.append(field("%s:%s, %d threads" % (x, n, T), Nt, ha[n], hb.get(n, [])))
        shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d1, ignore_errors=True)
    return L


def run(c):
    c.assumptions = ASSUME
    c.model("Parallel_MC")
    c.model("Parallel_Merge")
    for m, g in (("Parallel_MC", "Parallel_MutRace"), ("Parallel_MC", "Parallel_MutLook"), ("Parallel_MC", "Parallel_MutRecheck"), ("Parallel_Merge", "Parallel_MutMerge")):
        c.model_violates(m, g)
    if not c.quick:
        c.model("Parallel_MC", "Parallel_MCdeep", workers=8)
    sim = build.build_driver("sim", "race")
    R = Regions(c)
    confs = (c03.CONF + c03.MORE)
    items = []
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        fs = []
        for n, f in enumerate(confs):
            if c.quick:
                var, Nt, grid = [VAR[(n + c.seed) % len(VAR)], VAR[(n + c.seed + 3) % len(VAR)]], 2, (7, 6)
            else:
                var, Nt, grid = VAR[n % 2::2], 3, (8, 7)
            fs.append((f[0], ex.submit(whole, c, sim, R, f, var, Nt, grid)))
        for name, fu in fs:
            items.append(("run:" + name, lambda fu=fu: fu.result()))
        items += unit_items(c, R)
        c.conform_batch(items, "Parallel_Trace", size=1 if not c.quick else 4, heap="4g")
    reg = R.trace()
    for r in reg:
        c.conform("region:" + r["site"] + ("#%d" % r["epoch"]), lambda r=r: [r], "Parallel_Trace") if not c.quick else None
    if c.quick:
        c.conform_batch([("region:%s#%d" % (r["site"], r["epoch"]), lambda r=r: [r]) for r in reg], "Parallel_Trace", size=60)
    c.note("%d parallel phases seen in %d instances; %d shared or own words; %d phases in which threads meet on a word that changes" % (len(R.sites), R.inst, R.words, len(reg)))
    bad = dict(e="Region", site="example", epoch=0, cls=[[dict(t=0, r=1, x=1, w=1, v=-1, lr=[1], lw=[1]), dict(t=1, r=1, x=1, w=1, v=-1, lr=[1], lw=[1])]])
    def m1(ev): ev[0]["cls"][0][1]["lw"] = []
    c.corrupted_rejected("Parallel_Trace", [bad], m1)
    def m2(ev): ev[0]["b"][1] += 11
    c.corrupted_rejected("Parallel_Trace", [field("x", 1, [1.0, 2.0], [1.0, 2.0 + 1e-8])], m2)
