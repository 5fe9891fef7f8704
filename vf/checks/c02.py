"""C02: steps, outputs, restart files and model time of whole runs against spec/Lifecycle."""
import os, random, shutil
from .. import core, build, sims, lifecycle

ASSUME = ["single-threaded runs on small grids (5x5 to 9x9); model times compared to 1e-9 of the run's span",
          "observation points: EvaluateCourantCriterion, RogerGuntherII, MakeBreakpointParticles, WriteOutputHDF5(Particles) are interposed; file names and header times read back from disk"]


def configs(c):
    rnd = random.Random(c.seed)
    base = [
        ("plain", dict(Nt=3, writer_step=1), [], None),
        ("every2", dict(Nt=5, writer_step=2, writer_markers=1), [], None),
        ("every3", dict(Nt=7, writer_step=3, delete_breakpoints=1), [], None),
        ("single", dict(Nt=4, writer_step=2, delete_breakpoints=-1), [], None),
        ("nowriter", dict(Nt=2, writer=0), [], None),
        ("vardt", dict(Nt=6, writer_step=2, constant_dt=0, Courant=0.3, dt=0.01), [], None),
        ("bigdt", dict(Nt=3, writer_step=1, constant_dt=1, dt=0.2, Courant=0.1, pure_shear_ALE=1), [], None),
        # density-driven flow from rest with a large first step: the step is split into advection sub-steps
        ("substep", dict(Nt=3, writer_step=1, constant_dt=0, dt=0.3, Courant=0.2, gz=-300.0), ["bc=box", "phase=off"], None),
        ("substep2", dict(Nt=4, writer_step=2, constant_dt=0, dt=0.2, Courant=0.5, gz=-100.0, thermal=1), ["bc=box", "phase=off"], None),
        ("noadv", dict(Nt=4, writer_step=2, advection=0), [], None),
        ("thermal", dict(Nt=4, writer_step=2, thermal=1, mechanical=0, advection=1), [], None),
        ("surface", dict(Nt=4, writer_step=1, free_surface=1, writer_markers=1, zmin=-1.5, zmax=0.5, constant_dt=0, dt=0.01), ["topo=sine", "topo_A=0.05", "bc=psss"], None),
        ("long", dict(Nt=12, writer_step=5, Nx=5, Nz=5), [], None),
        ("one", dict(Nt=1, writer_step=1, writer_markers=1), [], None),
        ("zero", dict(Nt=0, writer_step=1), [], None),
        ("beyond", dict(Nt=3, writer_step=10), [], None),
        ("elastic", dict(Nt=4, writer_step=2, elastic=1, constant_dt=0, dt=0.01), [], None),
        # safe mode with stagnation imposed on the nonlinear solver: (step 1 twice reduced; step 2 once, step 3 none)
        ("safe", dict(Nt=3, writer_step=1, elastic=1, safe_mode=1, safe_dt_div=2.0, max_num_stag=5, nit_max=6), ["nonlin=1"],
         "1 1 1 1\n1 1 1 1\n1e-20 1e-20 1e-20 0\n1 1 1 1\n1e-20 1e-20 1e-20 0\n1e-20 1e-20 1e-20 0\n"),
        ("safe5", dict(Nt=2, writer_step=1, elastic=1, safe_mode=1, safe_dt_div=5.0, max_num_stag=5, nit_max=6, constant_dt=0, dt=0.02), ["nonlin=1"],
         "1 1 1 1\n1e-20 1e-20 1e-20 0\n1 1 1 0\n1 1 1 1\n1 1 1 1\n1e-20 1e-20 1e-20 0\n"),
        ("safegiveup", dict(Nt=2, writer_step=1, elastic=1, safe_mode=1, safe_dt_div=2.0, max_num_stag=3, nit_max=6), ["nonlin=1"],
         "1e-20 1e-20 1e-20 0\n1 1 1 1\n1 1 1 1\n1 1 1 1\n"),
    ]
    n = 4 if c.quick else 60
    for k in range(n):
        nt, ws = rnd.randint(1, 9), rnd.randint(1, 5)
        p = dict(Nt=nt, writer_step=ws, writer_markers=rnd.randint(0, 1), Nx=rnd.choice([5, 7, 9]), Nz=rnd.choice([5, 6, 9]),
                 constant_dt=rnd.randint(0, 1), dt=rnd.choice([0.005, 0.02, 0.2]), Courant=rnd.choice([0.1, 0.3, 0.5]),
                 pure_shear_ALE=rnd.randint(0, 1), shear_style=rnd.choice([0, 0, 1]), RK=rnd.choice([1, 2, 4]), elastic=rnd.randint(0, 1))
        if p["shear_style"] == 1:
            p.update(periodic_x=1, pure_shear_ALE=0)
        base.append(("rnd%d" % k, p, [], None))
    return base


def record(c, exe, name, p, opts, res, restart_at=None):
    d = c.dir(name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    o = ["life=1"] + opts
    if res:
        with open(os.path.join(d, "res.txt"), "w") as f:
            f.write(res)
        o += ["res=res.txt"]
    rc, ev, out = sims.simulate(c, exe, d, p, phases=[dict(), dict(rho=2.0)], opts=o)
    runs = [(ev, d, rc, 1)]
    if not any(x["event"] == "Config" for x in ev):
        raise core.CodeFailure("run %s did not start: rc=%s %s" % (name, rc, out[-600:]))
    return runs, rc, out


def run(c):
    c.assumptions = ASSUME
    exe = build.build_driver("sim", "plain")
    c.model("Lifecycle_MC", workers=8)
    for m in ("MutTime", "MutMv"):
        c.model_violates("Lifecycle_Mut", "Lifecycle_" + m)
    items = []
    for name, p, opts, res in configs(c):
        def rec(name=name, p=p, opts=opts, res=res):
            return lifecycle.convert(c, record(c, exe, name, p, opts, res)[0])
        items.append(("run:" + name, rec))
    # restarts: the continued run keeps numbering, cadence and time
    for name, p, at in [("restart", dict(Nt=6, writer_step=2), 2), ("restart4", dict(Nt=7, writer_step=2, constant_dt=0, dt=0.01), 4), ("restartm", dict(Nt=4, writer_step=1, writer_markers=1, thermal=1), 3)]:
        def rec(name=name, p=p, at=at):
            runs, rc, out = record(c, exe, name, p, [], None)
            d = runs[0][1]
            q = dict(p, istep=at, irestart=1)
            # outputs later than the restart step belong to the continued run
            for s in range(at + 1, p["Nt"] + 1):
                for pat in ("Output%05d.gzip.h5", "Particles%05d.gzip.h5", "Breakpoint%05d.dat"):
                    f = os.path.join(d, pat % s)
                    if os.path.exists(f):
                        os.unlink(f)
            t = lifecycle.convert(c, runs)
            rc2, ev2, out2 = sims.simulate(c, exe, d, q, phases=[dict(), dict(rho=2.0)], opts=["life=1"])
            both = lifecycle.convert(c, [runs[0], (ev2, d, rc2, 0)])
            return both, t, at
        def rec2(rec=rec, p=p):
            both, t, at = rec()
            # the run is cut right after the restart step: drop the abandoned tail of the first run, then continue
            cut = []
            for x in both:
                cut.append(x)
                if x["e"] == ("Marks" if p.get("writer_markers") else "Out") and x["step"] == at:
                    break
            i2 = [i for i, x in enumerate(both) if x["e"] == "Config"]
            tail = both[i2[1]:] if len(i2) > 1 else []
            return cut + [dict(e="Crash")] + tail
        items.append(("run:" + name, rec2))
    first = items[0][1]()
    c.conform_batch(items, "Lifecycle_Trace")
    if not c.violations:
        def bump(k, f):
            def g(ev):
                for x in ev:
                    if x["e"] == k:
                        return f(x)
                return False
            return g
        c.corrupted_rejected("Lifecycle_Trace", first, bump("SelectDt", lambda x: x.update(time=x["time"] + 1000)))
        c.corrupted_rejected("Lifecycle_Trace", first, bump("Out", lambda x: x.update(step=x["step"] + 1)))
        c.corrupted_rejected("Lifecycle_Trace", first, lambda ev: ev.pop([i for i, x in enumerate(ev) if x["e"] == "Bp"][0]) and None)
        c.corrupted_rejected("Lifecycle_Trace", first, bump("Finish", lambda x: x["outs"].pop() and None))
