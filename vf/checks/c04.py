"""C04: restart files on disk at every instant of the writing protocol, with crashes and restarts, against spec/Lifecycle."""
import os, random, shutil
from .. import build, sims, lifecycle

ASSUME = ["a crash is the death of the process at an instant between two file-system operations on restart files (creation, 1st/20th/45th write, close, rename, remove, shell command); power loss is not modelled",
          "a restart file is recognised as complete for step s when its bytes equal those the same run writes at step s without clean-up"]


def run(c):
    c.assumptions = ASSUME
    exe = build.build_driver("sim", "plain")
    c.model("Lifecycle_MC", workers=8)
    for m in ("MutMv", "MutInPlace"):
        c.model_violates("Lifecycle_Mut", "Lifecycle_" + m)
    rnd = random.Random(c.seed)
    cfgs = [("d1w1", dict(Nt=6, writer_step=1, delete_breakpoints=1)), ("d1w2", dict(Nt=8, writer_step=2, delete_breakpoints=1)),
            ("single", dict(Nt=4, writer_step=1, delete_breakpoints=-1)), ("keep", dict(Nt=3, writer_step=1, delete_breakpoints=0)),
            ("d1w3", dict(Nt=12, writer_step=3, delete_breakpoints=1, free_surface=1, zmin=-1.5, zmax=0.5, dt=0.02))]
    if not c.quick:
        cfgs += [("t%d" % k, dict(Nt=rnd.randint(4, 14), writer_step=rnd.randint(1, 4), delete_breakpoints=rnd.choice([1, 1, -1]), elastic=rnd.randint(0, 1),
                                  thermal=rnd.randint(0, 1), dt=0.02)) for k in range(12)]
    items = []
    for name, p in cfgs:
        p = dict(p, Nx=5, Nz=5)

        def simrun(d, q, opts, fresh):
            if fresh:
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
            rc, ev, out = sims.simulate(c, exe, d, q, opts=["life=1", "fs=1"] + opts)
            return (ev, d, rc, 1 if fresh else 0)

        def reference(name=name, p=p):
            ev, d, rc, _ = simrun(c.dir("ref-" + name), dict(p, delete_breakpoints=0), [], True)
            ref = {}
            for e in ev:
                if e["event"] == "Breakpoint":
                    for f in e["files"]:
                        if f["n"] == "Breakpoint%05d.dat" % e["step"]:
                            ref[f["h"]] = e["step"]
            return ref
        ref = reference()
        conts = {}

        def cont_ref(s, name=name, p=p, ref=ref, conts=conts):
            """Contents of the restart files of the run continued from step s without clean-up and without crash."""
            if s not in conts:
                d = c.dir("cref-" + name)
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                shutil.copy(os.path.join(c.dir("ref-" + name), "Breakpoint%05d.dat" % s), d)
                ev = simrun(d, dict(p, delete_breakpoints=0, irestart=1, istep=s), [], False)[0]
                m = dict(ref)
                for e in ev:
                    if e["event"] == "Breakpoint":
                        for f in e["files"]:
                            if f["n"] == "Breakpoint%05d.dat" % e["step"]:
                                m[f["h"]] = e["step"]
                conts[s] = m
            return conts[s]
        if not ref:
            c.violation("noref:" + name, "a run that is asked for restart files (clean-up off) leaves no complete file named after its step")
            continue

        def rec(name=name, p=p, ref=ref):
            return lifecycle.convert(c, [simrun(c.dir(name), p, [], True)], ref)
        items.append(("disk:" + name, rec))
        base = simrun(c.dir(name), p, [], True)
        nops = max([e["k"] for e in base[0] if e["event"] == "Fs"] or [0])
        # crash at each file-system operation, restart from the newest complete file, run to the end
        ks = list(range(1, nops + 1))
        if c.quick and len(ks) > 8:
            ks = sorted(set([1, 2, nops] + rnd.sample(ks, 5)))
        for k in ks:
            def rec2(name=name, p=p, ref=ref, k=k, cont_ref=cont_ref):
                d = c.dir("%s-crash" % name)
                r1 = simrun(d, p, ["crash=%d" % k], True)
                runs = [r1]
                cr = [e for e in r1[0] if e["event"] == "Crash"]
                if r1[2] == 99 and cr:
                    good = sorted(f["of"] for f in lifecycle.bp_files(cr[0]["files"], ref) if f["ok"] and f["name"] in (f["of"], -1))
                    if good:
                        runs.append(simrun(d, dict(p, irestart=1, istep=good[-1]), [], False))
                t = lifecycle.convert(c, runs, cont_ref(good[-1]) if len(runs) > 1 else ref)
                return t
            items.append(("crash:%s@%d" % (name, k), rec2))
    c.conform_batch(items, "Lifecycle_Trace", size=200)
    if not c.violations:
        first = items[0][1]()

        def stale(ev):
            b = [x for x in ev if x["e"] == "Bp"][-1]
            b["files"] = [dict(f, of=f["of"] - 1) if f["name"] == b["step"] else f for f in b["files"]]

        def lost(ev):
            b = [x for x in ev if x["e"] == "Disk"][-2]
            b["files"] = []
        c.corrupted_rejected("Lifecycle_Trace", first, stale)
        c.corrupted_rejected("Lifecycle_Trace", first, lost)
