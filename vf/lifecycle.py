"""Recorded runs -> traces of spec/Lifecycle (times as integers)."""
import glob, os, re
from . import sims


class Units:
    """Fixed-point time: the whole trace spans at most 1e9 units."""
    def __init__(self, evs):
        m = 0.0
        for e in evs:
            for k in ("time", "dt"):
                if isinstance(e.get(k), (int, float)) and e.get(k) == e.get(k):
                    m = max(m, abs(e[k]))
        self.u = (m or 1.0) * 2.0 / 1e9

    def __call__(self, x):
        if x != x or abs(x) > 2e9 * self.u:
            return -2000000000
        return int(round(x / self.u))


def bp_files(files, ref):
    """Directory listing -> [{name, of, ok}]; ref: content hash -> step it is the complete restart file of."""
    out = []
    for f in files:
        m = re.match(r"Breakpoint(\d{5}|XXXXX)\.dat$", f["n"])
        if not m:
            continue
        name = -1 if m.group(1) == "XXXXX" else int(m.group(1))
        of = ref.get(f["h"])
        out.append(dict(name=name, of=of if of is not None else 0, ok=1 if of is not None else 0))
    return out


def disk_listing(d):
    """What an observer finds in the run directory after the run."""
    outs = sorted(glob.glob(os.path.join(d, "Output*.gzip.h5")))
    marks = sorted(glob.glob(os.path.join(d, "Particles*.gzip.h5")))
    bps = []
    for f in sorted(glob.glob(os.path.join(d, "Breakpoint*.dat"))):
        m = re.match(r"Breakpoint(\d{5}|XXXXX)\.dat$", os.path.basename(f))
        if m:
            bps.append(-1 if m.group(1) == "XXXXX" else int(m.group(1)))
    num = lambda f: int(re.search(r"(\d+)\.gzip", os.path.basename(f)).group(1))
    return [(num(f), f) for f in outs], [num(f) for f in marks], bps


def convert(c, runs, ref=None):
    """runs: list of (events, directory, returncode, fresh).  One trace of Lifecycle_Trace."""
    allev = [e for r in runs for e in r[0] if e["event"] in ("SelectDt", "Breakpoint", "Residual", "Advect")]
    U = Units(allev)
    out = []
    for evs, d, rc, fresh in runs:
        open_step, cur_dt = False, None
        finished = any(e["event"] == "Finish" for e in evs) and rc == 0
        for e in evs:
            t = e["event"]
            if t in ("BreakpointBegin", "Output", "SelectDt", "Finish", "Fs") and open_step:
                if t != "Finish" or finished:
                    out.append(dict(e="EndStep"))
                    open_step = False
            if t == "Config":
                out.append(dict(e="Config", fresh=fresh, Nt=e["Nt"], ws=e["ws"], writer=e["writer"], wm=e["wm"], restart=e["restart"], istep=e["istep"] if e["restart"] else 0,
                                **{"del": e["del"]}, safe=1 if e["safe"] == 1 else 0, adv=1 if e["adv"] > 0 else 0))
            elif t == "SelectDt":
                out.append(dict(e="SelectDt", step=e["step"], time=U(e["time"]), dt=U(e["dt"])))
                open_step, cur_dt = True, e["dt"]
            elif t in ("Residual",) and open_step and cur_dt and e["dt"] < cur_dt * (1 - 1e-9):
                out.append(dict(e="Reduce", dt=U(e["dt"])))
                cur_dt = e["dt"]
            elif t == "Advect" and not e["chain"]:
                out.append(dict(e="Sub", dt=U(e["dt"])))
            elif t == "BreakpointBegin":
                out.append(dict(e="BpBegin", step=e["step"]))
            elif t == "Fs" and ref is not None:
                out.append(dict(e="Disk", files=bp_files(e["files"], ref)))
            elif t == "Breakpoint":
                r = dict(e="Bp", step=e["step"], time=U(e["time"]))
                if ref is not None:
                    r["files"] = bp_files(e["files"], ref)
                out.append(r)
            elif t == "Output":
                out.append(dict(e="Out", step=e["step"], time=U(e["time"]), dt=U(e["dt"])))
            elif t == "OutputMarkers":
                out.append(dict(e="Marks", step=e["step"]))
            elif t == "Crash":
                r = dict(e="Crash")
                if ref is not None:
                    r["files"] = bp_files(e["files"], ref)
                out.append(r)
        if finished:
            outs, marks, bps = disk_listing(d)
            h5 = sims.h5read(c, [p for _, p in outs]) if outs else {}
            fo = []
            for s, p in outs:
                try:
                    tm = U(h5[os.path.basename(p)]["Model/Params"]["v"][0])
                except (KeyError, IndexError, TypeError):
                    tm = -1
                fo.append(dict(step=s, time=tm))
            out.append(dict(e="Finish", outs=fo, marks=marks, bps=bps))
        elif rc != 99:
            out.append(dict(e="Abort"))
    return out
