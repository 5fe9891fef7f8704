"""Input files for full runs and helpers around harness/sim.c."""
import json, os, re

BASE = dict(delete_breakpoints=0, istep=0, irestart=0, writer=1, writer_step=1, writer_markers=0, writer_debug=0, gnuplot_log_res=0,
            eta=1.0, L=1.0, V=1.0, T=1.0, Nx=9, Nz=9, Nt=2, xmin=-1.0, xmax=1.0, zmin=-1.0, zmax=1.0, Nx_part=4, Nz_part=4, min_part_cell=16,
            constant_dt=1, Courant=0.3, dt=0.05, RK=4, penalty=1e3, lin_solver=2, Newton=0, line_search=0, nit_max=3, nonlin_abs_mom=1e-10, nonlin_abs_div=1e-10,
            nonlin_rel_mom=1e-12, nonlin_rel_div=1e-12, min_eta=1e-3, max_eta=1e3, mechanical=1, thermal=0, elastic=0, advection=1, free_surface=0,
            shear_style=0, periodic_x=0, pure_shear_ALE=0, bkg_strain_rate=-1.0, gx=0.0, gz=0.0, user0=0.0, user1=0.3)
PHASE = [dict(rho=1.0, G=1e10, alp=0.0, bet=1e-11, Cp=1.0, k=1.0, Qr=0.0, C=1e90, phi=0.0, eta0=1.0, npwl=1.0, Qpwl=0.0, cstv=1, pwlv=0, linv=0, gbsv=0, expv=0, gsel=0, density_model=1, plast=0),
         dict(rho=1.0, G=1e10, alp=0.0, bet=1e-11, Cp=1.0, k=1.0, Qr=0.0, C=1e90, phi=0.0, eta0=10.0, npwl=1.0, Qpwl=0.0, cstv=1, pwlv=0, linv=0, gbsv=0, expv=0, gsel=0, density_model=1, plast=0)]


def input_text(params=None, phases=None, extra=""):
    p = dict(BASE)
    p.update(params or {})
    ph = [dict(x) for x in PHASE]
    for i, q in enumerate(phases or []):
        if i >= len(ph):
            ph.append(dict(PHASE[0]))
        ph[i].update(q)
    out = ["/**** generated ****/"]
    for k, v in p.items():
        if v is not None:
            out.append("%s = %s" % (k, repr(v) if isinstance(v, float) else v))
    out.append(extra)
    out.append("Nb_phases = %d" % len(ph))
    for i, q in enumerate(ph):
        out.append("ID = %d" % i)
        for k, v in q.items():
            if v is not None:
                out.append("%s = %s" % (k, repr(v) if isinstance(v, float) else v))
        out.append("")
    return "\n".join(out) + "\n\n"


def events(path):
    out = []
    if os.path.exists(path):
        for ln in open(path, errors="replace"):
            ln = ln.strip()
            if ln:
                try:
                    out.append(json.loads(re.sub(r"(?<=[:,\[])(-?)(nan|inf)(?=[,\]}])", lambda m: "NaN" if m.group(2) == "nan" else m.group(1) + "Infinity", ln)))
                except ValueError:
                    pass
    return out


def simulate(c, exe, d, params=None, phases=None, opts=(), timeout=120, env=None, extra="", keep=True):
    """One run in directory d.  Returns (returncode, events, stdout)."""
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "in.txt"), "w") as f:
        f.write(input_text(params, phases, extra))
    tr = os.path.join(d, "trace.ndjson")
    if os.path.exists(tr):
        os.unlink(tr)
    e = dict(SIM_TRACE=tr)
    e.update(env or {})
    rc, out, err = c.run([exe, "in.txt"] + list(opts), cwd=d, timeout=timeout, env=e)
    return rc, events(tr), out + err


def h5read(c, paths):
    """{file basename: {dataset: dict(n=, type=, v=[..])}} or {file: None} if unreadable."""
    from . import build
    exe = build.build_tool("h5json")
    rc, out, err = c.run([exe] + list(paths), timeout=120)
    res = {}
    for ln in out.splitlines():
        try:
            x = json.loads(ln)
        except ValueError:
            continue
        b = os.path.basename(x["file"])
        if x.get("error"):
            res[b] = None
        else:
            res.setdefault(b, {})[x["name"]] = dict(n=x["n"], type=x["type"], v=x["v"])
    return res
