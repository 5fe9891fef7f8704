#!/usr/bin/env python3
"""spec/input_table.txt -> spec/InputTable.tla (the oracle) and harness/input_fields.h (the fields the driver reports)."""
import math, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
#            kg  m  s  K
DIM = {"1": (0, 0, 0, 0), "L": (0, 1, 0, 0), "t": (0, 0, 1, 0), "K": (0, 0, 0, 1), "eta": (1, -1, -1, 0), "Pa": (1, -1, -2, 0), "1/t": (0, 0, -1, 0), "1/Pa": (-1, 1, 2, 0), "1/K": (0, 0, 0, -1),
       "L/t": (0, 1, -1, 0), "L/t2": (0, 1, -2, 0), "L2/t": (0, 2, -1, 0), "rho": (1, -3, 0, 0), "Cp": (0, 2, -2, -1), "k": (1, 1, -3, -1), "Qr": (1, -1, -3, 0), "J": (1, 2, -2, 0), "J/K": (1, 2, -2, -1)}
def num(x):
    if x == 0: return (0, 0)
    m, e = math.frexp(x); m = round(m * 2**30)
    if abs(m) == 2**30: m //= 2; e += 1
    return (m, e)
def rows():
    for l in open(V + "/spec/input_table.txt"):
        if l.strip() and l[0] != "#":
            w, k, f, t, d, u = l.split(); yield dict(w=w, k=k, f=f, t=t, d=d, u=u)
def tla():
    out = ["---- MODULE InputTable ----", "(* Generated by tools/gen_input_table.py from input_table.txt: do not edit. Reals are <<m, e>>, the value being m * 2^(e-30). *)", "EXTENDS Integers"]
    for name, sel in (("RunT", lambda r: r["w"] != "phase"), ("MatT", lambda r: r["w"] == "phase")):
        rs = []
        for r in rows():
            if sel(r):
                d = ('"%s"' % r["d"][1:] if r["d"][0] == "@" else r["d"] if r["t"] == "int" else '"%s"' % r["d"] if r["t"] == "str" else "<<%d, %d>>" % num(float(r["d"])))
                rs.append('  [f |-> "%s", k |-> "%s", t |-> "%s", alias |-> %s, d |-> %s, u |-> <<%d, %d, %d, %d>>]' % (r["f"], r["k"], r["t"], "TRUE" if r["d"][0] == "@" else "FALSE", d, *DIM[r["u"]]))
        out.append(name + " == <<\n" + ",\n".join(rs) + " >>")
    laws = {}
    for l in open(V + "/spec/flow_laws.txt"):
        if l.strip() and l[0] != "#":
            w = l.split(); laws.setdefault(w[0], {})[int(w[1])] = [float(x) for x in w[2:]]
    out.append("(* n: hundredths of the stress, grain-size and fugacity exponents *)")
    for kind, t in laws.items():
        h = lambda v: {"expv": (v[7] if len(v) > 7 else 0, 0, 0), "gs": (v[0], v[0], 0), "kin": (0, 0, 0)}.get(kind, tuple(v[1:4]))
        out.append("Law_%s == [i \\in {%s} |-> CASE " % (kind, ", ".join(str(i) for i in t)) + "\n  [] ".join("i = %d -> [n |-> <<%s>>, v |-> <<%s>>]" % (
            i, ", ".join(str(round(x * 10000)) for x in h(v)), ", ".join("<<%d, %d>>" % num(x) for x in v)) for i, v in t.items()) + "]")
    return "\n".join(out) + "\n====\n"
def header():
    st = {"run": "model.", "nonlinear": "Nmodel.", "markers": "particles.", "phase": "materials."}
    f = lambda r: "%s(%s%s)" % ({"int": "I", "str": "S"}.get(r["t"], "R"), st[r["w"]], r["f"] + ("[k]" if r["w"] == "phase" else ""))
    j = lambda p: " \\\n  ".join(f(r) for r in rows() if (r["w"] == "phase") == p)
    return "/* generated by tools/gen_input_table.py */\n#define RUN_FIELDS \\\n  %s\n#define MAT_FIELDS \\\n  %s\n" % (j(False), j(True))
if __name__ == "__main__":
    open(V + "/spec/InputTable.tla", "w").write(tla()); open(V + "/harness/input_fields.h", "w").write(header())
