"""C20: material behaviour of cells against spec/Constitutive."""
import random, shutil
from math import exp, log, sqrt, sin, cos
from .. import core, build, sims
from .c19 import J, ENV

ASSUME = ["unit cases use values whose results are exact: fractions in eighths, strain rates with integer invariants, exponents that are multiples of ln 2",
          "creep of single mechanisms is compared to about half a percent; grain size to about a percent, with a size exponent of one",
          "jumps of the published solidus curves at their joints (up to 10 K) are not counted as discontinuities; at pressures of zero and below nothing melts"]
LN2 = log(2.0)
fx = lambda v, u: core.fixp(v * u, 1)
F = lambda a, u: [fx(v, u) for v in a]


class Case:
    def __init__(self, nx, nz, np):
        self.nx, self.nz, self.np, self.nc, self.nv = nx, nz, np, (nx - 1) * (nz - 1), nx * nz
        self.t = ["grid %d %d %d" % (nx, nz, np)]

    def p(self, **k):
        self.t += ["p %s %r" % q for q in k.items()]

    def s(self, **k):
        self.t += ["s %s %r" % q for q in k.items()]

    def m(self, name, vals):
        self.t.append("m %s %s" % (name, J(vals)))

    def f(self, name, vals):
        self.t.append("f %s %s" % (name, J(["%r" % float(x) for x in vals])))

    def w(self, wc, wv):
        """Fractions in eighths, per cell and vertex."""
        self.t.append("w " + " ".join(J([q[i] / 8 for q in wc] + [q[i] / 8 for q in wv]) for i in range(self.np)))

    def types(self, tc, tv):
        self.t.append("c %s %s" % (J(tc), J(tv)))

    def go(self, call, fields):
        self.t += ["call " + call, "get " + fields]

    def text(self, get=True):
        return "\n".join(self.t) + "\n"


def split(rnd, n, tot=8):
    c = sorted(rnd.randint(0, tot) for _ in range(n - 1))
    w = [b - a for a, b in zip([0] + c, c + [tot])]
    if rnd.random() < 0.3:
        w = [0] * n
        w[rnd.randrange(n)] = tot
    return w


def size(rnd):
    return rnd.choice([(3, 3), (4, 3), (3, 5), (6, 4)])


def airy(rnd, k):
    """Types of cells and vertices; a rock column model with air above, possibly air at the corner."""
    if rnd.random() < 0.5:
        return [-1] * k.nc, [-1] * k.nv
    h = [rnd.randint(0, k.nz - 1) for _ in range(k.nx - 1)]
    if max(h) == 0:
        h[rnd.randrange(len(h))] = 1
    tc = [-1 if l < h[i] else 31 if l == h[i] else 30 for l in range(k.nz - 1) for i in range(k.nx - 1)]
    rock = lambda a, b: 0 <= a < k.nx - 1 and 0 <= b < k.nz - 1 and tc[a + b * (k.nx - 1)] == -1
    return tc, [-1 if any(rock(a, b) for a in (i - 1, i) for b in (l - 1, l)) else 30 for l in range(k.nz) for i in range(k.nx)]


def soft(rnd):
    k = Case(*size(rnd), rnd.randint(1, 3))
    np, smooth = k.np, rnd.random() < 0.35
    R = range(np)
    v = [[[rnd.randint(1, 40), rnd.randint(0, 40)] for _ in R] for _ in range(3)]
    on = [[int(rnd.random() < 0.75) for _ in R] for _ in range(3)]
    for j in range(3):         # the reader refuses softening without a difference
        for p in R:
            if v[j][p][0] == v[j][p][1]:
                v[j][p][1] = v[j][p][0] - 1
    ps = [rnd.choice([0, 0, 1, 4, 8, 12]) for _ in R]
    pe = [a + rnd.choice([1, 2, 4, 8, 16]) for a in ps]
    if smooth:
        ps, pe = [ps[0]] * np, [pe[0]] * np
    for j, (a, b, q) in enumerate((("phi", "phi_end", "phi_soft"), ("psi", "psi_end", "psi_soft"), ("C", "C_end", "coh_soft"))):
        k.m(a, [x[0] for x in v[j]]); k.m(b, [x[1] for x in v[j]]); k.m(q, on[j])
    if rnd.random() < 0.4:
        for j in range(3):
            for x in v[j]:
                x[1] = min(x[0] - 1, x[1])
            k.m(("phi_end", "psi_end", "C_end")[j], [x[1] for x in v[j]])
    k.m("pls_start", [x / 8 for x in ps]); k.m("pls_end", [x / 8 for x in pe])
    n = k.nc + k.nv
    z = [rnd.choice([0, rnd.randint(0, 40), ps[0], pe[0], pe[0] - 1, ps[0] + 1]) for _ in range(n)]
    tc, tv = airy(rnd, k)
    noise = [0] * n
    if smooth:
        tc, tv = [-1] * k.nc, [-1] * k.nv
        W0 = split(rnd, np)
        W = [W0] * n
        mid2, wd = ps[0] + pe[0], pe[0] - ps[0]
        z = sorted([0, (mid2 // 2), mid2 // 2 + 3 * wd + 3] + [rnd.randint(0, mid2 + 2 * wd) for _ in range(k.nc - 3)]) if k.nc > 3 else sorted([0, mid2 // 2, mid2, mid2 + 3 * wd][:k.nc])
        zv = sorted([0, mid2 // 2, mid2 // 2 + 3 * wd + 3] + [rnd.randint(0, mid2 + 2 * wd) for _ in range(k.nv - 3)])
        z = z + zv
        k.p(smooth_softening=1)
    else:
        W = [split(rnd, np) if t == -1 else [0] * np for t in tc + tv]
        if rnd.random() < 0.3:
            noise = [rnd.randint(-4, 4) for _ in range(n)]
            k.p(marker_noise=1)
    k.types(tc, tv)
    k.f("noise_n", [x / 8 for x in noise[:k.nc]]); k.f("noise_s", [x / 8 for x in noise[k.nc:]])
    k.w(W[:k.nc], W[k.nc:])
    pos = [(i + 0.5, l + 0.5) for l in range(k.nz - 1) for i in range(k.nx - 1)] + [(i, l) for l in range(k.nz) for i in range(k.nx)]
    k.t.append("k %d %s" % (n, " ".join("%r %r %r" % (a, b, q / 8) for (a, b), q in zip(pos, z))))
    k.go("soften", "fric_n,dil_n,C_n,fric_s,dil_s,C_s")
    q = [[dict(on=on[j][p], v0=1000 * v[j][p][0], v1=1000 * v[j][p][1]) for p in R] for j in range(3)]

    def out(x):
        r = [F(x[a + "_n"] + x[a + "_s"], 1000) for a in ("fric", "dil", "C")]
        if not smooth:
            return [dict(e="Soft", n=n, np=np, q=q, ps=ps, pe=pe, w=W, z=z, noise=noise, r=r)]
        L = []
        for lo, hi in ((0, k.nc), (k.nc, n)):
            L.append(dict(e="Smooth", n=hi - lo, np=np, q=q, w=W0, z=z[lo:hi], r=[a[lo:hi] for a in r], far=mid2 // 2 + 3 * wd + 1, width=wd, mid=mid2 // 2, sym=int(mid2 % 2 == 0)))
        return L
    return k, 1, lambda X: out(X[0])


def melt(rnd):
    k = Case(*size(rnd), rnd.randint(1, 3))
    np, nc = k.np, k.nc
    sT, sS, sJ = rnd.choice([1.0, 100.0, 1000.0, 8.0]), rnd.choice([1.0, 1e6, 1e9]), rnd.choice([1e5, 1e6])
    k.s(T=sT, S=sS, J=sJ)
    m = [rnd.choice([0, 1, 10, 11, 40, 41]) for _ in range(np)]
    heating = rnd.random() < 0.25
    if heating:
        m = [rnd.choice([1, 10, 11, 40, 41])] * np
    tau, dt = [rnd.choice([0, 0, 1, 3, 7]) for _ in range(np)], rnd.choice([1, 2, 5])
    k.p(dt=float(dt)); k.m("melt", m); k.m("tau_kin", tau)
    tc, tv = airy(rnd, k) if not heating else ([-1] * nc, [-1] * k.nv)
    if rnd.random() < 0.4:        # cells only: the corner cell may be air while others are rock
        tc[0] = -1 if heating else rnd.choice([30, -1])
    W = [split(rnd, np) if t == -1 else [0] * np for t in tc]
    W = W if not heating else [[8] + [0] * (np - 1)] * nc
    P = [rnd.choice([rnd.randint(1, 3000), rnd.randint(1, 12000), 1199, 1201, 1599, 1601, 9999, 10001, 1]) for _ in range(nc)]
    ks = [rnd.randint(-9, 40) for _ in range(nc)]
    if rnd.random() < 0.3:
        ks = [rnd.randint(20, 120) for _ in range(nc)]
    T = [873.15 + 10 * LN2 * x for x in ks]
    if heating:
        step = 0.5 if m[0] == 1 else rnd.choice([3.0, 17.0, 60.0])
        P = [P[0]] * nc
        t0 = rnd.uniform(800, 1300) if m[0] != 1 else rnd.uniform(868, 900)
        T = [t0 + step * i for i in range(nc)]
    old = [rnd.choice([0, 10000, 2500, 5000, 400]) for _ in range(nc)]
    tt = [x - rnd.randint(-2000, 2000) / 100 for x in T]
    if heating:
        old = [old[0]] * nc
        k.f("T0_n", [x / sT for x in tt])
    rho, rr, al, cp = [rnd.randint(1, 5) for _ in range(nc)], [rnd.randint(1, 5) for _ in range(np)], [rnd.randint(0, 3) for _ in range(np)], [rnd.randint(1, 9) for _ in range(np)]
    k.types(tc, tv); k.w(W, [[8] + [0] * (np - 1)] * k.nv)
    k.f("T", [x / sT for x in T]); k.f("T0_n", [x / sT for x in tt]); k.f("p_in", [x * 1e6 / sS for x in P]); k.f("phi0_n", [x / 1e4 for x in old]); k.f("rho_n", rho)
    k.m("alp", al); k.m("Cp", cp); k.m("rho", rr)
    k.go("melt", "phi_n"); k.go("source", "divth_n"); k.go("heat", "Cp,alp")

    def out(X):
        r = F(X[0]["phi_n"], 1e4)
        if heating:
            gap = {1: 60000, 10: 10000, 11: 10000, 40: 10000, 41: 10000}[m[0]]
            return [dict(e="Heating", n=nc, r=r, most=int(1e4 * 0.05) + 10 if m[0] == 1 else int(step * 100 * 1e4 / gap) + 2)]
        return [dict(e="Melt", n=nc, np=np, m=m, w=W, p=P, t=[round(100 * x) for x in T], tt=[round(100 * x) for x in tt], k=ks, old=old, tau=tau, dt=dt, r=r, cp=F(X[2]["Cp"], 100), cp0=[100 * x for x in cp],
                     al=F(X[2]["alp"], 100), al0=[x for x in al] if 0 else [100 * x for x in al], rr=rr, rho=rho, src=F(X[1]["divth_n"], sT * 1e4))]
    return k, 3, out


def density(rnd):
    k = Case(*size(rnd), rnd.randint(1, 3))
    np, nc = k.np, k.nc
    R = range(np)
    table = rnd.random() < 0.5
    md = [rnd.choice([0, 2, 2, 4, 4] if table else [0, 1, 1, 3, 3, 5]) for _ in R]
    var = int(not table and rnd.random() < 0.3)
    a, b = [rnd.choice([0, 1]) for _ in R], [rnd.choice([0, 1, 2]) for _ in R]
    f = [dict(m=md[p], rho=rnd.randint(1, 60) * 16, drho=rnd.randint(-8, 8) * 16, a=a[p], b=b[p], t0=rnd.randint(0, 2), p0=rnd.randint(0, 2), to=rnd.randint(1, np)) for p in R]
    for q in f:
        if q["m"] == 5:
            q["drho"] = -abs(q["drho"]) if abs(q["drho"]) < q["rho"] else 0
    k.p(density_variations=var)
    k.m("density_model", md); k.m("rho", [q["rho"] for q in f]); k.m("drho", [q["drho"] for q in f]); k.m("T0", [q["t0"] for q in f]); k.m("P0", [q["p0"] for q in f]); k.m("reac_phase", [q["to"] - 1 for q in f])
    k.m("alp", ["%r" % (q["a"] / 16 if q["m"] == 1 else q["a"] * LN2) for q in f]); k.m("bet", ["%r" % (q["b"] / 8 if q["m"] == 1 else q["b"] * LN2) for q in f])
    tc, tv = airy(rnd, k)
    W = [split(rnd, np) if t != 30 else [0] * np for t in tc]
    nt, nP = rnd.randint(2, 5), rnd.choice([3, 5, 7])
    tmin, dT, pmin, dP = rnd.choice([0.0, 273.0, 0.1, 500.0]), rnd.choice([1.0, 0.1, 0.3, 25.0, 7.7]), rnd.choice([0.0, 0.1, 1e5]), rnd.choice([1.0, 0.1, 0.7, 3e4])
    tab = [rnd.randint(0, 900) for _ in range(nt * nP)]
    n1 = (nP - 1) // 2 + 1
    tab1 = [rnd.randint(0, 900) for _ in range(n1)]
    tmax, pmax = tmin + dT * (nt - 1), pmin + dP * (nP - 1)
    k.t.append("t %r %r %r %r %d %d %s %r %r %d %s" % (tmin, tmax, pmin, pmax, nt, nP, J(tab), pmin, pmax, n1, J(tab1)))
    S, T, P, tol = [], [], [], []
    for c in range(nc):
        s = dict(t=rnd.randint(0, 2), p=rnd.randint(0, 2), x=rnd.randint(0, 8), f=rnd.randint(0, 8), ti=0, tq=0, pi=0, pq=0, di=0, dq=0)
        far = 0
        if table:
            z = rnd.random()
            ti, tq = divmod(rnd.choice([0, 8 * (nt - 1), rnd.randint(0, 8 * (nt - 1))]), 8)
            pi, pq = divmod(rnd.choice([0, 8 * (nP - 1), 2 * rnd.randint(0, 4 * (nP - 1))]), 8)
            T_, P_ = tmin + dT * (ti + tq / 8), pmin + dP * (pi + pq / 8)
            if ti == nt - 1:
                ti, tq, T_ = nt - 2, 8, tmax
            if pi == nP - 1:
                pi, pq, P_ = nP - 2, 8, pmax
            if z < 0.25:      # outside the table: within one hundredth of a cell of the edge
                far = 1
                if rnd.random() < 0.5:
                    ti, tq, T_ = rnd.choice([(0, 0, tmin - dT * 3.3), (nt - 2, 8, tmax + dT * 0.2)])
                else:
                    pi, pq, P_ = rnd.choice([(0, 0, pmin - dP * 0.1), (nP - 2, 8, pmax + dP * 9)])
            q = 8 * pi + pq
            di, dq = divmod(q // 2, 8)
            if di == n1 - 1:
                di, dq = n1 - 2, 8
            s.update(ti=ti, tq=tq, pi=pi, pq=pq, di=di, dq=dq)
            T.append(T_); P.append(P_)
        else:
            T.append(s["t"]); P.append(s["p"])
        S.append(s); tol.append(20 * 900 if far else 1)
    k.types(tc, tv); k.w(W, [[8] + [0] * (np - 1)] * k.nv)
    k.f("T", T); k.f("p_in", P); k.f("X_n", [s["x"] / 8 for s in S]); k.f("phi_n", [s["f"] / 8 for s in S])
    k.go("density", "rho_n")
    return k, 1, lambda X: [dict(e="Rho", n=nc, np=np, f=f, s=S, w=W, ty=tc, var=var, tab=tab, nt=nt, tab1=tab1, tol=tol, r=F(X[0]["rho_n"], 1024))]


def moduli(rnd):
    k = Case(*size(rnd), rnd.randint(1, 3))
    np, n = k.np, k.nc + k.nv
    per = int(rnd.random() < 0.4)
    tc, tv = airy(rnd, k) if not per else ([-1] * k.nc, [-1] * k.nv)
    W = [split(rnd, np) if t == -1 else [0] * np for t in tc + tv]
    ig, ib, al = [rnd.choice([1, 2, 4, 8]) for _ in range(np)], [rnd.choice([1, 2, 4, 8]) for _ in range(np)], [rnd.randint(0, 9) for _ in range(np)]
    k.p(periodic_x=per); k.m("G", [8 / x for x in ig]); k.m("bet", [1 / x for x in ib]); k.m("alp", al)
    k.types(tc, tv); k.w(W[:k.nc], W[k.nc:])
    k.go("moduli", "mu_n,bet_n,alp,mu_s,bet_s")
    avg, twin = [0] * n, [0] * n
    if per:
        for l in range(k.nz):
            a, b = k.nc + l * k.nx, k.nc + l * k.nx + k.nx - 1
            twin[a] = b + 1
            if W[a] != W[b]:
                avg[a] = avg[b] = 1
    return k, 1, lambda X: [dict(e="Moduli", n=n, np=np, w=W, ig=ig, ib=ib, al=[1000 * x for x in al], avg=avg, twin=twin, g=F(X[0]["mu_n"] + X[0]["mu_s"], 1000), b=F(X[0]["bet_n"] + X[0]["bet_s"], 8000), a=F(X[0]["alp"], 1000) + [-1] * k.nv)]


TRI = [(3, -3, 4, 5), (3, 5, 0, 7), (-8, 3, 0, 7), (3, 5, 24, 25), (5, -5, 12, 13), (1, -1, 0, 1), (7, 8, 0, 13), (0, 0, 2, 2), (-4, 4, 3, 5), (0, 0, -1, 1)]
FRI = [(1, 0, 1), (4, 3, 5), (12, 5, 13), (3, 4, 5), (24, 7, 25), (35, 12, 37)]
U = 1000


def laws_of(rnd, np, exps):
    """Flow laws per phase: kind, base 2^j, power n and the exponents of temperature, pressure, grain size, fugacity and melt (multiples of ln 2)."""
    out = []
    for _ in range(np):
        kinds = rnd.choice([["cst"], ["pwl"], ["cst", "pwl"], rnd.sample(["cst", "pwl", "lin", "gbs"], rnd.randint(1, 2)), [rnd.choice(["cst", "pwl", "lin"]), "exp"]])
        L = []
        for kd in kinds:
            n = rnd.choice([1, 2, 3]) if kd in ("pwl", "gbs") else rnd.choice([2, 3]) if kd == "exp" else 1
            z = [0] * 5 if kd in ("cst", "exp") or not exps else [rnd.choice([0, 0, 2, -2]), rnd.choice([0, 0, 1]), rnd.choice([0, 0, 2]), rnd.choice([0, 0, 1]), rnd.choice([0, 0, 1])]
            L.append([kd, rnd.randint(-1, 2), n, z])
        out.append(L)
    return out


def put_laws(k, laws, T, rnd):
    np = len(laws)
    # low-temperature creep: rate = E exp(-Q/RT (1-g)^2) (stress / g S)^ST stress^n in terms of invariants of an axial test, with ST = 2 g (1-g) Q/RT; N = ST + n
    q = []
    for L in laws:
        l = next((l for l in L if l[0] == "exp"), [0, 0, 2])
        st, g, S, N = rnd.choice([0.5, 1.0]), rnd.choice([0.25, 0.5]), rnd.choice([1.0, 4.0]), l[2]
        Q = st * T / (2 * g * (1 - g))
        Fc = (2 ** (1.0 - N) / sqrt(3.0) ** (N + 1)) ** (1.0 / N)
        q.append((Q, S, (Fc / 2.0 ** l[1]) ** N * (g * S) ** st / exp(-Q / T * (1 - g) ** 2), g, N - st, int(l[0] == "exp")))
    for j, nm in enumerate(("Qexp", "Sexp", "Eexp", "Gexp", "nexp")):
        k.m(nm, ["%r" % x[j] for x in q])
    k.m("expv", [x[5] for x in q])
    for kd in ("cst", "pwl", "lin", "gbs"):
        q = [next((l for l in L if l[0] == kd), None) for L in laws]
        k.m(kd + "v", [int(l is not None) for l in q])
        if kd == "cst":
            k.m("eta0", [2.0 ** l[1] if l else 1.0 for l in q])
            continue
        col = lambda f, d: ["%r" % (float(f(l)) if l else d) for l in q]
        k.m("n" + kd, col(lambda l: l[2], 1.0)); k.m("A" + kd, col(lambda l: (2.0 ** l[1]) ** -l[2], 1.0)); k.m("Q" + kd, col(lambda l: l[2] * LN2 * 512 * l[3][0], 0.0)); k.m("V" + kd, col(lambda l: l[2] * LN2 * 512 * l[3][1], 0.0))
        k.m("m" + kd, col(lambda l: l[2] * l[3][2] / 2, 0.0)); k.m("f" + kd, ["2.0"] * np); k.m("r" + kd, col(lambda l: l[2] * l[3][3], 0.0)); k.m("a" + kd, col(lambda l: l[2] * LN2 * l[3][4], 0.0))


def base2(l, T, P, d, phi):
    q, v, m, r, a = l[3]
    return l[1] + ((q + v * P) * 512) // T + (m if d == 4 else 0) - r - a * phi


def visc(rnd, mix=False):
    """Cells with their own strain rate, old stress, moduli and strength; temperature, pressure, grain size and melt are uniform so that vertices see the same."""
    while True:
        k = Case(rnd.choice([3, 4]), rnd.choice([3, 4, 5]), 2 if mix else rnd.randint(1, 2))
        np, nc = k.np, k.nc
        exps, react = rnd.random() < 0.5, rnd.random() < 0.2
        exps = exps and not react
        laws = laws_of(rnd, np, exps)
        v = any(l[3][1] for L in laws for l in L)
        T, d, phi = 512 if v else rnd.choice([512, 1024]) if exps else rnd.choice([512, 1024, 1024, 2048]), rnd.choice([1, 4]), rnd.choice([0, 1])
        P = rnd.choice([0, 1, 2]) if v else rnd.choice([-8, -3, -1, 0, 1, 5, 20, 3])
        if all(-3 <= base2(l, T, P, d, phi) <= 4 for L in laws for l in L):
            break
    step, el = rnd.choice([0, 1, 1, 1]), int(rnd.random() < 0.6)
    dt, S = rnd.choice([1, 2, 4]), rnd.choice([1e5, 4e5, 1e8])
    elon = el and step > 0
    plast = [int(rnd.random() < 0.6) for _ in range(np)] if not mix else [int(rnd.random() < 0.3)] * 2
    evp = [rnd.choice([0, 0, 1, 2]) for _ in range(np)]
    lim = [rnd.choice([10 ** 6, 10 ** 6, 12, 30]) for _ in range(np)]
    avg = rnd.choice([0, 1, 2])
    tauk, dts = rnd.choice([0, 1, 3]), dt if step else 10 ** 100
    k.p(step=step, elastic=el, dt=float(dt), eta_average=avg, chemical_production=int(react)); k.s(S=S)
    put_laws(k, laws, T, rnd)
    k.m("plast", [0] * np); k.m("eta_vp", evp); k.m("Slim", [float(x) for x in lim]); k.m("reac_soft", [1] * np); k.m("reac_phase", list(range(np))); k.m("tau_kin", [tauk] * np); k.m("dPr", [0.01] * np)
    where = rnd.choice([-1, 0, 1])          # of the pressure with respect to the reaction
    k.m("Pr", [P - where] * np)
    grp = 3 if mix else 1
    S_ = []
    for c in range(nc):
        if mix and c % 3:
            S_.append(S_[-1]); continue
        tr, sc = rnd.choice(TRI), rnd.choice([1, 1, 2, 4]) if True else 1
        if tr[3] * sc > 30:
            sc = 1
        G, old = rnd.choice([1, 2, 4, 8]), [rnd.choice([0, 0, rnd.randint(-4, 4)]) for _ in range(3)]
        fr = rnd.choice(FRI)
        di = rnd.choice([f for f in FRI if f[1] * fr[2] <= fr[1] * f[2]])
        S_.append(dict(E=[x * sc for x in tr], G=G, old=old if rnd.random() < 0.5 else [0, 0, 0], fr=fr, di=di, C=rnd.choice([0, 1, 4, 10, 25]), K=rnd.choice([0, 1, 2, 8]), X0=rnd.randint(0, 8), ph=rnd.randrange(np)))
    w = rnd.randint(1, 7)
    W = [[8 if p == (c % 3) else 0 for p in range(2)] if c % 3 < 2 else [w, 8 - w] for c in range(nc)] if mix else [[8 if p == s["ph"] else 0 for p in range(np)] for s in S_]
    vm = [min(i, k.nx - 2) + min(l, k.nz - 2) * (k.nx - 1) for l in range(k.nz) for i in range(k.nx)]     # the cell whose state a vertex copies
    k.w(W, [W[c] for c in vm])
    for nm, val in (("T", T), ("p_in", P), ("d0_n", d), ("phi0_n", phi)):
        k.f(nm, [val] * nc)
    ex = lambda s, j: s["E"][j] - (s["old"][j] / (2 * s["G"] * dt) if el else 0)
    both = lambda a, b, f: (k.f(a, [f(s) for s in S_]), k.f(b, [f(S_[c]) for c in vm]))
    both("exxd", "exxd_s", lambda s: ex(s, 0)); both("ezzd", "ezzd_s", lambda s: ex(s, 1)); both("exz_n", "exz", lambda s: ex(s, 2))
    both("sxxd0", "sxxd0_s", lambda s: s["old"][0]); both("szzd0", "szzd0_s", lambda s: s["old"][1]); both("sxz0_n", "sxz0", lambda s: s["old"][2])
    both("mu_n", "mu_s", lambda s: s["G"]); both("bet_n", "bet_s", lambda s: 1 / s["K"] if s["K"] else 1e30); both("X0_n", "X0_s", lambda s: s["X0"] / 8)
    from math import atan2
    both("fric_n", "fric_s", lambda s: atan2(s["fr"][1], s["fr"][0])); both("dil_n", "dil_s", lambda s: atan2(s["di"][1], s["di"][0])); both("C_n", "C_s", lambda s: s["C"])
    k.f("p0_n", [P] * nc)
    FLD = "eta_n,eta_s,eta_phys_n,sxxd,szzd,sxz_n,sxxd_s,szzd_s,sxz,eII_el,eII_pl,eII_pwl,eII_lin,eII_gbs,eII_exp,eII_cst,p_corr,div_u_pl,div_u_el,OverS_n,X_n"
    k.go("viscosity 0", FLD)
    lo, hi = rnd.choice([(1e-9, 1e9), (1e-9, 1e9), (rnd.choice([0.25, 0.5, 1.0]), rnd.choice([1.0, 2.0, 8.0]))])
    k.m("plast", plast); k.p(min_eta=float(lo), max_eta=float(hi))
    k.go("viscosity 0", FLD)
    fin = int(rnd.random() < 0.5)

    def out(X):
        a, b = X
        if mix:
            L = []
            for c in range(0, nc - 2, 3):
                for x in (a, b):
                    for nm in ("eta_n", "eta_phys_n"):
                        v = F([x[nm][c + j] for j in range(3)], U)
                        if min(v) > 300:
                            L.append(dict(w=w, v=v, ends=[], lin=[F([x[n_][c + j] for j in range(3)], U) for n_ in ("eII_cst", "eII_pwl", "eII_pl", "p_corr", "div_u_pl", "div_u_el", "OverS_n", "X_n")]))
            return [dict(e="Mix", n=len(L), avg=avg, s=L)]
        L = []
        for c in range(nc):
            s = S_[c]
            p, E = s["ph"], s["E"][3]
            M = [dict(b=(2 ** z if z >= 0 else -2 ** -z), n=l[2]) for l in laws[p] if l[0] != "exp" or T < 1200 for z in [base2(l, T, P, d, phi)]]
            part = [fx(a["eII_" + l[0]][c], U) for l in laws[p] if l[0] != "exp" or T < 1200]
            if elon:
                M.append(dict(b=s["G"] * dt, n=1))
            ve, eta, g = a["eta_n"][c], b["eta_n"][c], 2 * b["eII_pl"][c]
            cut = eta <= lo * (1 + 1e-12) or eta >= hi * (1 - 1e-12)
            Tt = 2 * eta * E if not cut else 2 * ve * E - ve * g
            Xe = s["X0"] / 8 if not react else ((s["X0"] / 8 * tauk - 0.5 * dt * (2 if where < 0 else 1 if where == 0 else 0)) + dt) / (dt + tauk) if step else 1 - (2 if where < 0 else 1 if where == 0 else 0) / 2
            v = [i for i in range(k.nv) if vm[i] == c][0]
            dil = s["di"] if elon else (1, 0, 1)
            L.append(dict(mech=M, part=part, ve=fx(ve, U), T=fx(2 * ve * s["E"][3], U), E=fx(E, U), C=s["C"] * U, P=P * U, fr=list(s["fr"]), lim=lim[p] * U, gpl=fx(g / 2, U), Tt=fx(Tt, U), pl=plast[p], eta=fx(eta, U), etap=fx(b["eta_phys_n"][c], U), lo=fx(lo, U), hi=fx(min(hi, 2e6), U),
                          over=fx(b["OverS_n"][c], U), pc=fx(b["p_corr"][c], U), dpl=fx(b["div_u_pl"][c], U), evp=evp[p] * U, di=[dil[1], dil[2]], K=s["K"] * U * dt if elon else 0, tmin=fx(1e5 / S, U),
                          t=[fx(b[n_][c], U) for n_ in ("sxxd", "szzd", "sxz_n")], tv=[fx(b[n_][v], U) for n_ in ("sxxd_s", "szzd_s", "sxz")], d=[x * U for x in s["E"][:3]], etav=fx(b["eta_s"][v], U), X=fx(b["X_n"][c], U), Xe=fx(Xe, U)))
        return [dict(e="Visc", n=len(L), s=L)]
    return k, 2, out


def blend(rnd):
    """Diffuse contrast: the viscosity of a phase mixed with its partner by the reaction progress."""
    k = Case(4, 4, 2)
    avg, w = rnd.choice([0, 1, 2]), rnd.choice([4, 4, rnd.randint(1, 7)])
    e = [2.0 ** rnd.randint(-3, 5), 2.0 ** rnd.randint(-3, 5)]
    k.p(diffuse_X=1, diffuse_avg=avg, step=1); k.m("cstv", [1, 1]); k.m("eta0", e); k.m("phase_mix", [1, 0]); k.m("phase_two", [1, 0])
    k.w([[8, 0]] * k.nc, [[8, 0]] * k.nv)
    for nm, val in (("T", 512), ("p_in", 1), ("d0_n", 1), ("mu_n", 1), ("bet_n", 1)):
        k.f(nm, [val] * k.nc)
    k.f("mu_s", [1] * k.nv); k.f("bet_s", [1] * k.nv); k.f("exxd", [1] * k.nc); k.f("ezzd", [-1] * k.nc); k.f("exz", [1] * k.nv)
    k.f("X0_n", [(1, 0, w / 8)[c % 3] for c in range(k.nc)])
    k.go("viscosity 0", "eta_n")
    return k, 1, lambda X: [dict(e="Mix", n=k.nc // 3, avg=avg, s=[dict(w=w, v=F(X[0]["eta_n"][c:c + 3], U), ends=F(e, U), lin=[]) for c in range(0, k.nc - 2, 3)])]


def grain(rnd):
    """Grain size in balance with the power of dislocation creep, diffusion creep with the grain size so found."""
    k = Case(rnd.choice([3, 4]), rnd.choice([3, 4]), 1)
    n, m = rnd.choice([(1, 1), (2, 1), (1, 2)])      # stronger ones may end with the message that the iterations failed
    bp, bl, c0, T = rnd.randint(-1, 2), rnd.randint(-1, 2), rnd.choice([None, 1, 3]), rnd.choice([512, 1024])
    el, step, dt = int(rnd.random() < 0.5), 1, rnd.choice([1, 2])
    q, ka, lam, gam, cg = rnd.choice([0, 0, 2]), rnd.randint(-1, 3), rnd.choice([0.5, 1.0]), rnd.choice([1.0, 2.0]), rnd.choice([1.0, 3.0])
    k.p(step=step, elastic=el, dt=float(dt), eta_average=rnd.choice([0, 1, 2]))
    k.m("pwlv", [1]); k.m("npwl", [float(n)]); k.m("Apwl", ["%r" % (2.0 ** bp) ** -n]); k.m("linv", [1]); k.m("nlin", [1.0]); k.m("mlin", [float(m)]); k.m("Alin", ["%r" % 2.0 ** -bl])
    k.m("cstv", [int(c0 is not None)]); k.m("eta0", [2.0 ** (c0 or 0)])
    k.m("gs", [40]); k.m("ppzm", [1.0]); k.m("Gpzm", [gam]); k.m("Lpzm", [lam]); k.m("cpzm", [cg]); k.m("Kpzm", ["%r" % (2.0 ** ka * lam / cg / gam * exp(q))]); k.m("Qpzm", ["%r" % float(q * T)])
    G = rnd.choice([1, 2, 4, 8])
    E = [tuple(x * sc for x in rnd.choice(TRI)) for _ in range(k.nc) for sc in [rnd.choice([1, 1, 2])]]
    E = [t if t[3] <= 14 else TRI[7] for t in E]
    k.w([[8]] * k.nc, [[8]] * k.nv)
    for nm, val in (("T", T), ("p_in", 0), ("d0_n", 3), ("mu_n", G), ("bet_n", 1e30)):
        k.f(nm, [val] * k.nc)
    k.f("mu_s", [G] * k.nv); k.f("bet_s", [1e30] * k.nv)
    for j, a, b in ((0, "exxd", "exxd_s"), (1, "ezzd", "ezzd_s"), (2, "exz_n", "exz")):
        k.f(a, [t[j] for t in E]); k.f(b, [TRI[7][j]] * k.nv)
    k.go("viscosity 0", "eta_n,eII_el,eII_pwl,eII_lin,eII_cst,d_n")
    b2 = lambda z: 2 ** z if z >= 0 else -2 ** -z

    def out(X):
        a, L = X[0], []
        for c in range(k.nc):
            M = [dict(b=b2(bp), n=n)] + ([dict(b=b2(c0), n=1)] if c0 is not None else []) + ([dict(b=G * dt, n=1)] if el else [])
            part = [fx(a["eII_" + l][c], U) for l in (["pwl", "cst"] if c0 is not None else ["pwl"])]
            L.append(dict(mech=M, part=part, lin=fx(a["eII_lin"][c], U), bl=b2(bl), m=m, d=fx(a["d_n"][c], U), k=fx(2.0 ** ka, U), E=fx(E[c][3], U), ve=fx(a["eta_n"][c], U), T=fx(2 * a["eta_n"][c] * E[c][3], U)))
        return [dict(e="Grain", n=len(L), s=L)]
    return k, 1, out


GEN = [soft, grain, melt, density, moduli, visc, visc, visc, lambda r: visc(r, True), blend]


def group(c, exe, part):
    txt, n = "".join(k.text() for k, _, _ in part), sum(q for _, q, _ in part)
    v, out = c.drive(exe, txt, n, what="rheo", env=ENV), []
    for _, q, f in part:
        out += f(v[:q]); v = v[q:]
    return out


PL = dict(plast=1, C=0.5, phi=20.0, G=1.0)
RUNS = [
    ("plain", dict(Nt=2), [dict(pwlv=1, cstv=0, npwl=3.0), dict(eta0=50.0)], []),
    ("cutoffs", dict(Nt=2, min_eta=0.4, max_eta=3.0, eta_average=1), [dict(eta0=0.1), dict(eta0=10.0)], []),
    ("geometric", dict(Nt=2, eta_average=2, Nx=8), [dict(pwlv=1, npwl=3.0), dict(eta0=30.0)], ["phase=checker"]),
    ("yield", dict(Nt=4, elastic=1, dt=0.1, nit_max=4, bkg_strain_rate=-1.0), [dict(PL), dict(PL, eta0=0.2)], []),
    ("soften", dict(Nt=9, elastic=1, dt=0.1, nit_max=4), [dict(PL, eta0=100.0, coh_soft=1, C=1.2, Ce=0.1, phi_soft=1, phie=5.0, plss=0.02, plse=0.2), dict(PL, C=0.2, eta0=0.1)], []),
    ("viscoplastic", dict(Nt=4, elastic=1, compressible=1, dt=0.2, nit_max=5), [dict(PL, eta_vp=0.1, eta0=100.0, psi=5.0), dict(eta0=0.1, G=1.0)], ["bcp=1.0"]),
    ("limit", dict(Nt=2, nit_max=4, bkg_strain_rate=-3.0), [dict(PL, Slim=1.0, eta0=100.0, C=0.9), dict(eta0=0.1)], []),
    ("surface", dict(Nt=3, elastic=1, dt=0.05, free_surface=1, free_surface_stab=1.0, zmin=-1.5, zmax=0.5, gz=-1.0, bkg_strain_rate=-0.5), [dict(PL, C=0.1), dict(PL, eta0=0.5)], ["topo=sine", "topo_A=0.1"]),
]
FLDS = "eta_n,eta_s,eta_phys_n,C_n,fric_n,C_s,fric_s,dil_n,sxxd,szzd,sxz_n,p_corr,p_in,OverS_n,eII_pl,rho_n,BCp.type,BCg.type,phi_n,phase_perc_n"


def bounds(c, sim, name, p, ph, o):
    """The material state of a run at the end of each step's nonlinear iterations."""
    d = c.dir("r-" + name)
    shutil.rmtree(d, ignore_errors=True)
    rc, ev, out = sims.simulate(c, sim, d, p, ph, opts=o + ["dump=solved", "fields=" + FLDS])
    D = [e for e in ev if e["event"] == "Dump"]
    if rc != 0 or len(D) < p["Nt"]:
        raise core.CodeFailure("run %s: rc=%s, %d states %s" % (name, rc, len(D), out[-300:]))
    P = [dict(a, **(ph[i] if i < len(ph) else {})) for i, a in enumerate(sims.PHASE)]
    K, L, yielded = 10000, [], 0
    lo, hi = p["min_eta"], p["max_eta"]
    ends = lambda a, z, q: (min([x[a] for x in P] + [x.get(z, x[a]) for x in P if x.get(q)]), max([x[a] for x in P] + [x.get(z, x[a]) for x in P if x.get(q)]))
    rad = lambda t: tuple(x * 3.14159265358979 / 180 for x in t)

    def rec(what, v, a, b, tol=2):
        return dict(what=what, v=[core.fixp(x, K) for x in v], lo=[core.fixp(x, K) for x in a], hi=[core.fixp(x, K) for x in b], tol=tol)
    for e in D:
        W = [e["phase_perc_n%d" % q] for q in range(len(P))]
        of = lambda i: P[max(range(len(P)), key=lambda q: W[q][i])]
        cells, verts = [i for i, t in enumerate(e["BCp.type"]) if t not in (30, 31)], [i for i, t in enumerate(e["BCg.type"]) if t != 30]
        at = lambda f, ix: [e[f][i] for i in ix]
        B = []
        for f, ix in (("eta_n", cells), ("eta_s", verts), ("eta_phys_n", cells)):
            B.append(rec("viscosity between the cut-offs", at(f, ix), [lo] * len(ix), [hi] * len(ix)))
        if max(x.get("C", 0) for x in P) < 1e5:
            for f, ix, (a, b) in (("C_n", cells, ends("C", "Ce", "coh_soft")), ("C_s", verts, ends("C", "Ce", "coh_soft")), ("fric_n", cells, rad(ends("phi", "phie", "phi_soft"))), ("fric_s", verts, rad(ends("phi", "phie", "phi_soft")))):
                B.append(rec("strength between its ends", at(f, ix), [a] * len(ix), [b] * len(ix)))
        T = [sqrt(0.5 * (a * a + b * b + (a + b) ** 2) + s * s) for a, b, s in zip(e["sxxd"], e["szzd"], e["sxz_n"])]
        pure = [i for i in cells if max(q[i] for q in W) > 1 - 1e-9 and of(i).get("plast") and e["eta_n"][i] > lo * (1 + 1e-9)]
        if pure:
            Y = [min(of(i).get("Slim", 1e9), e["C_n"][i] * cos(e["fric_n"][i]) + e["p_corr"][i] * sin(e["fric_n"][i])) + e["OverS_n"][i] for i in pure]
            Y = [max(y, 0) if y > 0 else 1e5 for y in Y]          # in tension the limit is the minimum stress of the unit cases, 1e5 Pa
            B.append(rec("stress within the yield surface", [T[i] for i in pure], [0] * len(pure), Y, 20))
            yielded += sum(1 for i in pure if e["eII_pl"][i] > 0)
        B.append(rec("plastic strain rate is not negative", at("eII_pl", cells), [0] * len(cells), [1e5] * len(cells), 0))
        L.append(dict(e="Bound", b=[dict(b, v=b["v"]) for b in B if b["v"]]))
    if any(x.get("plast") for x in P) and yielded == 0:
        raise core.CodeFailure("run %s: nothing yielded" % name)
    return L


def run(c):
    c.assumptions = ASSUME
    for kd in ("soft", "melt", "table", "load", "creep"):
        c.model("Constitutive_MC", "Constitutive_" + kd, workers=4)
    for mu in ("MutOvershoot", "MutComma", "MutSum"):
        c.model_violates("Constitutive_MC", "Constitutive_" + mu)
    exe = build.build_driver("rheo", "asan")
    rnd = random.Random(c.seed * 20 + 3)
    cases = [rnd.choice(GEN)(rnd) for _ in range(900 if c.quick else 14000)]
    items = []
    for b in range(0, len(cases), 60):
        items.append(("cases:%d" % b, lambda part=cases[b:b + 60]: group(c, exe, part)))
    sim = build.build_driver("sim")
    for name, q, ph, o in RUNS:
        p = dict(sims.BASE, writer=0, Nx=9, Nz=9)
        p.update(q)
        items.append(("run:" + name, lambda p=p, o=o, name=name, ph=ph: bounds(c, sim, name, p, ph, o)))
    c.conform_batch(items, "Constitutive_Trace", size=3)
    if not c.violations:
        ev = [x for b in items[:6] for x in b[1]()]

        def spoil(kind, f):
            s = [x for x in ev if x["e"] == kind and f(x, False)][:1]
            c.corrupted_rejected("Constitutive_Trace", s, lambda t: f(t[0], True))

        def eta(x, do):
            s = [y for y in x["s"] if y["gpl"] > 200 and y["evp"] == 0 and y["lo"] == 0]
            if s and do:
                s[0]["Tt"] += s[0]["Tt"] // 10
            return s

        def rho(x, do):
            r = [i for i in range(x["n"]) if x["tol"][i] == 1 and x["r"][i] > 0]
            if r and do:
                x["r"][r[0]] += 20
            return r

        def sof(x, do):
            r = [i for i in range(x["n"]) if sum(x["w"][i]) > 0]
            if r and do:
                x["r"][2][r[-1]] += 60
            return r

        def mel(x, do):
            r = [i for i in range(x["n"]) if 0 < x["r"][i] < 10000]
            if r and do:
                x["r"][r[0]] += 40
            return r
        for kind, f in (("Visc", eta), ("Rho", rho), ("Soft", sof), ("Melt", mel)):
            spoil(kind, f)
