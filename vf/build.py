"""Builds libmdoodz and the conformance drivers from /repo's current working tree.

Everything goes to /verif/build/<variant>/ (git-ignored).  Sources are taken from MDLIB/CMakeLists.txt
(add_library(mdoodz ...)); nothing is written to /repo.
"""
import fcntl, functools, os, re, subprocess, sys, hashlib, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MDZ_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = ["-I" + os.path.join(REPO, "MDLIB/include"), "-I" + os.path.join(REPO, "MDLIB"),
       "-I/usr/include/suitesparse", "-I/usr/include/hdf5/serial"]
LIBS = ["-lamd", "-lccolamd", "-lcolamd", "-lcholmod", "-lbtf", "-lcxsparse", "-lumfpack",
        "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lm", "-ldl", "-lpthread"]
VARIANTS = {
    "plain": ["-g", "-O1", "-fno-inline", "-fno-omit-frame-pointer", "-ffp-contract=off"],
    "omp": ["-g", "-O1", "-fno-inline", "-ffp-contract=off", "-fopenmp", "-D_OMP_"],
    "asan": ["-g", "-O1", "-fno-inline", "-fno-omit-frame-pointer", "-ffp-contract=off",
             "-fsanitize=address,bounds", "-fno-sanitize-recover=all"],
    # every access to memory seen by harness/omprt.c, which also plays the OpenMP run time
    "race": ["-g", "-O1", "-fno-inline", "-ffp-contract=off", "-fopenmp", "-D_OMP_", "-fsanitize=thread"],
}
WRAP = ["-Wl,--wrap=" + f for f in ("free", "realloc", "memcpy", "memmove", "memset")]


class BuildError(Exception):
    pass


def lib_sources():
    txt = open(os.path.join(REPO, "MDLIB/CMakeLists.txt")).read()
    m = re.search(r"add_library\s*\(\s*mdoodz\s+\w+([^)]*)\)", txt)
    src = [s for s in (m.group(1).split() if m else []) if s.endswith(".c")]
    src = [os.path.join(REPO, "MDLIB", s) for s in src]
    src = [s for s in src if os.path.exists(s)]
    if not src:
        raise BuildError("no sources found in MDLIB/CMakeLists.txt")
    return src


def _run(cmd):
    """the output appears complete or not at all"""
    cmd = list(cmd)
    k = cmd.index("-o") + 1
    out, cmd[k] = cmd[k], "%s.%d.tmp" % (cmd[k], os.getpid())
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    os.replace(cmd[k], out)


_lock, _depth = threading.RLock(), [0]


def locked(f):
    """one build at a time, among the threads of a check and among checks"""
    @functools.wraps(f)
    def g(*a, **k):
        with _lock:
            if _depth[0]:
                return f(*a, **k)
            os.makedirs(BUILD, exist_ok=True)
            with open(os.path.join(BUILD, ".lock"), "w") as h:
                fcntl.flock(h, fcntl.LOCK_EX)
                _depth[0] = 1
                try:
                    return f(*a, **k)
                finally:
                    _depth[0] = 0
    return g


def _key(paths, flags):
    h = hashlib.sha1(" ".join(flags).encode())
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()


def headers():
    out = []
    for d in ("MDLIB", "MDLIB/include"):
        d = os.path.join(REPO, d)
        out += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".h")]
    return out


@locked
def build_lib(variant="plain"):
    flags = ["-w", "-std=gnu11", "-fPIC", "-DNPARTITION"] + VARIANTS[variant] + INC
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    hdr = headers()
    jobs = []
    objs = []
    for s in lib_sources():
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        k = _key([s] + hdr, flags)
        kf = o + ".key"
        if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == k:
            continue
        jobs.append((s, o, k, kf))

    def one(j):
        s, o, k, kf = j
        _run(["gcc", "-c"] + flags + [s, "-o", o])
        open(kf, "w").write(k)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    lib = os.path.join(d, "libmdoodz.so")
    rt = []
    if variant == "race":
        rs, ro = os.path.join(VERIF, "harness", "omprt.c"), os.path.join(d, "omprt.o")
        k = _key([rs], ["rt"])
        if not os.path.exists(ro) or not os.path.exists(ro + ".key") or open(ro + ".key").read() != k:
            _run(["gcc", "-c", "-w", "-O2", "-fPIC", "-fno-builtin-memcpy", rs, "-o", ro])
            open(ro + ".key", "w").write(k)
            jobs = jobs or [None]
        rt = [ro]
    if jobs or not os.path.exists(lib):
        extra = [f for f in VARIANTS[variant] if f.startswith("-fsan") or f == "-fopenmp"]
        if variant == "race":
            extra = WRAP + rt
        _run(["gcc", "-shared", "-o", lib] + objs + extra + LIBS)
    return lib


@locked
def build_driver(name, variant="plain", extra_src=()):
    """harness/<name>.c -> build/<variant>/<name>, linked so that its definitions interpose the library's."""
    lib = build_lib(variant)
    d = os.path.dirname(lib)
    src = [os.path.join(VERIF, "harness", name + ".c")] + [os.path.join(VERIF, "harness", s) for s in extra_src]
    exe = os.path.join(d, name)
    flags = ["-w", "-std=gnu11", "-rdynamic"] + VARIANTS["plain" if variant == "race" else variant] + INC + ["-I" + os.path.join(VERIF, "harness")]
    hh = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".h")]
    k = _key(src + headers() + hh, flags) + str(os.path.getmtime(lib))
    kf = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == k):
        _run(["gcc"] + flags + src + ["-o", exe, "-L" + d, "-lmdoodz", "-Wl,-rpath," + d] + LIBS)
        open(kf, "w").write(k)
    return exe


@locked
def build_tool(name):
    """harness/<name>.c that needs only HDF5 (no repository code)."""
    d = os.path.join(BUILD, "tools")
    os.makedirs(d, exist_ok=True)
    src, exe = os.path.join(VERIF, "harness", name + ".c"), os.path.join(d, name)
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        _run(["gcc", "-w", "-O2", "-I/usr/include/hdf5/serial", src, "-o", exe, "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lm"])
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build_lib(v))
