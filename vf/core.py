"""Common machinery of all checks: TLC runs, driver runs, evidence, verdicts.

Outcome protocol (see DESIGN.md): exit 0 = held on everything explored, exit 1 + "VIOLATION property=.. replay=.."
= broken (only after the rejection has been reproduced by a second, independent run), anything else = error of the check.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from . import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
if not os.path.exists(TLA_CP.split(":")[1]):
    d = "/opt/veriftools/tla"
    TLA_CP = ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar"))


class CheckError(Exception):
    """The check itself could not give an answer."""


class CodeFailure(Exception):
    """The code under test crashed, hung or refused a valid input before it could be judged."""


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        os.makedirs(os.path.join(B.BUILD, "work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(B.BUILD, "work"))
        self.states = self.transitions = self.traces = self.events = 0
        self.actions = {}
        self.samples, self.notes, self.models, self.violations, self.known = [], [], [], [], []
        self.findings = load_findings(pid)

    @property
    def quick(self):
        return self.tier == "quick"

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def note(self, s):
        self.notes.append(s)
        print("note:", s, flush=True)

    # ---- TLC -------------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap="2g", deadlock=True):
        """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg.  Returns dict(ok, kind, out, generated, distinct, diameter, prints)."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", TLA_CP, "tlc2.TLC", "-config", (cfg or module) + ".cfg",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers)] + list(extra) + [module + ".tla"]
        if not deadlock:
            cmd.insert(-1, "-deadlock")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s after %ss" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        r = dict(out=out, rc=p.returncode, generated=0, distinct=0, diameter=0, kind="error", ok=False, what="")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            r["generated"], r["distinct"] = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        if m:
            r["diameter"] = int(m.group(1))
        if p.returncode == 0:
            r["ok"], r["kind"] = True, "ok"
        elif re.search(r"Invariant (\S+) is violated", out) or re.search(r"property \S* ?(is|was) violated|Temporal properties were violated|Action property .* is violated", out):
            r["kind"] = "violated"
            r["what"] = (re.findall(r"(?:Invariant|Action property) (.*?) is violated", out) or ["property"])[0]
        elif "POSTCONDITION" in out or re.search(r"[Pp]ostcondition", out):
            r["kind"], r["what"] = "violated", "trace not accepted"
        elif "Assumption" in out and "is false" in out:
            r["kind"], r["what"] = "violated", "assumption false"
        elif "Deadlock reached" in out:
            r["kind"], r["what"] = "violated", "deadlock"
        return r

    def model(self, module, cfg=None, workers=4, timeout=600, min_states=2, env=None, **kw):
        """Exhaustive run of a design model; a failure here is an error of the specification, not of the code."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, env=env, **kw)
        if not r["ok"]:
            raise CheckError("model %s/%s: %s\n%s" % (module, cfg, r["what"] or "error", r["out"][-3000:]))
        if r["distinct"] < min_states:
            raise CheckError("model %s/%s explored only %d states" % (module, cfg, r["distinct"]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append(dict(module=module, cfg=cfg or module, distinct=r["distinct"], generated=r["generated"]))
        return r

    def model_violates(self, module, cfg, timeout=300, **kw):
        """A deliberately broken variant of the design must be rejected (non-vacuity of the invariants)."""
        r = self.tlc(module, cfg, timeout=timeout, **kw)
        if r["kind"] != "violated":
            raise CheckError("mutated model %s/%s was not rejected: %s" % (module, cfg, r["out"][-2000:]))
        self.models.append(dict(module=module, cfg=cfg, mutant_rejected=r["what"]))

    def validate(self, module, trace_lines, cfg=None, env=None, timeout=600, ntraces=1, tag="trace", heap="2g"):
        """Checks a recorded trace (list of dicts) against spec/<module>.tla.  Returns (accepted, info)."""
        path = os.path.join(self.work, "%s-%d.ndjson" % (tag, len(os.listdir(self.work))))
        with open(path, "w") as f:
            for ln in trace_lines:
                f.write(json.dumps(clean_ints(ln)) + "\n")
        e = dict(TRACE=path)
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, timeout=timeout, heap=heap)
        if r["kind"] == "error":
            i = r["out"].find("Error:")
            if "Parsing or semantic analysis failed" in r["out"] or "states generated" not in r["out"]:
                raise CheckError("TLC error on trace spec %s: %s" % (module, r["out"][i:i + 3000]))
            # the recorded values are so far off that the specification cannot even evaluate them
            r["kind"], r["what"] = "violated", "not evaluable: " + r["out"][i:i + 300]
            m = re.findall(r"depth of the complete state graph search is (\d+)", r["out"])
            r["out"] += '\n<<"REJECTED_AT", %s' % (m[-1] if m else 1)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        info = dict(path=path, fails=re.findall(r'<<\s*"FAIL".*?>>', r["out"], re.S)[:5], rejected_at=None, what=r["what"])
        if not r["ok"]:
            m = re.findall(r'<<"REJECTED_AT", (\d+)', r["out"])
            k = int(m[-1]) if m else None
            info["rejected_at"] = k
            if k and k <= len(trace_lines):
                info["event"] = trace_lines[k - 1]
            info["tail"] = r["out"][-1500:]
        else:
            self.traces += ntraces
            self.events += len(trace_lines)
        return r["ok"], info

    # ---- drivers ---------------------------------------------------------------------------------------
    def run(self, cmd, cwd=None, timeout=120, env=None, stdin=None):
        e = dict(os.environ)
        e.setdefault("OMP_NUM_THREADS", "1")
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=cwd or self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, input=stdin)
            return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as ex:
            return "timeout", (ex.stdout or b"").decode(errors="replace"), (ex.stderr or b"").decode(errors="replace")

    def drive(self, exe, text, n=None, timeout=120, env=None, what="driver"):
        """Feeds cases to a unit driver; returns its events.  A crash or a missing answer is a failure of the code."""
        rc, out, err = self.run([exe], stdin=text.encode(), timeout=timeout, env=env)
        evs = []
        for ln in out.splitlines():
            try:
                evs.append(json.loads(re.sub(r"-?\bnan\b", "NaN", re.sub(r"\binf\b", "Infinity", ln))))
            except ValueError:
                pass
        if rc == 75:
            raise CheckError("%s: malformed case input" % what)
        if rc != 0 or (n is not None and len(evs) != n):
            raise CodeFailure("%s ended with %s after %d of %s cases: %s" % (what, rc, len(evs), n, err[-300:]))
        return evs

    # ---- verdicts --------------------------------------------------------------------------------------
    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, key, detail, replay=None):
        """key identifies the failing input/history; listed findings with the same key are reported as known."""
        for k in self.findings:
            if k == key:
                if key not in self.known:
                    self.known.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, self.findings[k]), flush=True)
                return False
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        path = os.path.join(EVID, "replay", "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, key=key, detail=detail, replay=replay), f, indent=1, default=str)
        self.violations.append((key, path))
        print("violation [%s]: %s" % (key, str(detail)[:1500]), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        return True

    def conform(self, key, record, module, cfg=None, env=None, ntraces=1, timeout=600, describe=None, heap="2g"):
        """record() -> list of events (runs the real code).  Rejections are reported only when a second recording is rejected too."""
        try:
            ev = record()
        except CodeFailure as x:
            try:
                ev = record()
            except CodeFailure as x2:
                self.violation(key, "the code failed on a valid input: %s" % x2)
                return False
        ok, info = self.validate(module, ev, cfg, env, timeout, ntraces, tag=re.sub(r"\W", "_", key), heap=heap)
        if ok:
            if ev:
                self.sample(dict(trace=key, events=len(ev), first=short(ev[0]), last=short(ev[-1])))
            return True
        try:
            ev2 = record()
        except CodeFailure as x:
            self.violation(key, "the code failed on a valid input: %s" % x)
            return False
        ok2, info2 = self.validate(module, ev2, cfg, env, timeout, ntraces, tag=re.sub(r"\W", "_", key) + "_rerun", heap=heap)
        if ok2:
            self.note("rejection of %s did not repeat; not reported" % key)
            return True
        k = info2.get("rejected_at") or 0
        self.violation(key, dict(module=module, rejected_at=k, event=short(info2.get("event")), failed=info2["fails"], what=info2["what"]),
                       dict(trace_tail=[short(x, 4000) for x in ev2[max(0, k - 3):k + 1]]))
        return False

    def conform_batch(self, items, module, cfg=None, env=None, timeout=600, heap="2g", size=40, first_line=None):
        """items: [(key, record)].  Several recordings per TLC run; each recording starts with an event that resets the spec.
        first_line: event put in front of every batch.  Rejected recordings are recorded and judged again on their own."""
        head = [first_line] if first_line else []
        for b in range(0, len(items), size):
            if len(self.violations) >= 6:
                self.note("stopped after %d violations" % len(self.violations))
                return
            todo = []
            for k, r in items[b:b + size]:
                try:
                    todo.append((k, r, r()))
                except CodeFailure:
                    self.conform(k, (lambda rr=r: head + rr()), module, cfg, env, 1, timeout, heap=heap)
            while todo:
                lines, owner = list(head), [None] * len(head)
                for n, (k, r, ev) in enumerate(todo):
                    lines += ev
                    owner += [n] * len(ev)
                ok, info = self.validate(module, lines, cfg, env, timeout, len(todo), tag="batch", heap=heap)
                if ok:
                    for k, r, ev in todo[:1]:
                        self.sample(dict(trace=k, events=len(ev), first=short(ev[0]), last=short(ev[-1])))
                    break
                at = info.get("rejected_at")
                n = owner[min(at, len(owner)) - 1] if at else 0
                k, r, _ = todo[n or 0]
                self.traces += n or 0
                self.conform(k, (lambda rr=r: head + rr()), module, cfg, env, 1, timeout, heap=heap)
                todo = todo[(n or 0) + 1:]

    def corrupted_rejected(self, module, events, mutate, cfg=None, env=None, timeout=300):
        """Binding demonstration: a recorded trace with one field corrupted must be rejected."""
        ev = json.loads(json.dumps(events))
        if mutate(ev) is False:
            return
        s = (self.states, self.transitions, self.traces, self.events)
        ok, info = self.validate(module, ev, cfg, env, timeout, tag="corrupt")
        self.states, self.transitions, self.traces, self.events = s
        if ok:
            raise CheckError("trace spec %s accepted a corrupted trace" % module)
        self.binding = getattr(self, "binding", 0) + 1

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        if not self.violations and self.traces == 0 and self.level == "model_checking":
            raise CheckError("no trace of the implementation was validated")
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, corrupted_traces_rejected=getattr(self, "binding", 0), models=self.models,
                   samples=self.samples or ["none"], notes=self.notes)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                           assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                           violations=len(self.violations)), f, indent=1, default=str)
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d states, %d transitions, %d traces validated, %d violations, %.1fs" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    level = "model_checking"
    assumptions = []


def clean_ints(x):
    """TLC integers are 32 bit; anything that is not such an integer becomes a marker the specification rejects."""
    if isinstance(x, dict):
        return {k: clean_ints(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean_ints(v) for v in x]
    if isinstance(x, bool) or isinstance(x, str) or x is None:
        return x
    if isinstance(x, int) and -2147483647 <= x <= 2147483647:
        return x
    return "not-a-32-bit-integer"


def fixp(x, unit, cap=2000000000):
    """x in fixed point; NaN or overflow gives a value no specification accepts."""
    v = x / unit
    if v != v or abs(v) > cap:
        return "out-of-range"
    return int(round(v))


def short(x, n=600):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def load_findings(pid):
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' (suppresses exactly that key);
    'fixed: property=<id> <commit> <what failed>' (suppresses nothing)."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out
