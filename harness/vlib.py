"""Shared machinery: import naima from /repo, run TLC, judge traces, report.

Every property module builds a list of *events* (plain JSON records observed on
the real code) and hands them to a TLA+ trace specification.  The trace
specification owns the verdict: it steps through the events, applies the
specification's action for each, and prints a total verdict naming every event
and clause that the specification does not allow.
"""
import contextlib
import io
import json
import logging
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import types
import warnings
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


# ---------------------------------------------------------------- naima import
def load_naima():
    src = os.path.join(REPO, "src")
    if sys.path[0] != src:
        sys.path.insert(0, src)
    if "naima.version" not in sys.modules and not os.path.exists(
        os.path.join(src, "naima", "version.py")
    ):
        m = types.ModuleType("naima.version")
        m.version = m.__version__ = "0+verif"
        m.version_tuple = (0, 0)
        sys.modules["naima.version"] = m
    import naima

    got = os.path.dirname(os.path.abspath(naima.__file__))
    want = os.path.join(src, "naima")
    if os.path.realpath(got) != os.path.realpath(want):
        raise RuntimeError(f"imported naima from {got}, expected {want}")
    quiet()
    return naima


def quiet():
    warnings.simplefilter("ignore")
    try:
        from astropy import log

        log.setLevel(logging.CRITICAL)
    except Exception:
        pass
    logging.getLogger("naima.radiative").setLevel(logging.CRITICAL + 1)


@contextlib.contextmanager
def silence():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ---------------------------------------------------------------- TLC
class TLCError(RuntimeError):
    pass


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states", out)
        if m:
            self.generated = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            self.generated = int(m[-1].replace(",", "")) if m else 0
            self.distinct = 0
        self.violated = re.findall(
            r"(?:Invariant|Action property|Temporal property) (\S+) is violated", out
        )
        self.ok = rc == 0

    def prints(self, tag):
        """JSON payloads printed by PrintT("<tag>" \\o ToJson(x))."""
        r = []
        pre = '"' + tag
        for line in self.out.splitlines():
            if line.startswith(pre):
                # PrintT prints TLA+ strings with escaped quotes
                body = line[len(pre):].rstrip()
                if body.endswith('"'):
                    body = body[:-1]
                body = body.replace('\\"', '"').replace("\\\\", "\\")
                r.append(json.loads(body))
        return r

    def actions(self):
        """per-action counts from -coverage"""
        d = {}
        for m in re.finditer(
            r"^<(\w+) line \d+.*?>: (\d+):(\d+)", self.out, re.M
        ):
            d[m.group(1)] = d.get(m.group(1), 0) + int(m.group(3))
        return d


def cfg_text(spec=None, init=None, nxt=None, constants=None, invariants=(),
             properties=(), constraint=None, view=None, postcondition=None,
             deadlock=False, action_constraint=None):
    t = []
    if spec:
        t.append(f"SPECIFICATION {spec}")
    if init:
        t.append(f"INIT {init}")
    if nxt:
        t.append(f"NEXT {nxt}")
    defs = []
    for k, v in (constants or {}).items():
        if str(v) == k:                      # model value
            t.append(f"CONSTANT {k} = {v}")
        else:
            t.append(f"CONSTANT {k} <- c_{k}")
            defs.append(f"c_{k} == {v}")
    for i in invariants:
        t.append(f"INVARIANT {i}")
    for p in properties:
        t.append(f"PROPERTY {p}")
    if constraint:
        t.append(f"CONSTRAINT {constraint}")
    if action_constraint:
        t.append(f"ACTION_CONSTRAINT {action_constraint}")
    if view:
        t.append(f"VIEW {view}")
    if postcondition:
        t.append(f"POSTCONDITION {postcondition}")
    t.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    return Cfg(t, defs)


class Cfg:
    """a TLC configuration; constants are definitions of a wrapper module, as
    configuration files know only the simplest expressions"""

    def __init__(self, lines, defs):
        self.text = "\n".join(lines) + "\n"
        self.defs = defs


def tlc(module, cfg, env=None, workers=4, args=(), timeout=800, mem="3g",
        expect_ok=True):
    """Run TLC on spec/<module>.tla with the configuration cfg."""
    tmp = tempfile.mkdtemp(prefix="vtlc_")
    try:
        with open(os.path.join(tmp, "m.cfg"), "w") as f:
            f.write(cfg.text)
        top = os.path.join(SPEC, module + ".tla")
        if cfg.defs:
            top = os.path.join(tmp, "MC_.tla")
            with open(top, "w") as f:
                f.write("---- MODULE MC_ ----\nEXTENDS " + module + "\n"
                        + "\n".join(cfg.defs) + "\n====\n")
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = ""
        cmd = [
            "java", f"-Xmx{mem}", "-Xss16m", "-XX:+UseParallelGC",
            f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={tmp}", "-cp", CP,
            "tlc2.TLC", "-config", os.path.join(tmp, "m.cfg"),
            "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE",
            "-workers", str(workers), *map(str, args),
            top,
        ]
        t0 = time.time()
        p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        r = TLCResult(p.stdout, p.returncode, time.time() - t0)
        if expect_ok and not r.ok:
            raise TLCError(f"TLC failed on {module} (rc={p.returncode}):\n"
                           + "\n".join(p.stdout[i:i + 1500] for i in [
                               m.start() for m in re.finditer("(?m)^Error", p.stdout)][:2])
                           + p.stdout[-1500:])
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- projections
OFF = -777777777     # sentinel: value not on the integer lattice
NAN = -777777776
INF = 777777777
NINF = -777777775
BIG = 2_000_000_000


def snap(x, unit=1.0, tol=1e-7):
    """Project x (in units of `unit`) to an integer; OFF if not on the lattice."""
    try:
        x = float(x)
    except Exception:
        return OFF
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else NINF
    q = x / unit
    if abs(q) > BIG:
        return OFF
    n = round(q)
    return int(n) if abs(q - n) <= tol * max(1.0, abs(q)) else OFF


def log2snap(r, tol=1e-7):
    """log2 of a ratio snapped to an integer."""
    try:
        r = float(r)
    except Exception:
        return OFF
    if not (r > 0) or math.isinf(r):
        return OFF
    q = math.log2(r)
    n = round(q)
    return int(n) if abs(q - n) <= tol else OFF


class Classes:
    """Value classes: two arrays share an id iff same unit family/shape and
    equal within rtol (relative, elementwise; zeros must match zeros)."""

    def __init__(self, rtol=1e-10):
        self.rtol = rtol
        self.reps = {}
        self.n = 0

    def id(self, v):
        import numpy as np

        kind, arr = canon(v)
        key = (kind, arr.shape)
        for rep, i in self.reps.get(key, []):
            with np.errstate(all="ignore"):
                a, b = rep, arr
                same = (a == b) | (np.isnan(a) & np.isnan(b)) | (
                    np.abs(a - b) <= self.rtol * np.maximum(np.abs(a), np.abs(b))
                )
            if bool(np.all(same)):
                return i
        self.n += 1
        self.reps.setdefault(key, []).append((np.array(arr, copy=True), self.n))
        return self.n


def canon(v):
    """(unit family, array in canonical (SI) units)."""
    import numpy as np
    from astropy import units as u

    if isinstance(v, u.Quantity):
        q = v.si
        return q.unit.to_string(), np.asarray(q.value, dtype=float)
    return "num", np.asarray(v, dtype=float)


def ustr(x):
    """canonical name of the unit of x (or of the unit x): scale and bases"""
    from astropy import units as u

    x = getattr(x, "unit", x)
    if x is None or not isinstance(x, u.UnitBase):
        x = u.dimensionless_unscaled
    d = x.decompose()
    t = sorted(f"{b.name}^{p}" for b, p in zip(d.bases, d.powers))
    return f"{d.scale:.9g} " + " ".join(t)


# ---------------------------------------------------------------- workers
_job = None


def _call(i):
    return _job[0](_job[1][i])


def pmap(fn, items, procs=8, chunk=1):
    """fn over items in forked worker processes (order kept)."""
    import multiprocessing as mp

    items = list(items)
    if len(items) <= 1 or procs <= 1:
        return [fn(x) for x in items]
    global _job
    _job = fn, items        # inherited by the forked workers: no pickling
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    with ctx.Pool(min(procs, len(items))) as pool:
        return pool.map(_call, range(len(items)), chunksize=chunk)


# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"open: property=(\S+) key=(\S+) clause=(\S+) (.*)", line)
            if m:
                r.append(dict(property=m[1], key=m[2], clause=m[3], what=m[4]))
    return r


# ---------------------------------------------------------------- a check run
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + hash_str(pid))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.bad = []          # [(clause, key, detail)]
        self.nontrivial = 0
        self.assumptions = []
        self.thorough = self.tier == "thorough"
        self._par = []
        self.pool = ThreadPoolExecutor(4)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def nprng(self, salt=0):
        import numpy as np

        return np.random.default_rng([self.seed, hash_str(self.pid), salt])

    # -- design-level model checking
    def model(self, module, cfg, name=None, must_take=(), bg=False, **kw):
        """Exhaustive model checking of the specification itself."""
        if bg:
            self._par.append(self.pool.submit(self.model, module, cfg, name,
                                              must_take, False, **kw))
            return None
        cov = list(kw.pop("args", ()))
        if must_take:
            cov += ["-coverage", "1"]
        r = tlc(module, cfg, args=cov, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        if must_take:
            a = r.actions()
            missing = [x for x in must_take if not a.get(x)]
            if missing:
                raise TLCError(f"{module}: actions never taken: {missing} {a}")
            self.notes.setdefault("action_counts", {})[name or module] = a
        self.notes.setdefault("design", {})[name or module] = dict(
            states=r.generated, distinct=r.distinct, wall=round(r.wall, 1))
        return r

    def mutant_model(self, module, cfg, violated, **kw):
        """A deliberately broken variant of the spec must be rejected by TLC
        (non-vacuity of the invariants); returns the result (counterexample)."""
        r = tlc(module, cfg, expect_ok=False, **kw)
        if violated not in r.violated:
            raise TLCError(f"{module}: expected {violated} to be violated:\n"
                           + r.out[-3000:])
        self.transitions += r.generated
        self.notes.setdefault("mutant_specs_rejected", []).append(
            f"{module}:{violated}")
        return r

    # -- generation
    def enumerate(self, module, cfg, tag="B ", **kw):
        kw.setdefault("workers", 1)
        r = tlc(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        got = r.prints(tag)
        self.notes.setdefault("generated", {})[module] = len(got)
        return got

    def simulate(self, module, cfg, num, depth, tag="B ", seed=None, **kw):
        r = tlc(module, cfg, workers=1,
                args=["-simulate", f"num={num}", "-depth", depth,
                      "-seed", self.seed if seed is None else seed], **kw)
        self.transitions += r.generated
        got = r.prints(tag)
        self.notes.setdefault("generated", {})[module] = len(got)
        return got

    # -- trace validation
    def validate(self, module, events, spec="TraceSpec", constants=None,
                 traces=1, chunk=None, name=None, split_on=None, **kw):
        """Let TLC judge the recorded events against spec/<module>.tla."""
        if not events:
            raise RuntimeError(f"{self.pid}: no events recorded for {module}")
        self.traces += traces
        self.events += len(events)
        if chunk is None:
            chunk = len(events)
        # contiguous chunks; never cut inside a trace if split_on names the
        # event that starts one
        parts, cur = [], []
        for e in events:
            if len(cur) >= chunk and (split_on is None or e.get("ev") == split_on):
                parts.append(cur)
                cur = []
            cur.append(e)
        if cur:
            parts.append(cur)
        futs = [self.pool.submit(self._validate1, module, p, spec, constants, kw)
                for p in parts]
        nbad = 0
        for p, f in zip(parts, futs):
            for b in f.result():
                nbad += 1
                ev = p[b["i"] - 1]
                # context: the events of the same trace up to the failing one
                j = b["i"] - 1
                k = j
                if split_on is not None:
                    while k > 0 and p[k].get("ev") != split_on:
                        k -= 1
                self.bad.append(dict(
                    clause=b["c"], key=str(ev.get("key", ev.get("ev", "?"))),
                    spec=name or module, detail=b.get("d"), event=ev,
                    history=p[k:j + 1] if split_on is not None else None))
        return nbad

    def _validate1(self, module, events, spec, constants, kw):
        fd, path = tempfile.mkstemp(prefix="vtrace_", suffix=".ndjson")
        try:
            with os.fdopen(fd, "w") as f:
                for e in events:
                    f.write(json.dumps(e, default=_js) + "\n")
            r = tlc(module, cfg_text(spec=spec, constants=constants,
                                     invariants=["Report"]),
                    env={"TRACE": path}, workers=1, **kw)
            self.states += r.distinct
            self.transitions += r.generated
            v = r.prints("VERDICT ")
            if len(v) != 1 or v[0]["n"] != len(events):
                raise TLCError(f"{module}: trace not consumed: {v} of "
                               f"{len(events)}\n" + r.out[-3000:])
            return v[0]["bad"]
        finally:
            os.unlink(path)

    # -- reporting
    def sample(self, x):
        if len(self.samples) < 8:
            self.samples.append(json.loads(json.dumps(x, default=_js)))

    def finish(self):
        for f in self._par:
            f.result()
        self.pool.shutdown()
        known = [k for k in known_findings() if k["property"] == self.pid]
        new, seen = [], []
        for b in self.bad:
            m = [k for k in known if k["key"] == b["key"].replace(" ", "_")
                 and k["clause"] == b["clause"]]
            if m:
                seen.append(m[0]["key"] + " " + m[0]["what"])
            else:
                new.append(b)
        os.makedirs(EVID, exist_ok=True)
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed,
            level="model_checking",
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                events_validated=self.events,
                samples=self.samples or ["none"], **self.notes),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(new),
        )
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_js)
        for s in sorted(set(seen)):
            print(f"KNOWN-FINDING: property={self.pid} {s}")
        if new:
            d = os.path.join(OUT, self.pid)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "violation.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               violations=new[:50]), f, indent=1, default=_js)
            for b in new[:8]:
                print(f"  clause={b['clause']} key={b['key']} spec={b['spec']} "
                      f"detail={json.dumps(b['detail'], default=_js)[:300]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.stdout.flush()
            return 1
        old = os.path.join(OUT, self.pid, "violation.json")
        if os.path.exists(old):
            os.remove(old)
        print(f"OK property={self.pid} tier={self.tier} states={self.states} "
              f"transitions={self.transitions} traces={self.traces} "
              f"events={self.events} wall={time.time() - self.t0:.1f}s")
        return 0


def _js(o):
    try:
        import numpy as np

        if isinstance(o, np.integer):
            return int(o)
        if isinstance(o, np.floating):
            return float(o)
        if isinstance(o, np.bool_):
            return bool(o)
        if isinstance(o, np.ndarray):
            return o.tolist()
    except ImportError:
        pass
    return str(o)


def hash_str(s):
    import hashlib

    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def outcome(fn, *a, **k):
    """('ok', value) or ('TypeError', message) -- the observable outcome."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "ok", fn(*a, **k)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:   # any exception is an observation
        return type(e).__name__, str(e)[:200]


def reading_failed(exc):
    """Did a driver fail on what the code under test produced?  (Not: TLC, the
    system, time or memory.)"""
    if not isinstance(exc, (LookupError, ValueError, TypeError, AttributeError,
                            ArithmeticError, AssertionError)):
        return False
    names = []
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename) == os.path.realpath(__file__):
            names.append(tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return not {"tlc", "model", "mutant_model", "enumerate", "simulate",
                "validate"} & set(names)


def naima_frame(exc):
    """file:function of the innermost naima frame of a traceback, or None."""
    tb, hit = exc.__traceback__, None
    root = os.path.join(os.path.realpath(REPO), "src", "naima")
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            hit = os.path.basename(fn) + ":" + tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return hit
