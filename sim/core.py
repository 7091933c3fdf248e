"""Deterministic simulation core.

One integer decides a run: every choice is drawn from ``Rng`` streams derived from
(VERIF_SEED, property, run index).  The process environment the code under test sees -
clock, entropy, files, console, statement-level interruption and thread scheduling - is
owned by ``Sim``.  Nothing in here reads a real clock or draws from a simulation stream for
logging purposes.
"""
import builtins, contextlib, hashlib, io, json, os, random, sys, threading, types

REPO = os.environ.get("METKU_REPO", "/repo")
REPO_PREFIX = os.path.join(os.path.realpath(REPO), "metku") + os.sep


class Violation(Exception):
    """The property is broken.  ``cls`` is the stable violation class used for minimisation."""

    def __init__(self, cls, msg, detail=None):
        super().__init__(f"[{cls}] {msg}")
        self.cls, self.msg, self.detail = cls, msg, detail


class HarnessError(Exception):
    """Something in the machinery itself is wrong; never reported as a violation."""


class SimInterrupt(KeyboardInterrupt):
    """Injected user interruption (Ctrl-C) at a chosen statement."""


class SimMemoryError(MemoryError):
    """Injected allocation failure."""


class SimCrash(BaseException):
    """Injected process crash; only durable state survives."""


class Rng(random.Random):
    """Seeded stream; ``sub(name)`` derives an independent stream."""

    def __init__(self, key):
        self.key = str(key)
        super().__init__(int.from_bytes(hashlib.sha256(self.key.encode()).digest()[:8], "big"))

    def __reduce__(self):
        raise HarnessError("Rng must not be pickled")

    def sub(self, name):
        return Rng(self.key + "/" + str(name))

    def logint(self, lo, hi):
        import math
        return int(round(math.exp(self.uniform(math.log(lo), math.log(hi)))))

    def pick(self, weighted):
        """weighted: list of (value, weight)"""
        tot = sum(w for _, w in weighted)
        r = self.random() * tot
        for v, w in weighted:
            r -= w
            if r < 0:
                return v
        return weighted[-1][0]


# ------------------------------------------------------------------ statement-level control
TOOL = 4


class LineControl:
    """Counts statements executed in the code under test and, at chosen counts, raises an injected
    exception or hands control to another simulated thread."""

    def __init__(self):
        self.active = False
        self.count = 0
        self.fire_at = None
        self.exc = None
        self.fired = None
        self.scheduler = None
        self.budget = None
        self._registered = False
        self.only = None

    def _on_line(self, code, line):
        if not code.co_filename.startswith(REPO_PREFIX):
            return sys.monitoring.DISABLE
        if not self.active:
            return None
        if self.scheduler is not None:
            self.scheduler.on_line(code, line)
            return None
        self.count += 1
        if self.fire_at is not None and self.count == self.fire_at:
            self.fired = (os.path.relpath(code.co_filename, REPO), code.co_qualname, line)
            self.fire_at = None
            raise self.exc
        if self.budget is not None and self.count > self.budget:
            self.active = False
            raise Violation("no-progress", f"more than {self.budget} statements without finishing, at "
                            f"{os.path.relpath(code.co_filename, REPO)}:{code.co_qualname}")

    def _register(self):
        if not self._registered:
            m = sys.monitoring
            m.use_tool_id(TOOL, "verif-sim")
            m.register_callback(TOOL, m.events.LINE, self._on_line)
            self._registered = True

    def enable(self):
        self._register()
        sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
        self.active = True

    def disable(self):
        self.active = False
        if self._registered:
            sys.monitoring.set_events(TOOL, 0)

    @contextlib.contextmanager
    def counting(self, fire_at=None, exc=None, budget=None):
        """Run a block; at statement number ``fire_at`` raise ``exc`` inside the code under test."""
        self.count, self.fire_at, self.exc, self.fired, self.budget = 0, fire_at, exc, None, budget
        self.enable()
        try:
            yield self
        finally:
            self.disable()
            self.fire_at = None
            self.budget = None


# ------------------------------------------------------------------ clock
class Clock:
    """Simulated wall and CPU clock; advances only when the simulator says so."""

    def __init__(self):
        self.now = 1_600_000_000.0
        self.cpu = 0.0
        self.tick = 0.0       # advance per reading
        self.covered = 0.0
        self.reads = 0

    def advance(self, dt, cpu=None):
        self.now += dt
        self.cpu += dt if cpu is None else cpu
        self.covered += dt

    def read(self):
        self.reads += 1
        if self.tick:
            self.advance(self.tick)
        return self.now

    def read_cpu(self):
        self.reads += 1
        if self.tick:
            self.advance(self.tick)
        return self.cpu


# ------------------------------------------------------------------ the simulation context
class Sim:
    def __init__(self):
        self.clock = Clock()
        self.lines = LineControl()
        self.faults = {}
        self.probes = {}
        self.events = []
        self.entropy = Rng("entropy/0")
        self.fs = None
        self.out = io.StringIO()
        self.installed = False
        self.solve_fault = None
        self.linalg_calls = 0

    # -- logging: plain appends, no draws, no clock reads
    def log(self, *ev):
        self.events.append(ev)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def reset(self, seed_key):
        self.clock = Clock()
        self.faults, self.probes, self.events = {}, {}, []
        self.entropy = Rng("entropy/" + str(seed_key))
        self.out = io.StringIO()
        self.solve_fault = None
        self.linalg_calls = 0
        self.seed_libs(seed_key)

    def seed_libs(self, seed_key):
        import numpy as np
        r = Rng("libs/" + str(seed_key))
        np.random.seed(r.getrandbits(32))
        random.seed(r.getrandbits(64))

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        return h.hexdigest()[:16]

    # -- seams ---------------------------------------------------------------
    def install(self):
        if self.installed:
            return
        self.installed = True
        import time as _t, datetime as _dt
        import numpy as np
        sim = self
        self.real_time = _t.time
        self.real_monotonic = _t.monotonic
        _t.time = lambda: sim.clock.read()
        _t.monotonic = lambda: sim.clock.read()
        _t.perf_counter = lambda: sim.clock.read()
        _t.process_time = lambda: sim.clock.read_cpu()
        _t.sleep = lambda s: sim.clock.advance(float(s), cpu=0.0)
        real_dt = _dt.datetime

        class Meta(type(real_dt)):
            def __instancecheck__(cls, o):
                return isinstance(o, real_dt)

            def __subclasscheck__(cls, c):
                return issubclass(c, real_dt)

        class SimDateTime(real_dt, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                return real_dt.fromtimestamp(sim.clock.read(), tz or _dt.timezone.utc).replace(tzinfo=tz)

            @classmethod
            def today(cls):
                return cls.now()

            @classmethod
            def utcnow(cls):
                return cls.now()
        _dt.datetime = SimDateTime
        real_rng = np.random.default_rng

        def default_rng(seed=None):
            if seed is None:
                sim.probe("entropy:default_rng")
                seed = sim.entropy.getrandbits(63)
            return real_rng(seed)
        np.random.default_rng = default_rng
        real_solve = np.linalg.solve

        def solve(a, b):
            sim.linalg_calls += 1
            f = sim.solve_fault
            if f is not None:
                f["n"] -= 1
                if f["n"] == 0:
                    sim.solve_fault = None
                    f["fired"] = True
                    sim.fault("solve:" + f["kind"])
                    if f["kind"] == "MemoryError":
                        raise SimMemoryError("simulated: Unable to allocate")
                    raise np.linalg.LinAlgError("simulated: Singular matrix")
            return real_solve(a, b)
        np.linalg.solve = solve
        import matplotlib.pyplot as plt
        plt.show = lambda *a, **k: None

    @contextlib.contextmanager
    def quiet(self):
        """Console of the code under test goes to an in-memory stream."""
        with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(self.out):
            yield


SIM = Sim()


def fresh_source_loader():
    """Always compile the code under test from source: never trust a cached .pyc."""
    import importlib.machinery as M
    real = M.SourceFileLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if os.path.realpath(path).startswith(REPO_PREFIX):
            return self.source_to_code(self.get_data(path), path)
        return real(self, fullname)
    M.SourceFileLoader.get_code = get_code


# ------------------------------------------------------------------ fork helper
def fork_call(fn, timeout=None):
    """Run fn() in a forked child of this pristine process; returns ('ok', value) |
    ('violation', dict) | ('error', text) | ('timeout', None).  The parent's state is untouched."""
    import pickle, select, signal, traceback
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = ("ok", fn())
            except Violation as v:
                res = ("violation", {"cls": v.cls, "msg": v.msg, "detail": v.detail})
            except BaseException:
                res = ("error", traceback.format_exc()[-3000:])
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    mono = SIM.real_monotonic if SIM.installed else __import__("time").monotonic
    end = None if timeout is None else mono() + timeout
    timed_out = False
    while True:
        if end is not None:
            left = end - mono()
            rd = select.select([r], [], [], max(0.0, left))[0] if left > 0 else []
            if not rd:
                timed_out = True
                os.kill(pid, signal.SIGKILL)
                break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    if timed_out:
        return ("timeout", None)
    try:
        return pickle.loads(b"".join(chunks))
    except Exception:
        return ("error", "child died without a result")
