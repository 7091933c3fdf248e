"""X04: logging a run to file always gives back the console and working directory."""
import io, os, sys, types
from .iolib import gen_fault
from sim.core import SIM, Violation, SimInterrupt, SimCrash, SimMemoryError, fork_call, HarnessError
from sim.simfs import SimFS
from metku.log_to_file import log_to_file

RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("A run executes 1-5 logged functions one after another or nested up to three deep, often within one simulated second and from different directories; each prints, computes, calls another logged "
        "function, changes directory, replaces standard output, returns a value, raises, exits, runs out of memory or is interrupted. A share of the runs meets one fault: failing mkdir, open, "
        "write or close, short write, full disk, Ctrl-C inside a disk operation or at any statement before the function starts. Afterwards console and directory must be what they were before, results and exceptions the "
        "function's own, and the log must hold everything printed. Non-trivial: a function failed, or a fault was met, and state was compared afterwards.")
REAL = ["metku.log_to_file", "Python text and buffer layers", "print"]
STUB = ["disk and working directory (in-memory)", "clock", "console"]
ASSUMPTIONS = ["an interruption that strikes the clean-up itself is excepted", "sequential and nested use, one thread"]


FAULTABLE = ("open", "mkdir", "write", "close", "replace", "remove", "fsync")      # not the directory change of the clean-up


class Boom(Exception):
    pass


def gen_fun(r, depth, tier):
    steps = []
    for _ in range(r.randint(1, 5)):
        k = r.pick([("print", 5), ("big", 0.8), ("tick", 1), ("cd", 0.8), ("stdout", 0.5), ("flush", 0.5), ("call", 2.5 if depth < 3 else 0), ("write", 1), ("mkfile", 0.6)])
        st = {"s": k}
        if k == "print":
            st["t"] = r.choice(["a", "weight 12.5", "äö €", "x\ny", ""]) + str(r.randrange(1000))
        elif k == "big":
            st["n"] = r.choice([5000, 9000, 70000])
        elif k == "tick":
            st["d"] = r.choice([0.2, 1.0, 3600.0])
        elif k == "cd":
            st["to"] = r.choice(["..", "/sim/work", "deeper"])
        elif k == "call":
            st.update(f=gen_fun(r, depth + 1, tier), catch=r.random() < 0.6)
        elif k == "write":
            st["t"] = "w%d;" % r.randrange(1000)
        steps.append(st)
    end = r.pick([("return", 6), ("raise", 3), ("oserror", 1), ("exit", 1), ("memory", 1), ("ctrl-c", 1.5), ("genexit", 0.3)])
    return {"name": r.choice(["f", "f", "solve", "main"]), "steps": steps, "end": end, "val": r.randrange(10 ** 6), "at": r.random(), "early": r.random() < 0.4, "kept": r.random() < 0.4}


def gen(r, i, tier):
    runs = []
    for _ in range(r.randint(1, 4 if tier == "quick" else 7)):
        f = gen_fun(r, 1, tier)
        runs.append({"op": "run", "f": f, "wait": r.choice([0, 0, 0, 0.4, 1.0, 86400.0]), "dir": r.choice(["/sim/work", "/sim/work", "/sim/work/sub"]),
                     "fault": gen_fault(r, ("mkdir", "open", "write", "close")) if r.random() < 0.45 else None, "same": r.random() < 0.35})
    for a, b in zip(runs, runs[1:]):
        if b.pop("same"):
            b["f"]["name"] = a["f"]["name"]
            b["dir"] = a["dir"]
            b["wait"] = 0
    runs[0].pop("same", None)
    return {"ops": runs, "main": r.random() < 0.8}


class Console(io.StringIO):
    pass


class World:
    def __init__(self, fs, wrapped):
        self.fs = fs
        self.calls = []         # every logged call: what its function printed to the log
        self.line = None        # line control while set-up statements may be interrupted
        self.wrapped = wrapped

    def logged(self, f):
        """The logged function for a plan."""
        if f.get("kept") and f["name"] in self.wrapped:
            SIM.probe("decorated-function-called-again")
            return self.wrapped[f["name"]]
        fn = self.wrapped[f["name"]] = self.decorate(f)
        return fn

    def decorate(self, f):
        def body(rec, k):
            SIM.lines.fire_at = None          # from here on, the plan decides
            return rec["world"].execute(rec["f"], rec)
        body.__name__ = body.__qualname__ = f["name"]
        if f.get("early"):
            # decorated when the script was loaded, with another console and directory
            out, cwd = sys.stdout, os.getcwd()
            sys.stdout = Console()
            os.chdir("/sim")
            try:
                return log_to_file(body)
            finally:
                sys.stdout = out
                os.chdir(cwd)
        return log_to_file(body)

    def execute(self, f, rec):
        out = sys.stdout
        rec["out"] = out
        rec["dir"] = os.getcwd()
        rec["started"] = True
        rec["say"] = say = []
        for st in f["steps"]:
            s = st["s"]
            if s == "print":
                print(st["t"], file=out)
                say.append(st["t"] + "\n")
            elif s == "big":
                print("b" * st["n"], file=out)
                say.append("b" * st["n"] + "\n")
            elif s == "write":
                out.write(st["t"])
                say.append(st["t"])
            elif s == "flush":
                out.flush()
            elif s == "tick":
                SIM.clock.advance(st["d"])
            elif s == "cd":
                if st["to"] == ".." and os.getcwd() == "/sim":
                    continue
                try:
                    if st["to"] == "deeper":
                        os.mkdir("deeper")
                    os.chdir(st["to"])
                except FileExistsError:
                    pass
            elif s == "stdout":
                sys.stdout = Console()
                out = sys.stdout if rec.get("own") else out
            elif s == "mkfile":
                with open("own.txt", "a") as fh:
                    fh.write("x")
            elif s == "call":
                before = sys.stdout, os.getcwd()
                try:
                    got = self.call(st["f"], {})
                    if got != st["f"]["val"]:
                        raise Violation("result", f"the nested logged function returned {got!r} instead of {st['f']['val']!r}")
                except (Boom, SystemExit, SimMemoryError, SimInterrupt, GeneratorExit, OSError) as e:
                    self.back(before, f"a nested logged run that ended with {type(e).__name__}")
                    if not st["catch"] or self.fs.dead:
                        raise
                else:
                    self.back(before, "a nested logged run")
                # what nested calls say on the console of this function belongs to its log too; only own lines are compared
        end = f["end"]
        if end == "raise":
            raise Boom(f["val"])
        if end == "oserror":
            raise FileNotFoundError(2, "the function's own error", str(f["val"]))
        if end == "exit":
            raise SystemExit(f["val"])
        if end == "memory":
            raise SimMemoryError(str(f["val"]))
        if end == "ctrl-c":
            raise SimInterrupt(str(f["val"]))
        if end == "genexit":
            raise GeneratorExit(str(f["val"]))
        return f["val"]

    def call(self, f, rec):
        rec["f"] = f
        rec["world"] = self
        rec["base"] = os.getcwd()
        self.calls.append(rec)
        return self.logged(f)(rec, k=1)

    def back(self, before, what):
        if self.fs.dead:
            return
        if sys.stdout is not before[0]:
            raise Violation("console", f"after {what} standard output is {kind(sys.stdout)} instead of what it was before")
        if os.getcwd() != before[1]:
            raise Violation("directory", f"after {what} the working directory is {os.getcwd()} instead of {before[1]}")


def kind(o):
    return f"the closed file {o.name}" if getattr(o, "closed", False) and hasattr(o, "name") else f"the file {o.name}" if hasattr(o, "name") else type(o).__name__


OWN = {"raise": Boom, "oserror": FileNotFoundError, "exit": SystemExit, "memory": SimMemoryError, "ctrl-c": SimInterrupt, "genexit": GeneratorExit}


def run(plan):
    fs = SimFS()
    fs.mk("/sim/work/sub")
    hits = ran = 0
    logs, wrapped = {}, {}
    main = types.ModuleType("__main__")        # the user's script, or an interactive session
    if plan["main"]:
        main.__file__ = __file__
    sys.modules["__main__"] = main
    for n, op in enumerate(plan["ops"]):
        SIM.clock.advance(op["wait"])
        what = f"run {n} ({op['f']['name']}, ends with {op['f']['end']})"
        hits += logged_run(fs, op, what, logs, wrapped)
        ran += 1
    return {"nontrivial": hits > 0, "logged_runs": ran}


def logged_run(fs, op, what, logs, wrapped):
    f, fault = op["f"], op.get("fault")
    fs.cwd = op["dir"]
    arm, at = None, None
    if fault:
        arm, at = place(fs, op, wrapped)
    console = Console()
    old = sys.stdout
    w = World(fs, wrapped)
    rec = {}
    exc = SimInterrupt("simulated Ctrl-C")
    err, val = None, None
    status = "failed"
    fs.arm(arm)
    try:
        with fs:
            sys.stdout = console
            with SIM.lines.counting(fire_at=at, exc=exc) as c:
                try:
                    val = w.call(f, rec)
                    status = "ok"
                except Violation:
                    raise
                except BaseException as e:
                    err = e
            now, cwd = sys.stdout, fs.cwd
    finally:
        sys.stdout = old
    fired = fs.fired or c.fired
    if c.fired:
        SIM.fault("interrupt")
    if fs.dead or isinstance(err, SimCrash):
        fs.reboot()
        check_logs(fs, w, logs, crashed=True)
        return 1
    fs.disarm()
    why = f"{what}, " + (f"fault {fired}" if fired else "no fault")
    if now is not console:
        raise Violation("console", f"{why}: standard output is {kind(now)} afterwards")
    if cwd != op["dir"]:
        raise Violation("directory", f"{why}: the working directory is {cwd} afterwards, it was {op['dir']}")
    ended = type(err).__name__ if err is not None else None
    if fired is None or (fault and fault["kind"] in ("short", "eintr") and not c.fired):
        # the outcome is the function's own
        got = status == "ok"
        if f["end"] == "return" and not propagates(f):
            if not got:
                raise err
            if val != f["val"]:
                raise Violation("result", f"{why}: the logged function returned {val!r} instead of {f['val']!r}")
        elif not propagates(f) and (got or type(err) is not OWN[f["end"]] or str(f["val"]) not in str(err)):
            raise Violation("outcome", f"{why}: the function ends with {OWN[f['end']].__name__}({f['val']}), the caller saw {ended}: {err}")
    elif status == "ok" and c.fired:
        raise Violation("interrupt-swallowed", f"{why}: the interruption was not reported")
    elif status == "ok" and val != f["val"]:
        raise Violation("result", f"{why}: the logged function returned {val!r} instead of {f['val']!r}")
    open_ = fs.open_handles()
    err = exc = c.exc = None
    if open_:
        import gc
        gc.collect()
        open_ = fs.open_handles()
    if open_:
        raise Violation("unclosed", f"{why}: {open_} left open")
    check_logs(fs, w, logs, full=fired is None or status == "ok" and fault["kind"] in ("short", "eintr", "interrupt", "line-interrupt"), what=why)
    SIM.log("run", status, ended, str(fired), len(w.calls))
    return 1 if fired or ended else 0


def propagates(f):
    """A nested run's failure ends this function."""
    return any(s["s"] == "call" and (not s["catch"] and (s["f"]["end"] != "return" or propagates(s["f"])) or s["catch"] and propagates_odd(s["f"])) for s in f["steps"])


def propagates_odd(f):
    return False


def check_logs(fs, w, logs, full=False, crashed=False, what=""):
    """Every started function has its own log, which holds what it printed."""
    for p, data in logs.items():
        if fs.read(p) != data:
            raise Violation("log-changed", f"{what}: the log {p} of an earlier run was changed")
    files = {p: d for p, d in fs.files().items() if p not in logs}
    seen = set()
    for rec in w.calls:
        if not rec.get("started") or not full:
            continue
        p = getattr(rec["out"], "name", None)
        p = fs.abspath(p if str(p).startswith("/") else rec["dir"] + "/" + str(p)) if p is not None else None
        if p not in files:
            raise Violation("log-missing", f"{what}: {rec['f']['name']} ran, but its standard output was {rec['out']!r}, not a log file")
        if p in seen:
            raise Violation("log-shared", f"{what}: two runs wrote to {p}")
        seen.add(p)
        text = files[p].decode()
        pos = 0
        for s in rec["say"]:
            i = text.find(s, pos)
            if i < 0:
                raise Violation("log-content", f"{what}: {s[:40]!r} was printed by {rec['f']['name']}, but is not in its log {p}")
            pos = i + len(s)
        SIM.probe("log-complete")
    for p, d in files.items():
        if p.endswith(".txt") and not p.endswith("own.txt"):
            logs[p] = d


def place(fs, op, wrapped):
    """Turn the fault's relative position into a disk operation or statement number by a dry run."""
    fault = op["fault"]

    def dry():
        with fs:
            old = sys.stdout
            sys.stdout = Console()
            fs.arm(None)
            w = World(fs, wrapped)
            n = {}
            real = w.execute

            def execute(f, rec):
                n.setdefault("before", SIM.lines.count)
                return real(f, rec)
            w.execute = execute
            with SIM.lines.counting():
                try:
                    w.call(op["f"], {})
                except BaseException:
                    pass
            sys.stdout = old
        return fs.trace, n.get("before", SIM.lines.count), sum(len(d) for d in fs.files().values())
    r = fork_call(dry, 60)
    if r[0] != "ok":
        raise HarnessError("dry run failed: " + str(r[1])[-400:])
    trace, before, size = r[1]
    k = fault["kind"]
    if k == "line-interrupt":
        return None, 1 + int(fault["at"] * before)
    if k == "full":
        return {"kind": k, "room": int(fault["at"] * (size - fs.used() + 50))}, None
    on = [x for x in fault.get("on", FAULTABLE) if x in trace] or [x for x in FAULTABLE if x in trace]
    m = sum(x in on for x in trace)
    return ({"kind": k, "at": 1 + int(fault["at"] * m), "on": on, "part": fault["part"]} if m else None), None
