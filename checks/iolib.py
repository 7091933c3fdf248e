"""One call on the simulated disk with one fault placed on any of its disk operations or statements."""
import gc
from sim.core import SIM, Violation, HarnessError, SimInterrupt, SimCrash, fork_call

DEFAULT_ON = ("open", "mkdir", "write", "close", "replace", "remove", "truncate", "read", "openr", "fsync", "chdir")


def gen_fault(r, ops=("open", "write", "close"), lines=True):
    k = r.pick([("enospc", 3), ("eio", 3), ("eacces", 2), ("short", 2), ("short_enospc", 2), ("eintr", 1), ("interrupt", 2), ("crash", 3), ("full", 2), ("line-interrupt", 2 if lines else 0)])
    f = {"kind": k, "at": r.random(), "part": r.random()}
    if k not in ("full", "line-interrupt") and r.random() < 0.6:
        f["on"] = [r.choice(list(ops))]
    return f


def call(fs, f, fn, what, size=400):
    """Returns (status, value or error): status ok | failed | crash.  ``fn`` runs in the simulated process."""
    if not f:
        with fs:
            return "ok", fn()
    k = f["kind"]

    def dry():
        with fs:
            fs.arm(None)
            with SIM.lines.counting() as c:
                fn()
        return fs.trace, c.count
    r = fork_call(dry, 60)
    if r[0] != "ok":
        with fs:
            fn()
        raise HarnessError("dry run failed: " + str(r[1])[-300:])
    trace, lines = r[1]
    fault, at = None, None
    exc = SimInterrupt()
    if k == "line-interrupt":
        at = 1 + int(f["at"] * lines)
    elif k == "full":
        fault = {"kind": k, "room": int(f["at"] * (size + 50))}
    else:
        on = [x for x in f.get("on", DEFAULT_ON) if x in trace] or list(dict.fromkeys(trace))
        n = sum(x in on for x in trace)
        if not n:
            with fs:
                return "ok", fn()
        fault = {"kind": k, "at": 1 + int(f["at"] * n), "on": on, "part": f["part"]}
    fs.arm(fault)
    status, val, err = "failed", None, None
    try:
        with fs:
            with SIM.lines.counting(fire_at=at, exc=exc) as c:
                val = fn()
        status = "ok"
    except (OSError, KeyboardInterrupt, SimCrash) as e:
        err = e
    except Exception as e:
        if fs.fired is None and c.fired is None:
            raise
        err = e
    fired = fs.fired or c.fired
    if status != "ok" and fired is None:
        raise err
    if c.fired:
        SIM.fault("interrupt")
        if status == "ok":
            raise Violation("interrupt-swallowed", f"{what}: an interruption was not reported")
    if status != "ok" and k in ("short", "eintr"):
        raise Violation("retryable-fault-fatal", f"{what} failed with {err!r} although the {k} write can be continued")
    SIM.log("fault", k, status, str(fired))
    SIM.probe(f"{status}:{k}" if fired else "fault-not-reached")
    if k == "crash" and fired:
        fs.reboot()
        return "crash", None
    out = f"{type(err).__name__}: {err}"
    if c.fired:
        exc = c.exc = err = None      # a Ctrl-C at the closing of a with block leaves closing to the interpreter
        gc.collect()
    fs.disarm()
    if status != "ok" and fs.open_handles():
        raise Violation("unclosed", f"{what} failed with {out} and left {fs.open_handles()} open")
    return status, val if status == "ok" else out
