"""X01: an export either writes the complete file or reports the failure."""
import copy, gc
from . import exportlib as E, raamilib as R
from sim.core import SIM, Violation, HarnessError, SimInterrupt, SimCrash, fork_call
from sim.simfs import SimFS

RUNS = {"quick": 1500, "thorough": 9000}
RULE = ("A run draws a frame or a roof truss and 2-6 exports (Robot file, Abaqus files, utilisation report) to a simulated disk, mixed with edits; about two thirds of the exports meet "
        "one fault placed on any of their disk operations (no space, I/O error, permission, short write, short write then full, interrupted call, disk full after n bytes, Ctrl-C, "
        "process crash with a torn write) or a Ctrl-C at any statement, an obstacle in the way, or leftovers of an older longer file. An export that returns must have left exactly the files an "
        "identically defined frame writes on a healthy disk, and an independent reader must find the model's own records in them; one that fails must say so and leave no handle open; repeating it on a healthy disk gives the complete files. "
        "Non-trivial: a fault was met and the export repeated.")
REAL = ["metku.raami exports (to_robot, to_abaqus, print_member_utilization)", "section exports", "Python text and buffer layers"]
STUB = ["disk (in-memory raw files and directories with injected faults)", "clock"]
ASSUMPTIONS = ["Abaqus export of hollow sections only, as the library supports", "after a crash the process restarts and defines the frame again"]


def gen(r, i, tier):
    what = r.choice(["robot", "abaqus", "abaqus", "util"])
    m = E.gen_model(r, what)
    plan = {"model": m, "ops": []}
    s = R.from_json(m["init"]) if m["kind"] == "frame" else None
    for _ in range(r.randint(2, 6 if tier == "quick" else 10)):
        if s is not None and r.random() < 0.35:
            g = R.gen_edit(r, s, EDITS if what == "abaqus" else None)
            if g and all(x["k"] in ("rhs", "ipe", "hea") for x in g[1].secs.values()):
                plan["ops"].append(g[0])
                s = g[1]
        op = E.gen_export(r, what, m, 0.65)
        if r.random() < 0.2:
            op["junk"] = r.choice([10, 3000, 100000])
        plan["ops"].append(op)
    return plan


EDITS = [("move", 4), ("hinge", 2), ("add_sup", 1), ("add_load", 2)]


def run(plan):
    model = E.Model(plan["model"])
    fs = SimFS()
    n = 0
    for op in plan["ops"]:
        if op["op"] != "export":
            edit(model, op)
            continue
        SIM.clock.advance(op["clock"])
        E.ready(model, op)
        gold, scratch = E.golden(model, op)
        E.prepare(fs, op)
        if op.get("junk"):
            leftovers(fs, op)
        opts = E.make_options(model, op)
        f = op.get("fault")
        if f:
            n += 1
            model, fs = faulty(model, fs, op, f, gold, opts)
            opts = E.make_options(model, op)
        with fs:
            E.call(model, op, opts)
        complete(fs, op, gold, "after the fault is gone" if f else "on a healthy disk")
        E.check_content(model, op, {p: fs.read(p) for p in E.targets(op)}, opts)
        SIM.log("export", op["what"], [(k.rsplit("/", 1)[-1], len(v)) for k, v in gold.items()])
        SIM.probe("export:" + op["what"])
    return {"nontrivial": n > 0, "faults_met": n}


def edit(model, op):
    t = copy.deepcopy(model.s)
    if R.apply_spec(t, op) and t.stable(1e-8):
        R.apply_live(model.lv, model.s, t, op)
        model.s = t
        model.dirty = True


def leftovers(fs, op):
    for p in E.targets(op):
        try:
            fs.put(p, b"old content of the file\n" * (op["junk"] // 24 + 1))
        except (FileNotFoundError, NotADirectoryError):
            d = p.rsplit("/", 1)[0]
            fs.mk(d)
            fs.put(p, b"old content of the file\n" * (op["junk"] // 24 + 1))


def complete(fs, op, gold, when):
    if fs.open_handles():
        raise Violation("unclosed", f"{op['what']} export {when}: still open: {fs.open_handles()}")
    for p, want in gold.items():
        got = fs.read(p)
        if op["what"] == "util" and got is not None:
            # the order of the load cases within a member is not part of the property
            got, want = (b"\n".join(sorted(x.split(b"\n"))) for x in (got, want))
        if got != want:
            raise Violation("incomplete", f"{op['what']} export {when} returned normally, but {p} " + ("is missing" if got is None else describe(got, want)))


def describe(got, want):
    i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return f"has {len(got)} of {len(want)} bytes, first difference at byte {i}: {got[i:i + 40]!r} instead of {want[i:i + 40]!r}"


def faulty(model, fs, op, f, gold, opts):
    """The export with one fault.  Returns the model and disk to go on with."""
    k = f["kind"]
    if k == "obstacle":
        return obstacle(model, fs, op, gold, opts), fs

    def dry():
        import sim.simfs
        with fs:
            fs.arm(None)
            with SIM.lines.counting() as c:
                E.call(model, op, opts)
        return fs.count, fs.trace, c.count, sum(len(x) for x in gold.values())
    r = fork_call(dry, 60)
    if r[0] != "ok":
        with fs:
            E.call(model, op, opts)
        raise HarnessError("dry run failed: " + str(r[1])[-300:])
    count, trace, lines, size = r[1]
    fault, at = None, None
    exc = SimInterrupt()
    if k == "line-interrupt":
        at = 1 + int(f["at"] * lines)
    elif k == "full":
        fault = {"kind": k, "room": int(f["at"] * (size + 200))}
    else:
        on = [x for x in f.get("on", ("open", "mkdir", "write", "close", "replace", "remove", "truncate")) if x in trace]
        if not on:
            on = list(dict.fromkeys(x for x in trace if x != "openr"))
        c = sum(x in on for x in trace)
        fault = {"kind": k, "at": 1 + int(f["at"] * c), "on": on, "part": f["part"]}
    fs.arm(fault)
    ok = False
    err = None
    try:
        with fs:
            with SIM.lines.counting(fire_at=at, exc=exc) as c:
                E.call(model, op, opts)
        ok = True
    except (OSError, KeyboardInterrupt, SimCrash) as e:
        err = e
    except Exception as e:
        if fs.fired is None and c.fired is None:
            raise
        err = e
    fired = fs.fired or c.fired
    name = type(err).__name__
    if c.fired:
        SIM.fault("interrupt")
    if not ok and fired is None:
        raise err
    if not ok and k in ("short", "eintr"):
        raise Violation("retryable-fault-fatal", f"{op['what']} export failed with {err!r} although the {k} write can be continued")
    if k == "crash" and fired:
        # the process dies here; a new one defines the frame again
        fs.reboot()
        err = None
        return model.again_ready(op), fs
    if c.fired:
        # a Ctrl-C at the closing of a with block itself leaves closing to the interpreter
        err = exc = None
        c.exc = None
        gc.collect()
    if not ok and fs.open_handles():
        raise Violation("unclosed", f"{op['what']} export failed with {name} and left {fs.open_handles()} open")
    fs.disarm()
    if ok:
        complete(fs, op, gold, f"with {k} at {fired}")
        SIM.probe("fault-survived:" + k if fired else "fault-not-reached")
    else:
        SIM.probe("failed:" + k)
    SIM.log("fault", k, ok, str(fired))
    return model, fs


def obstacle(model, fs, op, gold, opts):
    """Something else sits where the export wants to write."""
    p = E.targets(op)[0]
    d = p.rsplit("/", 1)[0] if op["what"] == "abaqus" else p
    if op["what"] == "abaqus":
        if fs.read(d) is None and d.rsplit("/", 1)[0] and d in dirs(fs):
            return model
        fs.put(d, b"a file")
    else:
        if fs.read(p) is not None:
            return model
        fs.mk(d)
    try:
        with fs:
            E.call(model, op, opts)
    except OSError:
        SIM.fault("fs:obstacle")
    else:
        raise Violation("incomplete", f"{op['what']} export to {p} returned normally although {d} is in the way")
    if fs.open_handles():
        raise Violation("unclosed", f"{op['what']} export left {fs.open_handles()} open")
    with fs:
        import os
        os.remove(d)
    return model


def dirs(fs):
    out = []

    def walk(n, p):
        for k, c in n.children.items():
            if c.dir:
                out.append(p + "/" + k)
                walk(c, p + "/" + k)
    walk(fs.root, "/sim")
    return out
