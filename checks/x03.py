"""X03: appended result tables keep their header and every earlier row."""
import csv, datetime, io, re
from . import optlib as O
from .v01 import free_x, ready
from .iolib import gen_fault, call
from sim.core import SIM, Violation
from sim.simfs import SimFS
from metku.optimization.to_csv import to_csv

RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("A run draws one to three optimisation problems (different variables, objectives, load cases) and 4-14 operations on a simulated disk: moving to a design, analyses, iterations, locking, passing "
        "days, changing directory, and saves to a few tables (named by the user or after solver, problem and day); about half of the saves meet a fault (failing open, read, write, truncate or close, short "
        "write, full disk, Ctrl-C at any statement, crash with a torn write) or an analysis that fails while the row is computed. After every operation each table holds its header once, every "
        "earlier complete row byte for byte, and one new correct row per successful save. Non-trivial: a fault was met in a save and a later save succeeded.")
REAL = ["metku.optimization.to_csv", "metku.optimization.structopt (objective and counters)", "csv, Python text and buffer layers"]
STUB = ["disk (in-memory)", "clock", "structural analysis (closed form)"]
ASSUMPTIONS = ["one process writes a table at a time", "a line without its line end is the remains of an interrupted save"]
HEAD = ["f*", "x*", "x0", "Iterations", "FEM Analyses"]


class SLP:
    pass


class GA:
    pass


SOLVERS = {"SLP": SLP, "GA": GA}


def gen(r, i, tier):
    probs = []
    for j in range(r.randint(1, 3)):
        s = O.gen_problem(r, p_fea=0.5, grad=0.0)
        probs.append({"s": s, "name": r.choice(["p", "frame", "A_1"])})
    tables = r.sample(["t.csv", "results.csv", "/sim/work/all.csv", ""], r.randint(1, 3))
    ops = []
    for _ in range(r.randint(4, 14 if tier == "quick" else 24)):
        j = r.randrange(len(probs))
        nv = len(probs[j]["s"]["vars"])
        k = r.pick([("move", 4), ("save", 6), ("fea", 0.7), ("iter", 1), ("lock", 0.7), ("unlock", 0.7), ("day", 0.7), ("cd", 0.5)])
        op = {"op": k, "p": j}
        if k == "move":
            op["x"] = [O.rand_value(r, v) for v in probs[j]["s"]["vars"]]
            op["how"] = r.choice(["sub", "obj", "cons"])
        elif k == "save":
            op.update(table=r.choice(tables), solver=r.choice(list(SOLVERS)), pos=r.random() < 0.4)
            x = r.random()
            if x < 0.45:
                op["fault"] = gen_fault(r, ("open", "write", "close", "read", "truncate"))
            elif x < 0.52:
                op["afault"] = O.gen_fault(r, ("fea", "set"))
        elif k in ("lock", "unlock"):
            op["i"] = r.randrange(nv)
        elif k == "iter":
            op["n"] = r.randint(1, 30)
        elif k == "day":
            op["s"] = r.choice([60.0, 43200.0, 86400.0, 2600000.0])
        elif k == "cd":
            op["d"] = r.choice(["/sim/work", "/sim/work/sub"])
        ops.append(op)
    out = []
    for op in ops:
        out.append(op)
        if op["op"] == "save" and ("fault" in op or "afault" in op):
            out.append({"op": "move", "p": op["p"], "x": [O.rand_value(r, v) for v in probs[op["p"]]["s"]["vars"]], "how": "sub"})
    ops = out
    for j in range(len(probs)):
        ops.insert(r.randrange(min(3, len(ops)) + 1), {"op": "move", "p": j, "x": [O.rand_value(r, v) for v in probs[j]["s"]["vars"]], "how": "sub"})
    return {"probs": probs, "ops": ops}


class Table:
    def __init__(self):
        self.done = b""        # header and complete rows
        self.rows = 0

    def parse(self):
        return list(csv.reader(io.StringIO(self.done.decode(), newline="")))


def numbers(t):
    return [float(x) for x in re.findall(r"(?<![\w.])-?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)", t.replace("np.float64", "").replace("np.int64", ""))]


def run(plan):
    L = [(O.Live(p["s"]), O.Ref(p["s"])) for p in plan["probs"]]
    for (lv, _), p in zip(L, plan["probs"]):
        lv.P.name = p["name"]
    fs = SimFS()
    fs.mk("/sim/work/sub")
    tables = {}
    met = good = 0
    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        lv, ref = L[op["p"]]
        P = lv.P
        what = f"op {n} ({k})"
        if k == "move":
            if not ref.free():
                continue
            x = free_x(ref, op)
            if op["how"] != "sub" and not ready(ref):
                continue
            {"sub": P.substitute_variables, "obj": P.obj, "cons": P.eval_cons}[op["how"]](list(x))
            ref.sub(list(x))
            ref.known = [True] * len(ref.known)
        elif k == "fea":
            P.fea()
        elif k == "iter":
            P.num_iters += op["n"]
        elif k == "lock":
            if ref.val[op["i"]] is not None and ref.known[op["i"]]:
                lv.vars[op["i"]].lock()
                ref.locked[op["i"]] = True
        elif k == "unlock":
            lv.vars[op["i"]].unlock()
            ref.locked[op["i"]] = False
        elif k == "day":
            SIM.clock.advance(op["s"])
        elif k == "cd":
            fs.cwd = op["d"]
        else:
            f = op.get("fault")
            if not ref.free() or not all(ref.known) or any(v is None for v in ref.val):
                SIM.probe("no-design")
                continue
            path = name_of(op, P, fs)
            t = tables.setdefault(path, Table())
            r = save(lv, ref, op, fs, t, path, what)
            if r == "ok":
                good += met > 0
            elif f or op.get("afault"):
                met += 1
        for path, t in tables.items():
            if not (fs.read(path) or b"").startswith(t.done):
                raise Violation("rows-changed", f"{what}: rows of {path} saved earlier were changed: " + diff(t.done, fs.read(path) or b""))
    return {"nontrivial": met > 0 and good > 0, "saves_after_fault": good, "rows": sum(t.rows for t in tables.values())}


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{len(a)} bytes before, {len(b)} now, first difference at {i}: {a[max(0, i - 20):i + 60]!r} / {b[max(0, i - 20):i + 60]!r}"


def name_of(op, P, fs):
    name = op["table"] or "{}_{}{}.csv".format(op["solver"], P.name, datetime.datetime.now().strftime("_%Y_%m_%d"))
    return fs.abspath(name)


def save(lv, ref, op, fs, t, path, what):
    P = lv.P
    solver = SOLVERS[op["solver"]]()
    vals = list(ref.val)

    def go():
        if not op["table"]:
            to_csv(P, solver)
        elif op["pos"]:
            to_csv(P, solver, op["table"])
        else:
            to_csv(P, solver, name=op["table"])
    if op.get("afault"):
        with fs:
            done, _ = O.attempt(lv, op["afault"], go, what)
        status = "ok" if done else "failed"
        if not done:
            SIM.probe("row-not-computed")
    else:
        status, _ = call(fs, op.get("fault"), go, what, len(t.done) // 4 + 200)
    if status != "ok":
        for i in ref.free():                     # evaluating the row may have been cut off; the design is set again before the next save
            ref.known[i] = False
    data = fs.read(path)
    if fs.open_handles():
        raise Violation("unclosed", f"{what}: {fs.open_handles()} left open")
    full = data[:data.rfind(b"\n") + 1] if data is not None else b""
    if not full.startswith(t.done):
        raise Violation("rows-changed", f"{what} ({status}): rows of {path} saved earlier were changed: " + diff(t.done, data or b""))
    new = list(csv.reader(io.StringIO(full[len(t.done):].decode(), newline="")))
    if status == "ok" and data != full:
        raise Violation("torn-row", f"{what}: the save returned, but {path} ends with {data[len(full):]!r}")
    header_due = not t.done
    if header_due and new:
        if new[0] != HEAD:
            raise Violation("header", f"{what}: {path} starts with {new[0]} instead of the header")
        new = new[1:]
    if status == "ok" and len(new) != 1 or len(new) > 1:
        raise Violation("rows", f"{what} ({status}): {len(new)} rows were added to {path}: {new}")
    if new:
        row(new[0], lv, ref, vals, f"{what} ({status})")
        t.rows += 1
    t.done = full
    if status == "ok":
        if op.get("fault"):
            SIM.probe("fault-survived")
        O.check_design(lv, ref, what, "design-changed")
    SIM.log("save", status, path, t.rows)
    return status


def row(got, lv, ref, vals, what):
    P = lv.P
    if len(got) != len(HEAD):
        raise Violation("row", f"{what}: row {got} does not fit the header {HEAD}")
    d = dict(zip(HEAD, got))
    e = ref.obj(vals)
    if abs(float(d["f*"]) - e) > 1e-9 * max(1.0, abs(e)):
        raise Violation("row:objective", f"{what}: f* = {d['f*']}, the design {vals} has {e}")
    free = [vals[i] for i in ref.free()]
    for col, want in (("x*", free), ("x0", P.x0)):
        if want is None:
            if numbers(d[col]):
                raise Violation("row:" + col, f"{what}: {col} = {d[col]!r} although there is no starting point")
            continue
        g = numbers(d[col])
        if len(g) != len(want) or any(abs(a - b) > 0.00501 for a, b in zip(g, want)):
            raise Violation("row:" + col, f"{what}: {col} = {d[col]!r}, expected {list(want)}")
    if numbers(d["Iterations"]) != [P.num_iters] or numbers(d["FEM Analyses"]) != [P.num_fem_analyses]:
        raise Violation("row:counters", f"{what}: counters {d['Iterations']!r}, {d['FEM Analyses']!r}; the problem has {P.num_iters}, {P.num_fem_analyses}")
