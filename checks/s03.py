"""S03: a seeded search is reproducible and independent of earlier runs, the clock, the hash seed and hidden entropy."""
import json, os, subprocess, sys
import numpy as np
from sim.core import SIM, Violation, HarnessError
from . import optlib as O
from . import solverlib as S
from .s02 import plain

RUNS = {"quick": 3000, "thorough": 45000}
RULE = ("One solve (any solver, settings, random stream, starting point, iteration limit, locked variables) is done first in a fresh process image, then repeated on new problem and solver objects after a generated "
        "disturbance: other solves on other problems, with solver objects of the same and other classes (some of them interrupted), another clock speed (also per reading and per analysis), another state of the "
        "entropy source and, in a few runs, another process with another hash seed. A second solver object with the same settings is created before, and in some runs has solved other problems in between. All objective evaluations, the number of "
        "constraint evaluations and the result must be bit-identical. Non-trivial: a disturbance ran between the two solves and the search evaluated at least 5 designs.")
REAL = ["metku.optimization.solvers (all in the list)", "metku.optimization.structopt", "ortools, gurobi, scipy, deap"]
STUB = ["the structural analysis (closed-form function of the model)", "clock", "entropy source of numpy.random.default_rng"]
ASSUMPTIONS = ["the random stream is numpy's and Python's global generator, both seeded by the user", "no time limit is reached", "memory addresses are not varied deliberately"]


def gen(rng, i, tier):
    r = rng
    g = S.gen_group(r)
    s = S.gen_spec(r, g)
    locks = S.lock_ops(r, s)
    op = S.gen_solve(r, s, g)
    between = []
    for _ in range(r.pick([(0, 1), (1, 4), (2, 2)])):
        g2 = g if r.random() < 0.6 else S.gen_group(r)
        same = r.random() < 0.3
        s2 = s if same else S.gen_spec(r, g2)
        o2 = S.gen_solve(r, s2, g if same else g2)
        if g2 == g and r.random() < 0.5:
            o2["spec"] = op["spec"]
            if o2["spec"]["k"] == "PSO":
                o2["x0"] = None
            o2["maxiter"] = min(o2["maxiter"], 8) if o2["spec"]["k"] != "COBYLA" else 20
            if o2["spec"]["k"] in ("VNS-GA", "VNS-SLP", "VNS-MISLP"):
                o2["maxiter"] = min(o2["maxiter"], 3)
        if r.random() < 0.3:
            o2["fault"] = {"kind": "fun", "n": r.logint(1, 60), "exc": r.choice(["error", "interrupt"])}
        between.append({"prob": s2, "op": o2})
    return {"prob": s, "locks": locks, "op": op, "ops": between, "tick": r.choice([0.0, 1e-4, 0.01, 5.0]), "dt": r.choice([0.0, 0.01, 60.0]), "two": r.random() < 0.5,
            "used": r.random() < 0.4,
            "hash": i % (250 if tier == "quick" else 600) == 3}


def suits(k, s):
    """Can a solver of kind k work on the problem's variables?"""
    kinds = {v["k"] for v in s["vars"]}
    return any(k in dict(solvers) and kinds <= {q for q, _ in ks} for ks, solvers in S.GROUPS.values())


def one(s, locks, op, sv=None, lv=None):
    lv = lv or S.Live(s)
    ref = O.Ref(s)
    for l in locks:
        S.apply_lock(lv, ref, l)
    if not S.runnable(op["spec"], ref):
        return None
    sv = sv or S.make_solver(op["spec"], lv)
    lv.t.start()
    S.seed(op["seed"])
    ft = op.get("fault")
    f = None
    if ft:
        f = {"n": ft["n"], "exc": O.make_exc(ft["exc"], S.SimFunctionError), "fired": False}
        lv.t.fault = f
    try:
        res = S.call(sv, op, lv, S.start_point(op, ref))
    except BaseException:
        if f is None or not f["fired"]:
            raise
        return None
    st = np.random.get_state()
    return {"res": plain(res), "ev": [e[0] for e in lv.t.evals], "nc": lv.t.ncon, "rng": int(st[2])}


def run(plan):
    s, op = plan["prob"], plan["op"]
    what = f"{op['spec']['k']}, maxiter {op['maxiter']}, x0 {'given' if op['x0'] else 'chosen by the solver'}"
    a = one(s, plan["locks"], op)
    if a is None:
        return {"nontrivial": False, "skipped": 1}
    lvb = svb = None
    if plan["two"]:
        lvb = S.Live(s)
        svb = S.make_solver(op["spec"], lvb)
    SIM.clock.tick = plan["tick"]
    SIM.entropy.random()
    n = 0
    for b in plan["ops"]:
        one(b["prob"], [], b["op"])
        n += 1
    if plan.get("used") and op["spec"]["k"] != "BnB":
        # the solver object has been used before, on other problems
        svb = svb or S.make_solver(op["spec"], S.Live(s))
        for b in [x for x in plan["ops"] if x["op"]["spec"] == op["spec"]] or plan["ops"][:1]:
            o2 = dict(b["op"], spec=op["spec"], maxiter=min(b["op"]["maxiter"], 3 if op["spec"]["k"] != "COBYLA" else 20))
            if op["spec"]["k"] == "PSO":
                o2["x0"] = None
            if suits(op["spec"]["k"], b["prob"]):
                one(b["prob"], [], o2, svb, S.Live(b["prob"]))
                SIM.probe("solver object used before")
    if lvb is None:
        lvb = S.Live(s)
    lvb.w.dt = plan["dt"]
    b = one(s, plan["locks"], op, svb, lvb)
    SIM.clock.tick = 0.0
    compare(a, b, what + f", after {n} other solve(s)")
    if plan["hash"]:
        c = other_process(plan)
        compare(a, c, what + ", in another process with another hash seed")
    SIM.log(op["spec"]["k"], a["res"], len(a["ev"]))
    SIM.probe("solver:" + op["spec"]["k"])
    return {"nontrivial": n > 0 and len(a["ev"]) >= 5, "evaluations_compared": len(a["ev"]), "other_process": int(bool(plan["hash"]))}


def compare(a, b, what):
    for k, (x, y) in enumerate(zip(a["ev"], b["ev"])):
        if tuple(x) != tuple(y):
            raise Violation("not-reproducible:designs", f"{what}: design {k} evaluated is {list(y)} instead of {list(x)}")
    if len(a["ev"]) != len(b["ev"]) or a["nc"] != b["nc"]:
        raise Violation("not-reproducible:length", f"{what}: {len(b['ev'])} objective and {b['nc']} constraint evaluations instead of {len(a['ev'])} and {a['nc']}")
    if a["res"] != b["res"]:
        raise Violation("not-reproducible:result", f"{what}: result {b['res']} instead of {a['res']}")


def other_process(plan):
    from sim.runner import child_env, VERIF, PY
    code = ("import sys, json; sys.path.insert(0, %r)\n"
            "from sim import runner; mod = runner.load('S03')\n"
            "from sim.core import SIM\n"
            "p = json.loads(sys.stdin.read()); SIM.reset('other'); \n"
            "with SIM.quiet():\n    r = mod.one(p['prob'], p['locks'], p['op'])\n"
            "open(sys.argv[1], 'w').write(json.dumps(r))\n") % VERIF
    import tempfile
    h = (int(os.environ.get("PYTHONHASHSEED", "0") or 0) + 1013) % 4294967295
    fd, path = tempfile.mkstemp(prefix="s03_")
    os.close(fd)
    try:
        pr = subprocess.run([PY, "-c", code, path], input=json.dumps(plan), text=True, capture_output=True, env=child_env(h), timeout=100)
        if pr.returncode:
            raise HarnessError("other process failed: " + pr.stderr[-500:])
        r = json.load(open(path))
    finally:
        os.unlink(path)
    r["res"] = (r["res"][0], r["res"][1])
    return r
