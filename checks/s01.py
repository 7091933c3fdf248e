"""S01: an optimiser returns the best feasible design it evaluated, with its true value."""
import numpy as np
from sim.core import SIM, Violation
from . import optlib as O
from . import solverlib as S

RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("Small generated problems (2-4 variables of every kind, 1-4 constraints placed around a random allowed design, analysed by a simulated structure) are solved 1-3 times by SLP, MISLP, MMA, SLSQP, COBYLA, "
        "trust-constr, GA, PSO, VNS, DiscreteVNS and branch and bound with random settings, random streams, starting points inside, on and outside the bounds, iteration limits from one upwards, locked variables "
        "and reused solver objects. Every objective evaluation is recorded; the returned pair is judged against the closed form and the accepted designs. Non-trivial: at least one feasible design was accepted.")
REAL = ["metku.optimization.solvers (optsolver, slp, mislp, mma, slsqp, trust_region, ga, pso, vns, bnb)", "metku.optimization.structopt", "ortools, gurobi, scipy, deap"]
STUB = ["the structural analysis (closed-form function of the model)"]
ASSUMPTIONS = ["functions are finite everywhere within the bounds", "accepted designs: the recorded iterates of sequential solvers, every evaluated design of population and neighbourhood searches, designs evaluated outside the relaxation solver in branch and bound, starting point and end point of the scipy solvers",
               "a design within half of con_tol counts as feasible"]


def gen(rng, i, tier):
    r = rng
    g = S.gen_group(r)
    s = S.gen_spec(r, g)
    ops = []
    for _ in range(r.pick([(1, 4), (2, 3), (3, 1.5)])):
        ops += S.lock_ops(r, s)
        op = S.gen_solve(r, s, g)
        prev = [o for o in ops if o["op"] == "solve"]
        if prev and r.random() < 0.5:
            op["spec"] = prev[-1]["spec"]
            op["reuse"] = True
            op["maxiter"] = max(op["maxiter"], 9) if op["spec"]["k"] == "COBYLA" else op["maxiter"] if op["spec"]["k"] not in ("VNS-GA", "VNS-MISLP", "MMA") else min(op["maxiter"], 4)
            if op["spec"]["k"] == "PSO":
                op["x0"] = None
        ops.append(op)
    return {"prob": s, "ops": ops}


def run(plan):
    s = plan["prob"]
    lv, ref = S.Live(s), O.Ref(s)
    st = {"solves": 0, "found": 0, "candidates": 0, "improvements": 0, "skipped": 0}
    sv = made = None
    for n, op in enumerate(plan["ops"]):
        if op["op"] != "solve":
            S.apply_lock(lv, ref, op)
            continue
        spec = op["spec"]
        what = f"op {n} ({spec['k']}, maxiter {op['maxiter']})"
        if not S.runnable(spec, ref):
            st["skipped"] += 1
            continue
        if not (op.get("reuse") and sv is not None and made == spec):
            sv, made = S.make_solver(spec, lv), spec
        S.seed(op["seed"])
        lv.t.start()
        x0 = S.start_point(op, ref)
        keep = None if x0 is None else list(x0)
        res = S.call(sv, op, lv, x0)
        if x0 is not None and list(x0) != keep:
            raise Violation("starting-point-changed", f"{what}: the caller's starting point {keep} was changed to {list(x0)}")
        r = S.check_result(res, op, sv, lv, ref, x0, what)
        # the returned design does not change when the problem is used afterwards
        if res[1] is not None:
            before = [float(y) for y in res[1]]
            for i in ref.free():
                lv.vars[i].substitute(S.O.init_value(s, s["vars"][i]))
            if [float(y) for y in res[1]] != before:
                raise Violation("result-changed", f"{what}: the returned design changed with the problem")
        for i in ref.free():
            ref.val[i] = lv.vars[i].value
        ref.model.update({k: v for k, v in lv.model().items()})
        st["solves"] += 1
        st["found"] += r["found"]
        st["candidates"] += r["candidates"]
        st["improvements"] += max(0, r.get("improved", 1) - 1)
        SIM.log(spec["k"], None if res[0] is None else float(res[0]), None if res[1] is None else [float(y) for y in res[1]], len(lv.t.evals))
        SIM.probe("solver:" + spec["k"])
    st["nontrivial"] = st["found"] > 0
    return st
