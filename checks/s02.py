"""S02: solving leaves the problem's bounds, locks, variables and constraints as the user defined them."""
import numpy as np
from sim.core import SIM, Violation
from . import optlib as O
from . import solverlib as S

RUNS = {"quick": 3000, "thorough": 45000}
RULE = ("Generated problems are solved 1-3 times by all solvers (also with reused solver objects and locked variables); in most runs a failure strikes at a random point of a solve: an interruption or memory error at a "
        "chosen statement anywhere in the library, the user's function or the structural analysis raising on its n-th call, or the model refusing a value. Afterwards bounds, locks, allowed values, variable list, "
        "constraints (coefficients, type, owner) and objective are compared exactly with the definition, and the same problem is solved again with and without the same solver: the evaluations and the result are bit-identical to those "
        "of a problem built afresh. Non-trivial: a failure struck inside a solve, or a solver that changes bounds or locks while searching finished.")
REAL = ["metku.optimization.solvers (all in the list)", "metku.optimization.structopt, variables, constraints", "ortools, gurobi, scipy, deap"]
STUB = ["the structural analysis (closed-form function of the model with injectable failures)"]
ASSUMPTIONS = ["a second failure inside the clean-up of the first is outside the property: an interruption that strikes a finally block or exception handler of the library is not judged"]


def gen(rng, i, tier):
    r = rng
    g = r.pick([("cont", 4), ("mixed", 5), ("disc", 3), ("int", 4), ("any", 2)])
    s = S.gen_spec(r, g, p_fea=0.5)
    ops = []
    for _ in range(r.pick([(1, 5), (2, 2)])):
        ops += S.lock_ops(r, s)
        op = S.gen_solve(r, s, g)
        if op["spec"]["k"] not in ("BnB", "VNS-GA", "VNS-SLP", "VNS-MISLP") and r.random() < 0.35:
            op = S.gen_solve(r, s, g)
        if r.random() < 0.8:
            op["fault"] = S.gen_fault(r)
        ops.append(op)
    ops += S.lock_ops(r, s, 0.2)
    last = S.gen_solve(r, s, g)
    prev = [o for o in ops if o["op"] == "solve"][-1]
    if r.random() < 0.5:
        last = dict(prev, seed=last["seed"])
        last.pop("fault", None)
        last["reuse"] = r.random() < 0.5
    last["compare"] = True
    ops.append(last)
    return {"prob": s, "ops": ops}


def solve_fresh(s, ref, op):
    """The same solve on a problem built afresh with the same locks."""
    lv, rf = S.Live(s), O.Ref(s)
    for i in range(len(s["vars"])):
        if ref.locked[i]:
            S.apply_lock(lv, rf, {"op": "lock", "i": i, "x": ref.val[i]})
    sv = S.make_solver(op["spec"], lv)
    S.seed(op["seed"])
    lv.t.start()
    res = S.call(sv, op, lv, S.start_point(op, rf))
    return res, [e[0] for e in lv.t.evals], lv.t.ncon


def plain(res):
    return (None if res[0] is None else float(res[0]), None if res[1] is None else [float(y) for y in res[1]])


def run(plan):
    s = plan["prob"]
    lv, ref = S.Live(s), O.Ref(s)
    sv = made = None
    st = {"solves": 0, "failed": 0, "during_cleanup": 0, "compared": 0}
    for n, op in enumerate(plan["ops"]):
        if op["op"] != "solve":
            S.apply_lock(lv, ref, op)
            continue
        spec = op["spec"]
        what = f"op {n} ({spec['k']}, maxiter {op['maxiter']})"
        if not S.runnable(spec, ref):
            continue
        if not (op.get("reuse") and sv is not None and made == spec):
            sv, made = S.make_solver(spec, lv), spec
        x0 = S.start_point(op, ref)

        def go():
            S.seed(op["seed"])
            lv.t.start()
            return S.call(sv, op, lv, x0)
        if op.get("fault"):
            f = op["fault"]
            if f["kind"] in ("fun", "fea", "set"):
                def go_f():
                    S.seed(op["seed"])
                    ft = lv.t.fault
                    lv.t.start()
                    lv.t.fault = ft
                    return S.call(sv, op, lv, x0)
                out, res = S.attempt(lv, f, go_f, what)
            else:
                out, res = S.attempt(lv, f, go, what)
            if out == "cleanup":
                # a failure of the clean-up itself: nothing more can be said about this problem
                st["during_cleanup"] += 1
                st["nontrivial"] = False
                return st
            if out == "failed":
                st["failed"] += 1
                what += f", after a failure ({f['kind']} {f.get('exc', '')})"
        else:
            out, res = "done", go()
        S.check_problem(lv, ref, what)
        S.same_problem_after(lv, ref, what)
        st["solves"] += 1
        st["searched"] = st.get("searched", 0) + (spec["k"] in ("BnB", "VNS-GA", "VNS-SLP", "VNS-MISLP"))
        if out == "done":
            S.check_form(res, ref, what, may_be_empty=spec["k"] == "BnB")
            if op.get("compare"):
                fr, ev, nc = solve_fresh(s, ref, op)
                if plain(res) != plain(fr) or [e[0] for e in lv.t.evals] != ev:
                    k = next((j for j, (a, b) in enumerate(zip(lv.t.evals, ev)) if a[0] != b), min(len(ev), len(lv.t.evals)))
                    raise Violation("solve-again-differs", f"{what}: solving the problem again gives {plain(res)} after {len(lv.t.evals)} evaluations; the same problem built afresh gives {plain(fr)} after {len(ev)} "
                                    f"(first difference at evaluation {k})")
                st["compared"] += 1
        SIM.log(spec["k"], out, None if res is None else plain(res), len(lv.t.evals))
        SIM.probe("solver:" + spec["k"])
    st["nontrivial"] = st["failed"] > 0 or st.get("searched", 0) > 0
    return st
