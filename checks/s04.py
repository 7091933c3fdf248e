"""S04: solvers stop within their iteration and time limits with a usable answer."""
import numpy as np
from sim.core import SIM, Violation
from . import optlib as O
from . import solverlib as S

RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("Solves of generated problems under a simulated clock that moves with every function evaluation (fixed durations, stalls at chosen evaluations, forward jumps far beyond the limit), with an iteration limit "
        "(zero or one upwards) and, for the solvers that take one, a time limit from zero upwards; new and reused solver objects. The number of iterations done and started after the limit passed is counted from "
        "the recorded evaluations, iterates and relaxation calls; the answer must have the normal form and be the best accepted design. Non-trivial: a limit ended the search.")
REAL = ["metku.optimization.solvers (all in the list)", "metku.optimization.structopt", "ortools, gurobi, scipy, deap"]
STUB = ["the structural analysis (closed-form function of the model)", "clock (wall clock and processor time move together)"]
ASSUMPTIONS = ["an iteration in progress when the limit passes may be completed", "SLSQP, COBYLA, trust-constr and branch and bound take an iteration limit only"]


def gen(rng, i, tier):
    r = rng
    g = S.gen_group(r)
    s = S.gen_spec(r, g)
    ops = []
    for _ in range(r.pick([(1, 5), (2, 2)])):
        timed = r.random() < 0.65
        op = S.gen_solve(r, s, g, only=None if not timed else [k for k, _ in S.GROUPS[g][1] if k in S.TIMED])
        k = op["spec"]["k"]
        prev = [o for o in ops if o["op"] == "solve"]
        if prev and r.random() < 0.6 and (not timed or prev[-1]["spec"]["k"] in S.TIMED):
            op["spec"], op["reuse"] = prev[-1]["spec"], True
            k = op["spec"]["k"]
            op["maxiter"] = min(op["maxiter"], 4) if k in ("VNS-GA", "VNS-SLP", "VNS-MISLP", "MMA") else max(op["maxiter"], 9) if k == "COBYLA" else op["maxiter"]
            if k == "PSO":
                op["x0"] = None
        if k in ("SLP", "MISLP", "MMA", "GA", "PSO", "DVNS") and r.random() < 0.06:
            op["maxiter"] = 0
        op["dt"] = r.choice([0.0, 0.1, 1.0, 30.0])
        if timed and k in S.TIMED:
            n = r.logint(1, 300)                       # the limit passes around this many evaluations
            op["maxtime"] = r.choice([0, 0.5, n * (op["dt"] or 1.0) * r.uniform(0.5, 1.2), n * (op["dt"] or 1.0), 1e6])
            if k == "DVNS" and r.random() < 0.3:
                op["maxiter"] = None
        op["stalls"] = [[r.logint(1, 250), r.choice([3.0, 1e3, 1e7])] for _ in range(r.pick([(0, 2), (1, 3), (2, 1)]))]
        if k == "DVNS" and op["maxiter"] is None and not op["dt"]:
            op["dt"] = 0.5
        if k == "DVNS" and op["maxiter"] is None:
            op["maxtime"] = min(op["maxtime"], 400 * op["dt"])
        ops += S.lock_ops(r, s, 0.2) + [op]
    return {"prob": s, "ops": ops}


def state(k, sv, lv):
    return len(sv.xvals) if k in S.SEQ else None


def run(plan):
    s = plan["prob"]
    lv, ref = S.Live(s), O.Ref(s)
    st = {"solves": 0, "time_limited": 0, "iteration_limited": 0, "improvements": 0}
    sv = made = None
    for n, op in enumerate(plan["ops"]):
        if op["op"] != "solve":
            S.apply_lock(lv, ref, op)
            continue
        spec = op["spec"]
        k = spec["k"]
        mt = op.get("maxtime")
        what = f"op {n} ({k}, maxiter {op['maxiter']}{'' if mt is None else f', maxtime {mt:g}'})"
        if not S.runnable(spec, ref):
            continue
        if not (op.get("reuse") and sv is not None and made == spec):
            sv, made = S.make_solver(spec, lv), spec
        S.seed(op["seed"])
        x0 = S.start_point(op, ref)
        t = lv.t
        t.start(dt=op["dt"], stalls=op["stalls"], limit=mt)
        t.probe = lambda: state(k, sv, lv)
        lv.w.dt = s["dt"]
        it0 = lv.P.num_iters
        rc0 = sv.lb_solver.calls if k == "BnB" else 0
        with SIM.lines.counting(budget=4_000_000):
            res = S.call(sv, op, lv, x0, mt)
        t.stalls = {}
        t.dt = 0.0
        limited = False
        ev = t.evals
        # ---- iterations
        mi = op["maxiter"]
        nfree = len(ref.free())
        if k in S.SEQ:
            done = len(sv.xvals) - 1
            if done > mi:
                raise Violation("too-many-iterations", f"{what}: {done} iterations")
            st["iteration_limited"] += done == mi
        elif k in ("PSO", "GA"):
            done = lv.P.num_iters - it0
            if done > mi:
                raise Violation("too-many-iterations", f"{what}: {done} iterations")
            per = spec["pop"] if k == "PSO" else 2 * (spec["pop"] + 5) + 2
            nd = distinct(ev)
            if nd > spec["pop"] + per * mi + 2:
                raise Violation("too-many-iterations", f"{what}: {nd} designs were evaluated by {spec['pop']} individuals")
            st["iteration_limited"] += done == mi
        elif k == "DVNS":
            imp = improvements(s, ref, ev)
            if mi is not None and imp > mi:
                raise Violation("too-many-iterations", f"{what}: the search moved to a better design {imp} times")
            st["iteration_limited"] += imp == mi
        elif k == "BnB":
            done = sv.lb_solver.calls - rc0
            if done > mi:
                raise Violation("too-many-iterations", f"{what}: {done} relaxations were solved")
            st["iteration_limited"] += done == mi
        elif getattr(sv, "result", None) is not None:
            nit = getattr(sv.result, "nit", None) if k != "COBYLA" else getattr(sv.result, "nfev", None)
            if nit is not None and nit > mi + (1 if k == "TRC" else 0):
                raise Violation("too-many-iterations", f"{what}: {nit} {'iterations' if k != 'COBYLA' else 'evaluations'}")
            st["iteration_limited"] += nit is not None and nit >= mi
        # ---- time
        if mt is not None and (t.crossed is not None or mt == 0):
            c = t.crossed or {"evals": len(ev), "state": state(k, sv, lv)}
            after = len(ev) - c["evals"]
            st["time_limited"] += 1
            limited = True
            if k in S.SEQ and c["state"] is not None and len(sv.xvals) > c["state"] + 1:
                raise Violation("iteration-after-limit", f"{what}: the time limit passed when {c['state']} iterates were known, the run went on to {len(sv.xvals)}")
            bound = {"SLP": 4 * nfree + 12, "MISLP": 4 * nfree + 12, "MMA": 4 * nfree + 12, "PSO": 2 * spec.get("pop", 0) + 3, "GA": 3 * (spec.get("pop", 0) + 8), "DVNS": 4,
                     "VNS-GA": 4 * (max(5, spec.get("pop", 0)) + 8) + 10, "VNS-SLP": 8 * nfree + 24, "VNS-MISLP": 8 * nfree + 24}[k]
            if s["grad"] is False and after > bound:
                raise Violation("search-after-limit", f"{what}: {after} more designs were evaluated after the time limit had passed (one iteration needs at most {bound})")
        # ---- answer
        r = S.check_result(res, op, sv, lv, ref, x0, what)
        S.check_problem(lv, ref, what)
        st["solves"] += 1
        SIM.log(k, None if res[0] is None else float(res[0]), None if res[1] is None else [float(y) for y in res[1]], len(ev), limited, round(t.elapsed(), 6))
        SIM.probe("solver:" + k)
    st["nontrivial"] = st["time_limited"] + st["iteration_limited"] > 0
    return st


def distinct(ev):
    n, last = 0, None
    for e in ev:
        if e[0] != last:
            n += 1
        last = e[0]
    return n


def improvements(s, ref, ev):
    """Moves to a better feasible design after the first design."""
    best, n = None, 0
    for j, e in enumerate(ev):
        if S.violation_of(s, ref, e[0]) <= 0.9 * S.CON_TOL:
            f = ref.obj(e[0])
            if best is None or f < best - 1e-9 * max(1, abs(f)):
                if j > 0:
                    n += 1
                best = f
    return n
