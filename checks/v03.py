"""V03: sensitivities, approximations, neighbours, feasibility and penalties leave the design alone and are right."""
import itertools, math
import numpy as np
from sim.core import SIM, Violation, HarnessError
from . import optlib as O
from .v01 import form, free_x, ready
from .v02 import close

RUNS = {"quick": 12000, "thorough": 150000}
RULE = ("Problems with linear and nonlinear constraints of every sense, structural results, locked variables and every kind of variable are asked 3-9 times for linearisations (all or potentially active "
        "constraints), convex-linear and moving-asymptote approximations, constraint gradients, constraint values by group, feasibility, neighbouring discrete designs, penalty, barrier and augmented "
        "Lagrangian values, with locks, unlocks, failing analyses, refused model values, interruptions and memory errors in between. Returned values and slopes are compared with closed forms, every "
        "variable, lock, bound and model attribute with the history, the caller's vector with a copy, and constraints must still belong to the problem. "
        "Non-trivial: at least two successful queries of a design were compared.")
REAL = ["metku.optimization.structopt", "metku.optimization.constraints", "metku.optimization.opt_functions", "metku.optimization.objective", "metku.optimization.variables"]
STUB = ["the structural model and its analysis (closed form with injectable failures)"]
ASSUMPTIONS = ["slopes of continuous variables to 1e-3 of the gradient scale (forward differences), one-step differences of index variables exactly",
               "separable approximations on problems with positive continuous variables"]
SLOPE = 1e-3


def gen(rng, i, tier):
    r = rng
    sep = r.random() < 0.45
    kinds = (("cont", 6), ("xsec", 1)) if sep else O.DEFKINDS
    s = O.gen_problem(r, kinds=kinds, positive=sep, p_fea=0.5)
    nv = len(s["vars"])
    pool = [[O.rand_value(r, v) for v in s["vars"]] for _ in range(3)]
    ops = []
    for _ in range(r.randint(3, 9)):
        k = r.pick([("lin", 4), ("conlin", 3 if sep else 0), ("mma", 3 if sep else 0), ("df", 2), ("groups", 1.5), ("feasible", 2), ("neigh", 2), ("pen", 2.5), ("bar", 0.7), ("aug", 0.7),
                    ("mult", 0.5), ("lock", 1.5), ("unlock", 1), ("sub", 1), ("random", 0.5)])
        op = {"op": k, "x": list(r.choice(pool)), "k": r.randrange(8), "form": r.choice(["array", "list"])}
        if k == "lin":
            op.update(pot=r.random() < 0.3)
        elif k == "mma":
            op.update(gap=[round(r.uniform(0.1, 1.0), 2) for _ in range(nv)], gapu=[round(r.uniform(0.5, 4.0), 2) for _ in range(nv)])
        elif k == "neigh":
            op.update(n=r.randint(1, 4))
        elif k == "pen":
            op.update(which=r.choice(["exact", "exterior"]), R=r.choice([1.0, 10.0, 3.5]), p=r.choice([2, 2, 1, 3]), out=[O.rand_value(r, v, False) for v in s["vars"]] if r.random() < 0.3 else None)
        elif k == "lock":
            j = r.randrange(nv)
            op.update(i=j, val=pool[0][j])
        elif k == "unlock":
            op["i"] = r.randrange(nv)
        if r.random() < 0.15 and k in ("lin", "conlin", "mma", "df", "groups", "pen"):
            op["fault"] = O.gen_fault(r, ("fea", "fea", "set", "line"))
        ops.append(op)
    return {"prob": s, "ops": ops}


def vecs_close(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= t for x, y, t in zip(a, b, tol))


def slopes(ref, fn, full):
    """Reference derivatives (one-step difference for index variables) w.r.t. the free variables, and tolerances."""
    s = ref.s
    g, tol = [], []
    f0 = fn(full)
    for i in ref.free():
        v = s["vars"][i]
        if v["k"] == "bin":
            g.append(None)
        elif v["k"] == "index":
            h = 1 if full[i] + 1 <= v["ub"] else -1
            y = list(full)
            y[i] += h
            g.append((fn(y) - f0) / h)
        else:
            # one-sided at the bounds: the reference function is smooth there, but values are clipped
            h = 1e-5 * max(1.0, abs(full[i]))
            lo, hi = max(full[i] - h, v["lb"]), min(full[i] + h, v["ub"])
            a, b = list(full), list(full)
            a[i], b[i] = hi, lo
            g.append((fn(a) - fn(b)) / (hi - lo) if hi > lo else None)
    scale = max([1.0, abs(f0)] + [abs(x) for x in g if x is not None])
    return f0, g, SLOPE * scale


def check_slopes(got, g, tol, what, cls, ref):
    for j, (a, b) in enumerate(zip(got, g)):
        if b is not None and not abs(a - b) <= tol:
            raise Violation(cls, f"{what}: slope with respect to free variable {j} ({ref.s['vars'][ref.free()[j]]['k']}) is {a}, the function has {b}")


def run(plan):
    s = plan["prob"]
    lv, ref = O.Live(s), O.Ref(s)
    P = lv.P
    order = [lv.cons.index(c) for c in P.cons]
    good = fails = 0
    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        what = f"op {n} ({k})"
        if k == "unlock":
            lv.vars[op["i"]].unlock()
            ref.locked[op["i"]] = False
            continue
        if k == "lock":
            i = op["i"]
            if sum(ref.locked) + 1 < len(ref.locked) and not ref.locked[i]:
                lv.vars[i].lock(op["val"])
                ref.set(i, op["val"])
                ref.locked[i] = True
            continue
        if not ref.free() or not ready(ref):
            continue
        xl = free_x(ref, op)
        x = form(xl, op["form"])
        free = ref.free()
        full = ref.full(xl)
        settled = [O.settle(s["vars"][i], v) for i, v in zip(free, xl)]
        fault = op.get("fault")
        cons = [(lv.cons[j], s["cons"][j]) for j in order]
        f_ = lambda y: ref.obj(y)
        c_ = lambda d: (lambda y: ref.con(d, y))
        nl = [d for _, d in cons if d["k"] == "nl"]
        val = None
        query = True
        L = U = None
        if k == "sub":
            fn = lambda: P.substitute_variables(x)
        elif k == "lin":
            fn = lambda: P.linearize(x, only_potential=True) if op["pot"] else P.linearize(x)
        elif k == "conlin":
            fn = lambda: P.conlin(x)
        elif k == "mma":
            L = [xl[j] - op["gap"][i] for j, i in enumerate(free)]
            U = [xl[j] + op["gapu"][i] for j, i in enumerate(free)]
            fn = lambda: P.mma(x, np.array(U), np.array(L))
        elif k == "df":
            nls = [(c, d) for c, d in cons if d["k"] == "nl"]
            if not nls or any(s["vars"][i]["k"] in ("index", "bin") for i in free):
                continue
            c, d = nls[op["k"] % len(nls)]
            fn = lambda: c.df(x)
        elif k == "groups":
            fn = lambda: (P.eval_cons(x), P.eval_nonlin_cons(x), P.eval_eq_con(x), P.eval_ineq_con(x), cons[0][0].neg_call(x), P.obj.neg_call(x))
        elif k == "feasible":
            if op["k"] % 2:
                P.substitute_variables(x)
                fn = lambda: P.feasible()
            else:
                fn = lambda: P.feasible(x)
        elif k == "neigh":
            fn = lambda: list(P.discrete_neighborhood(x, op["n"]))
            query = False
        elif k == "random":
            fn = lambda: P.random_values()
            query = False
        elif k == "pen":
            if op["out"] is not None:
                xl = [op["out"][i] for i in free]
                if any(s["vars"][i]["k"] not in ("cont", "xsec") for i in free):
                    xl = [O.clip(s["vars"][i], v) for i, v in zip(free, xl)]
                x = form(xl, op["form"])
                settled = [O.settle(s["vars"][i], v) for i, v in zip(free, xl)]
                full = ref.full(xl)
            pf = P.exact_penalty_fun(op["R"]) if op["which"] == "exact" else P.exterior_penalty_fun(op["R"], op["p"])
            fn = lambda: pf(np.array(x, dtype=float))
        elif k == "bar":
            gs = [ref.con(d, full) for _, d in cons]
            if any(d["type"] == "=" or (g > -0.05 if d["type"] == "<" else g < 0.05) for (_, d), g in zip(cons, gs)) or \
                    any(min(v - s["vars"][i]["lb"], s["vars"][i]["ub"] - v) < 1e-3 for i, v in zip(free, xl)):
                continue
            bf = P.barrier_fun(2.0)
            fn = lambda: bf(np.array(x, dtype=float))
        elif k == "aug":
            af = P.augmented_lagrangian()
            fn = lambda: af(np.array(x, dtype=float))
        else:
            fn = lambda: P.update_lag_mult(np.array(x, dtype=float))
        if not query:
            before = [v.value for v in lv.vars]
        done, val = O.attempt(lv, fault, fn, what)
        if list(x) != list(xl):
            raise Violation("caller-vector", f"{what}: the caller's design vector {list(xl)} was changed to {list(x)}")
        if not done:
            fails += 1
            for i in free:
                ref.known[i] = False
            if fault["kind"] == "fea" and k in ("lin", "conlin", "mma", "df"):
                ref.sub(xl)             # a failed analysis must not leave a perturbed design behind
                O.check_design(lv, ref, what + " after a failed analysis", "perturbed")
            SIM.log(k, "failed")
            continue
        if query:
            ref.sub(xl)
        O.check_design(lv, ref, what, "perturbed")
        if [id(c) for c in P.cons] != [id(c) for c, _ in cons] or P.obj is not lv.obj:
            raise Violation("problem-changed", f"{what}: the constraints or objective of the problem changed")
        for c in list(P.cons) + [P.obj]:
            if c.problem is not P:
                raise Violation("problem-changed", f"{what}: {c!r} no longer belongs to its problem")
        check_value(lv, ref, op, k, what, val, x, xl, full, cons, f_, c_, L, U)
        if query and k != "sub":
            good += 1
        SIM.log(k, [round(float(v), 9) for v in xl], repr(val)[:80] if k in ("feasible", "pen") else None)
    return {"nontrivial": good > 1, "queries": good, "failed_queries": fails}


def violation_of(d, g):
    return max(0.0, g if d["type"] == "<" else -g if d["type"] == ">" else abs(g))


def check_value(lv, ref, op, k, what, val, x, xl, full, cons, f_, c_, L, U):
    s, P = ref.s, lv.P
    free = ref.free()
    if k == "lin":
        A, B, df, fx = val
        f0, g, tol = slopes(ref, f_, full)
        if not close(fx, f0):
            raise Violation("linearize:value", f"{what}: objective value {fx}, expected {f0}")
        if s["grad"]:                    # the user's gradient is a derivative, not a one-step difference
            g = [b if s["vars"][i]["k"] not in ("index", "bin") else None for i, b in zip(free, g)]
        check_slopes(df, g, tol, what + " objective", "linearize:slope", ref)
        sel = cons
        if op["pot"]:
            gs = [ref.con(d, full) for _, d in cons]
            if any(d["type"] != "=" and abs(abs(v) - c.pot_tol) < 1e-6 for (c, d), v in zip(cons, gs)):
                return
            sel = [(c, d) for (c, d), v in zip(cons, gs) if not (d["type"] == "<" and v < -c.pot_tol or d["type"] == ">" and v > c.pot_tol)]
        if np.shape(A) != (len(sel), len(free)) or len(B) != len(sel):
            raise Violation("linearize:shape", f"{what}: {np.shape(A)} coefficients for {len(sel)} constraints and {len(free)} free variables")
        for row, b, (c, d) in zip(A, B, sel):
            g0, gg, tol = slopes(ref, c_(d), full)
            if d["k"] == "lin":
                gg = [d["a"][i] for i in free]
                tol = 1e-9
            check_slopes(row, gg, tol, f"{what} constraint", "linearize:slope", ref)
            e = float(np.dot(row, xl)) - g0
            if not close(b, e, 1.0, 1e-7):
                raise Violation("linearize:rhs", f"{what}: right-hand side {b} does not reproduce the constraint value {g0} at the design ({e})")
    elif k in ("conlin", "mma"):
        Q = val
        if len(Q.cons) != len(cons) or Q.nvars() != len(free):
            raise Violation("approx:shape", f"{what}: {len(Q.cons)} constraints and {Q.nvars()} variables, expected {len(cons)} and {len(free)}")
        xa = np.array(xl, dtype=float)
        fns = [(lambda y: Q.obj(y), f_, "objective")] + [((lambda y, q=q: q(y)), c_(d), f"constraint {d['type']}") for q, (c, d) in zip(Q.cons, cons)]
        for q, (c, d) in zip(Q.cons, cons):
            if q.type != d["type"]:
                raise Violation("approx:sense", f"{what}: a {d['type']} constraint became {q.type}")
        for qf, rf, name in fns:
            f0, g, tol = slopes(ref, rf, full)
            y0 = float(qf(xa))
            if not close(y0, f0, 1.0, 1e-8):
                raise Violation("approx:value", f"{what}: the approximation of the {name} is {y0} at the design, the function {f0}")
            got = []
            for j, i in enumerate(free):
                v, qv = s["vars"][i], Q.vars[j]
                h = 1e-6 * max(1.0, abs(xa[j]))
                lo, hi = max(xa[j] - h, qv.lb), min(xa[j] + h, qv.ub)
                a, b = xa.copy(), xa.copy()
                a[j], b[j] = hi, lo
                got.append((float(qf(a)) - float(qf(b))) / (hi - lo) if hi > lo else 0.0)
                if hi <= lo:
                    g[j] = None
            check_slopes(got, g, 3 * tol, f"{what} {name}", "approx:slope", ref)
        O.check_design(lv, ref, what + " after evaluating the approximation", "perturbed")
    elif k == "df":
        nls = [(c, d) for c, d in cons if d["k"] == "nl"]
        c, d = nls[op["k"] % len(nls)]
        g0, g, tol = slopes(ref, c_(d), full)
        check_slopes(val, g, tol, what, "gradient", ref)
    elif k == "groups":
        allv, nlv, eq, ineq, neg, nobj = val
        e = [ref.con(d, full) for _, d in cons]
        exp = {"eval_cons": (allv, e), "eval_nonlin_cons": (nlv, [v for (_, d), v in zip(cons, e) if d["k"] == "nl"]),
               "eval_eq_con": (eq, [v for (_, d), v in zip(cons, e) if d["type"] == "="]),
               "eval_ineq_con": (ineq, [v if d["type"] == ">" else -v for (_, d), v in zip(cons, e) if d["type"] != "="]),
               "neg_call": ([neg, nobj], [-e[0], -f_(full)])}
        for name, (a, b) in exp.items():
            if a is None or len(a) != len(b) or not all(close(p, q) for p, q in zip(a, b)):
                raise Violation("values:" + name, f"{what}: {name} returned {a}, expected {b}")
    elif k == "feasible":
        v = [violation_of(d, ref.con(d, full)) for _, d in cons]
        if all(abs(y - P.con_tol) > 1e-7 for y in v) and bool(val) != all(y <= P.con_tol for y in v):
            raise Violation("feasible", f"{what}: reported {val} with violations {v}")
    elif k == "neigh":
        exp = []
        for i, xi in zip(free, xl):
            v = s["vars"][i]
            if v["k"] == "disc":
                c = list(v["values"])
            elif v["k"] in ("cont", "xsec"):
                c = None
            else:
                c = list(range(int(v["lb"]), int(v["ub"]) + 1))
            exp.append(c)
        tot = 1
        for c in exp:
            tot *= 1 if c is None else min(op["n"], len(c))
        if len(val) != tot or len(set(map(tuple, val))) != tot:
            raise Violation("neighbourhood:size", f"{what}: {len(val)} designs ({len(set(map(tuple, val)))} different), expected {tot}")
        for y in val:
            if len(y) != len(free):
                raise Violation("neighbourhood:shape", f"{what}: a neighbour has {len(y)} values for {len(free)} free variables")
            for yj, xj, c in zip(y, xl, exp):
                if c is None:
                    if yj != xj:
                        raise Violation("neighbourhood:continuous", f"{what}: a continuous value moved from {xj} to {yj}")
                    continue
                if yj not in c:
                    raise Violation("neighbourhood:value", f"{what}: {yj} is not an allowed value of {c}")
                worse = sum(1 for z in c if abs(z - xj) < abs(yj - xj) - 1e-12)
                if worse >= op["n"]:
                    raise Violation("neighbourhood:nearest", f"{what}: {yj} is not among the {op['n']} allowed values nearest to {xj} in {c}")
    elif k == "random":
        for i, y in zip(free, val):
            v = s["vars"][i]
            ok = v["lb"] - 1e-12 <= y <= v["ub"] + 1e-12
            if v["k"] == "disc":
                ok = ok and y in v["values"]
            elif v["k"] not in ("cont", "xsec"):
                ok = ok and y == int(y)
            if not ok:
                raise Violation("random-design", f"{what}: {y} is not an allowed value of variable {i}: {v}")
    elif k == "pen":
        # constraints that read the model see the design limited to its bounds
        gs = [violation_of(d, ref.con(d, full) if d["k"] == "nl" else ref.con(d, ref.full([O.clip(s['vars'][i], v) for i, v in zip(free, xl)]))) for _, d in cons]
        bs = [max(0.0, s["vars"][i]["lb"] - v, v - s["vars"][i]["ub"]) for i, v in zip(free, xl)]
        base = 0.0 if op["which"] == "exact" else f_(full)
        over = val - base
        tot = sum(gs) + sum(bs)
        tol = 1e-9 * max(1.0, abs(base))
        if over < -tol:
            raise Violation("penalty-rewards", f"{what}: the {op['which']} penalty lowers the objective by {-over} at violations {gs} and {bs}")
        if tot > 1e-3 and over <= tol:
            raise Violation("penalty-missing", f"{what}: violations {gs} and {bs} cost nothing in the {op['which']} penalty")
        if tot == 0.0 and over > tol:
            raise Violation("penalty-feasible", f"{what}: a feasible design is charged {over} by the {op['which']} penalty")
        if max(gs + bs) > 0.1 and over < 1e-3 * max(gs + bs) ** 3 / (1 + max(gs + bs)) ** 2:
            raise Violation("penalty-missing", f"{what}: violations {gs} and {bs} cost only {over} in the {op['which']} penalty")
    elif k == "bar":
        if not math.isfinite(val):
            raise Violation("barrier", f"{what}: {val} at a strictly feasible design")
