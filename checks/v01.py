"""V01: the model always carries the design that was last substituted."""
import numpy as np
from sim.core import SIM, Violation
from . import optlib as O

RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("Problems with 2-5 variables of every kind (continuous, integer, boolean, member existence, discrete, profile index, cross-section; scaled, with functional targets, several targets, created "
        "by dictionary, keywords or variable group) on a simulated model go through 4-12 substitutions (vectors of free or of all variables, partly outside bounds), single-variable substitutions, "
        "locks, unlocks, added variables and objective or constraint evaluations, some of them with the model refusing a value, failing analyses, interruptions or memory errors at a chosen statement. "
        "After every step all values, locks, bounds and model attributes equal those of the history; those hit by a failure count again after the next complete substitution.")
REAL = ["metku.optimization.structopt", "metku.optimization.variables", "metku.optimization.variable_group", "metku.optimization.objective", "metku.optimization.constraints"]
STUB = ["the structural model and its analysis (attribute store with injectable failures)"]
ASSUMPTIONS = ["no two variables control the same attribute", "initial values agree with the initial model"]


def gen(rng, i, tier):
    r = rng
    s = O.gen_problem(r)
    nv = len(s["vars"])
    ops = []
    for _ in range(r.randint(4, 12)):
        k = r.pick([("sub", 5), ("obj", 2), ("con", 2), ("evalcons", 1), ("lock", 2), ("unlock", 1.5), ("varsub", 2), ("call", 0.3)])
        op = {"op": k}
        if k == "sub":
            op.update(x=[O.rand_value(r, v, False) for v in s["vars"]], full=r.random() < 0.25, form=r.choice(["list", "tuple", "array"]))
        elif k in ("obj", "con", "evalcons", "call"):
            op.update(x=[O.rand_value(r, v) for v in s["vars"]], form=r.choice(["list", "array"]), k=r.randrange(8))
        elif k == "lock":
            j = r.randrange(nv)
            op.update(i=j, val=O.rand_value(r, s["vars"][j]) if r.random() < 0.5 else None)
        elif k == "unlock":
            op["i"] = r.randrange(nv)
        elif k == "varsub":
            j = r.randrange(nv)
            op.update(i=j, x=O.rand_value(r, s["vars"][j]))
        if r.random() < 0.15 and k in ("sub", "obj", "con", "varsub", "lock"):
            op["fault"] = O.gen_fault(r)
        ops.append(op)
    return {"prob": s, "ops": ops}


def free_x(ref, op):
    return [op["x"][i] for i in ref.free()]


def ready(ref):
    """Functions can be evaluated: every locked variable has a value."""
    return bool(ref.free()) and all(ref.known[i] and ref.val[i] is not None for i in range(len(ref.val)) if ref.locked[i])


def form(x, f):
    return np.array(x, dtype=float) if f == "array" else tuple(x) if f == "tuple" else list(x)


def run(plan):
    s = plan["prob"]
    lv, ref = O.Live(s), O.Ref(s)
    P = lv.P
    O.check_design(lv, ref, "after creation")
    changed = fails = 0
    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        what = f"op {n} ({k})"
        fault = op.get("fault")
        touched = []
        if k in ("sub", "obj", "con", "evalcons", "call"):
            if not ref.free() or (k != "sub" and not ready(ref)):
                continue
            x = free_x(ref, op)
            touched = ref.free()
            if k == "sub":
                if op["full"]:
                    x = [op["x"][i] if not ref.locked[i] else op["x"][i] for i in range(len(s["vars"]))]
                xx = form(x, op["form"])
                fn = lambda: P.substitute_variables(xx)
                xf = [op["x"][i] for i in ref.free()]
            else:
                xx = form(x, op["form"])
                xf = x
                con = lv.cons[op["k"] % len(lv.cons)]
                fn = {"obj": lambda: P.obj(xx), "con": lambda: con(xx), "evalcons": lambda: P.eval_cons(xx), "call": lambda: P(xx)}[k]
            before = list(xx)
            done, _ = O.attempt(lv, fault, fn, what)
            if list(xx) != before:
                raise Violation("caller-vector", f"{what}: the caller's design vector was changed from {before} to {list(xx)}")
            if done:
                ref.sub(xf)
        elif k == "varsub":
            i = op["i"]
            touched = [] if ref.locked[i] else [i]
            done, _ = O.attempt(lv, fault, lambda: lv.vars[i].substitute(op["x"]), what)
            if done and not ref.locked[i]:
                ref.set(i, op["x"])
        elif k == "lock":
            i = op["i"]
            if op["val"] is None and (not ref.known[i] or ref.val[i] is None):
                continue
            touched = [] if ref.locked[i] or op["val"] is None else [i]
            done, _ = O.attempt(lv, fault, lambda: lv.vars[i].lock(op["val"]) if op["val"] is not None else lv.vars[i].lock(), what)
            if done:
                if op["val"] is not None and not ref.locked[i]:
                    ref.set(i, op["val"])
                ref.locked[i] = True
            elif not ref.locked[i]:
                lv.vars[i].unlock()
        elif k == "unlock":
            lv.vars[op["i"]].unlock()
            ref.locked[op["i"]] = False
            done = True
        if not done:
            fails += 1
            for i in touched:
                ref.known[i] = False
        changed += 1
        O.check_design(lv, ref, what)
        SIM.log(k, done, [None if v.value is None else round(float(v.value), 9) for v in lv.vars])
    return {"nontrivial": changed > 2, "steps": changed, "failed_steps": fails}
