"""V02: constraints and objectives are never evaluated on stale structural results."""
import numpy as np
from sim.core import SIM, Violation, HarnessError
from . import optlib as O
from . import raamilib as R
from .femlib import with_fault
from .v01 import form, free_x, ready

RUNS = {"quick": 8000, "thorough": 120000}
RULE = ("Problems whose objective and constraints use structural results of one or all load cases are evaluated 5-14 times at a few recurring designs, also differing by steps down to 1e-9, in any order, "
        "mixed with single-variable substitutions, locks, unlocks, explicit analyses, sensitivity queries and failures: the analysis fails before, halfway or after storing results, the model refuses a "
        "value, an interruption or memory error hits a chosen statement. Every value returned equals the closed-form value of exactly the design asked about; a share of the runs uses a real frame "
        "(metku.raami) and compares with a problem built afresh. Non-trivial: a value depending on an analysis was compared after an earlier analysis of another design.")
REAL = ["metku.optimization.structopt", "metku.optimization.constraints", "metku.optimization.objective", "metku.optimization.variables", "metku.raami and metku.framefem in the runs with a real frame"]
STUB = ["the structural analysis (closed-form function of the model with injectable failures) in the other runs"]
ASSUMPTIONS = ["the model is changed through variables only", "no two variables control the same attribute", "closed-form comparison to 1e-9 relative"]


def gen(rng, i, tier):
    r = rng
    if r.random() < 0.12:
        return gen_real(r)
    s = O.gen_problem(r, p_fea=0.85, grad=0.0)
    nv = len(s["vars"])
    pool = [[O.rand_value(r, v) for v in s["vars"]] for _ in range(r.randint(2, 3))]
    base = pool[0]
    for _ in range(r.randint(0, 2)):
        y = list(base)
        c = [j for j, v in enumerate(s["vars"]) if v["k"] in ("cont", "xsec")]
        if c:
            j = r.choice(c)
            y[j] = max(s["vars"][j]["lb"], y[j] - r.choice([1e-3, 1e-6, 1e-8, 1e-9]))
        else:
            y = [O.rand_value(r, v) for v in s["vars"]]
        pool.append(y)
    ops = []
    direct = r.choice([0, 0, 0.5, 0.85])      # the design arrives variable by variable instead of with the evaluation
    for _ in range(r.randint(5, 14)):
        k = r.pick([("con", 6), ("obj", 4), ("evalcons", 2), ("sub", 1), ("lock", 1.5), ("unlock", 1.2), ("varsub", 2.5), ("fea", 1), ("lin", 0.7), ("feasible", 0.5)])
        op = {"op": k}
        if k in ("con", "obj", "evalcons", "sub", "lin", "feasible"):
            op.update(x=list(r.choice(pool)), direct=k != "sub" and r.random() < direct, form=r.choice(["list", "array"]), k=r.randrange(8))
        elif k == "lock":
            j = r.randrange(nv)
            op.update(i=j, val=r.choice(pool)[j] if r.random() < 0.5 else None)
        elif k == "unlock":
            op["i"] = r.randrange(nv)
        elif k == "varsub":
            j = r.randrange(nv)
            op.update(i=j, x=r.choice(pool)[j])
        elif k == "fea":
            op["lid"] = r.choice(["ALL"] + list(s["loads"]))
        if r.random() < 0.22 and k in ("con", "obj", "evalcons", "fea", "sub", "varsub", "lock", "lin"):
            op["fault"] = O.gen_fault(r, ("fea", "fea", "fea", "set", "line") if k in ("con", "obj", "evalcons", "fea", "lin") else ("set", "line"))
        ops.append(op)
    return {"prob": s, "ops": ops}


def close(a, b, scale=1.0, rel=1e-9):
    return abs(a - b) <= rel * max(scale, abs(a), abs(b))


def run(plan):
    if plan.get("real"):
        return run_real(plan)
    s = plan["prob"]
    lv, ref = O.Live(s), O.Ref(s)
    P = lv.P
    compared = fails = skipped = 0
    designs = set()
    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        what = f"op {n} ({k})"
        fault = op.get("fault")
        touched = []
        done = True
        if k in ("con", "obj", "evalcons", "sub", "lin", "feasible"):
            if not ref.free() or not ready(ref):
                skipped += 1
                continue
            x = form(free_x(ref, op), op["form"])
            touched = ref.free()
            ci = op["k"] % len(lv.cons)
            order = [lv.cons.index(c) for c in P.cons]
            if op["direct"]:
                for j in ref.free():
                    lv.vars[j].substitute(op["x"][j])
            fn = {"con": lambda: lv.cons[ci](x), "obj": lambda: P.obj(x), "evalcons": lambda: P.eval_cons(x), "sub": lambda: P.substitute_variables(x),
                  "lin": lambda: P.linearize(x), "feasible": lambda: P.feasible(x)}[k]
            done, val = O.attempt(lv, fault, fn, what)
            if done:
                ref.sub(list(x))
                full = ref.full(list(x))
                if k == "con":
                    e = ref.con(s["cons"][ci], full)
                    if not close(val, e):
                        raise Violation("stale:constraint", f"{what}: constraint {ci} at {full} is {val}, the analysis of that design gives {e}")
                elif k == "obj":
                    e = ref.obj(full)
                    if not close(val, e):
                        raise Violation("stale:objective", f"{what}: objective at {full} is {val}, the analysis of that design gives {e}")
                elif k == "evalcons":
                    es = [ref.con(s["cons"][j], full) for j in order]
                    if len(val) != len(es) or not all(close(a, b) for a, b in zip(val, es)):
                        raise Violation("stale:constraints", f"{what}: constraints at {full} are {list(val)}, expected {es}")
                elif k == "feasible":
                    gs = [(s["cons"][j]["type"], ref.con(s["cons"][j], full)) for j in order]
                    viol = [g if t == "<" else -g if t == ">" else abs(g) for t, g in gs]
                    if all(abs(v - P.con_tol) > 1e-7 for v in viol) and bool(val) != all(v <= P.con_tol for v in viol):
                        raise Violation("stale:feasible", f"{what}: design {full} reported feasible={val} with constraint values {gs}")
                if k in ("con", "obj", "evalcons"):
                    if designs - {tuple(full)} and any(c.get("fea") for c in s["cons"] + [s["obj"]]):
                        compared += 1
                    designs.add(tuple(full))
        elif k == "fea":
            done, _ = O.attempt(lv, fault, lambda: P.fea() if op["lid"] == "ALL" else P.fea(op["lid"]), what)
        elif k == "varsub":
            i = op["i"]
            touched = [] if ref.locked[i] else [i]
            done, _ = O.attempt(lv, fault, lambda: lv.vars[i].substitute(op["x"]), what)
            if done and not ref.locked[i]:
                ref.set(i, op["x"])
        elif k == "lock":
            i = op["i"]
            if op["val"] is None and (not ref.known[i] or ref.val[i] is None):
                continue
            touched = [] if ref.locked[i] or op["val"] is None else [i]
            done, _ = O.attempt(lv, fault, lambda: lv.vars[i].lock(op["val"]), what)
            if done:
                if op["val"] is not None and not ref.locked[i]:
                    ref.set(i, op["val"])
                ref.locked[i] = True
            elif not ref.locked[i]:
                lv.vars[i].unlock()
        elif k == "unlock":
            lv.vars[op["i"]].unlock()
            ref.locked[op["i"]] = False
        if not done:
            fails += 1
            for i in touched:
                ref.known[i] = False
        SIM.log(k, done, lv.w.analyses, [None if v.value is None else float(v.value) for v in lv.vars])
    return {"nontrivial": compared > 0, "values_compared": compared, "failed_steps": fails, "analyses": lv.w.analyses, "skipped": skipped}


# ------------------------------------------------------------------ real frames
def gen_real(r):
    s = R.gen_frame(r, kinds=(("rhs", 1),))
    while not s.stable() or not s.loads:
        s = R.gen_frame(r, kinds=(("rhs", 1),))
    secs = sorted({m["sec"] for m in s.mems.values()})
    vs = []
    sec = r.choice(secs)
    vs.append({"k": "cont", "sec": sec, "props": ["H", "B"], "lb": 80.0, "ub": 200.0})
    vs.append({"k": "cont", "sec": sec, "props": "T", "lb": 3.0, "ub": 9.0})
    others = [u for u, m in s.mems.items() if m["sec"] != sec and m["type"] != "bar"]
    if others:
        vs.append({"k": "index", "mems": [r.choice(others)], "values": [[b, t] for b, t in ((80, 4), (100, 5), (120, 6), (150, 8))]})
    cases = s.cases()
    cons = []
    for _ in range(r.randint(1, 3)):
        lids = r.sample(cases, r.randint(1, len(cases)))
        cons.append({"lids": lids, "m": r.choice(sorted(s.mems)), "comp": r.choice(["N", "Vz", "My", "u"])})
    pool = [[r.choice([90.0, 120.0, 150.0]), r.choice([4.0, 5.5, 8.0]), r.randrange(4)][:len(vs)] for _ in range(3)]
    ops = []
    for _ in range(r.randint(4, 9)):
        op = {"op": r.pick([("con", 5), ("obj", 2), ("varsub", 1), ("lock", 1), ("unlock", 1)]), "x": list(r.choice(pool)), "i": r.randrange(len(vs)), "k": r.randrange(len(cons))}
        if r.random() < 0.25 and op["op"] in ("con", "obj"):
            op["fault"] = {"kind": r.choice(["interrupt", "memory"]), "at": r.random()} if r.random() < 0.5 else {"kind": "solve:" + r.choice(["LinAlgError", "MemoryError"]), "n": 1}
        ops.append(op)
    return {"real": True, "frame": R.to_json(s), "vars": vs, "cons": cons, "ops": ops}


def real_problem(plan):
    s = R.from_json(plan["frame"])
    lv = R.Live(s)
    f = lv.frame
    f.generate_fem()
    V = []
    for j, v in enumerate(plan["vars"]):
        if v["k"] == "cont":
            V.append(O.Variable(f"x{j}", v["lb"], v["ub"], target={"property": v["props"], "objects": [lv.o[v["sec"]]]}))
        else:
            V.append(O.IndexVariable(f"x{j}", values=[R.make_section({"k": "rhs", "h": b, "b": b, "t": t, "fy": 355}) for b, t in v["values"]],
                                     target={"property": "cross_section", "objects": [lv.o[m] for m in v["mems"]]}))
    P = O.OptimizationProblem("real", variables=V, structure=f)

    def res(c):
        def fun(x):
            out = 0.0
            for lid in c["lids"]:
                z = lv.results(s, lid)
                if c["comp"] == "u":
                    out += max(abs(a) for n in z["u"].values() for a in n[:2])
                else:
                    out += max(abs(a) for a in z["f"][c["m"]][c["comp"]])
            return out
        return fun
    for j, c in enumerate(plan["cons"]):
        P.add(O.NonLinearConstraint(res(c), "<", f"c{j}", fea_required=True, load_ids=c["lids"]))
    allc = dict(plan["cons"][0], lids=s.cases())
    P.add(O.ObjectiveFunction("f", lambda x: res(allc)(x) + 1e-3 * x[0], fea_required=True))
    return P, V


def run_real(plan):
    P, V = real_problem(plan)
    nv = len(V)
    vals = [None] * nv
    locked = [False] * nv
    compared = 0
    seen = set()
    for n, op in enumerate(plan["ops"]):
        k, i = op["op"], op["i"]
        what = f"op {n} ({k}) on a real frame"
        if k == "lock":
            if sum(locked) < nv - 1 and not locked[i]:
                V[i].lock(op["x"][i])
                vals[i], locked[i] = op["x"][i], True
        elif k == "unlock":
            V[i].unlock()
            locked[i] = False
        elif k == "varsub":
            V[i].substitute(op["x"][i])
        else:
            x = [op["x"][j] for j in range(nv) if not locked[j]]
            full = [vals[j] if locked[j] else op["x"][j] for j in range(nv)]
            box = {}

            def go():
                box["v"] = P.obj(x) if k == "obj" else P.cons[op["k"]](x)
            if op.get("fault"):
                if with_fault(op["fault"], go, what):
                    SIM.log(k, "fault")
                    continue
            else:
                go()
            P2, _ = real_problem(plan)
            e = P2.obj(full) if k == "obj" else P2.cons[op["k"]](full)
            if not close(box["v"], e, 1e-6, 1e-6):
                raise Violation("stale:real-frame", f"{what}: value at {full} is {box['v']}, a fresh problem gives {e}")
            if seen - {tuple(full)}:
                compared += 1
            seen.add(tuple(full))
            SIM.log(k, round(float(box["v"]), 4))
    return {"nontrivial": compared > 0, "real_values": compared}
