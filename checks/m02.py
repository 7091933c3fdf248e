"""M02: load combinations are the factored sum of their cases, however often they are rebuilt."""
import copy
import numpy as np
from . import raamilib as R
from sim.core import SIM, Violation

RUNS = {"quick": 1000, "thorough": 12000}
RULE = ("A run draws a plane frame with 1-3 load cases and 4-16 operations: adding loads to existing and new cases (directly, in a load case object, or by giving the case again; with clashing names), "
        "scaling loads, new combinations (ULS or SLS, any cases in any order), rebuilding combinations any number of times, self-weight on and off, section and node edits, and analyses. "
        "Rebuilding, switching self-weight, model generation and analysis are sometimes interrupted or run out of memory, after which the user repeats them. After every operation the user's "
        "own loads are unaltered; after every analysis the loads acting in the calculation model under each id are exactly those expected, and combination results equal the factored sum of the "
        "results of their cases. Non-trivial: a combination was compared after it had been rebuilt or its cases had changed.")
REAL = ["metku.raami loads, load cases, combinations, self-weight, model generation", "metku.framefem linear statics"]
STUB = ["interruption and memory faults at chosen statements"]
ASSUMPTIONS = ["a combination is rebuilt after its cases changed, as the library requires", "all loads of one case have one type; the first case that is not permanent leads",
               "combination factors 1.5 / 1.15 and 0.7 / 0.6 as documented in frame_loads.py"]

W = [("add_load", 6), ("edit_load", 3), ("add_comb", 4), ("rebuild", 4), ("sw_on", 3), ("sw_off", 2), ("section", 2), ("dim", 1), ("move", 1), ("add_mem", 1)]


def make_op(r, s):
    k = r.pick(W)
    if k == "rebuild":
        return {"op": k, "u": r.choice(list(s.combs)), "times": r.randint(1, 3)} if s.combs else None
    op = R.make_op(r, s, k)
    if k == "add_comb" and op and r.random() < 0.3:
        # with a case that gets its loads later
        ids = {c["id"] for c in s.combs.values()} | {op["id"]}
        e = [c for c in (1, 2, 3, 4, 5) if c not in s.cases() and c not in ids][:r.randint(1, 2)]
        cases = r.sample(op["cases"], r.randint(0, len(op["cases"]))) + e
        return dict(op, cases=r.sample(cases, len(cases)), empty=e)
    if k == "add_load" and op and s.combs and r.random() < 0.4:
        e = [c for x in s.combs.values() for c in x["cases"] if c not in s.cases() and c != R.SW]
        if e:
            lc = r.choice(e)
            return dict(op, load=dict(op["load"], lc=lc, lt=R.case_type(s, lc) or op["load"]["lt"]))
    return op


def gen(r, i, tier):
    s = R.gen_frame(r)
    while not s.stable():
        s = R.gen_frame(r)
    plan = {"init": R.to_json(s), "kind": s.kind, "ops": []}
    pf = r.choice([0, 0, 0.3])
    for _ in range(r.randint(4, 16 if tier == "quick" else 30)):
        if r.random() < 0.25:
            plan["ops"].append({"op": "analyse", "m": r.choice(["REM", "ZERO"]), "regen": r.random() < 0.3})
            continue
        op = make_op(r, s)
        if op is None:
            continue
        t = copy.deepcopy(s)
        if not R.apply_spec(t, op) or not t.stable():
            continue
        s = t
        plan["ops"].append(op)
    if s.cases() and not s.combs or r.random() < 0.5:
        op = R.make_op(r, s, "add_comb")
        if op and R.apply_spec(s, op):
            plan["ops"].append(op)
    plan["ops"].append({"op": "analyse", "m": "REM", "regen": False})
    for op in plan["ops"]:
        if op["op"] in ("rebuild", "add_comb", "sw_on", "sw_off", "analyse") and r.random() < pf:
            op["fault"] = {"kind": r.choice(["interrupt", "memory"]), "at": r.random()}
    return plan


def retry(fault, fn, what, again):
    if fault and R.with_fault(fault, fn, what):
        again()
    elif not fault:
        fn()


def run(plan):
    s = R.from_json(plan["init"])
    lv = R.Live(s)
    fr = lv.frame
    stale = set()                 # combinations whose cases changed since they were built
    touched = 0
    dirty = True
    n = 0
    for op in plan["ops"]:
        k = op["op"]
        f = op.get("fault")
        if k != "analyse":
            t = copy.deepcopy(s)
            if not R.apply_spec(t, op) or not t.stable(1e-8):
                continue
            if k == "rebuild":
                c = lv.o[op["u"]]
                for j in range(op["times"]):
                    retry(f if j == op["times"] - 1 else None, c.combine_loads, "combine_loads", c.combine_loads)
                stale.discard(op["u"])
                touched += 1
            elif k == "sw_on":
                retry(f, fr.add_self_weight, "add_self_weight", lambda: (fr.remove_self_weight(), fr.add_self_weight()))
            elif k == "sw_off":
                retry(f, fr.remove_self_weight, "remove_self_weight", fr.remove_self_weight)
            elif k == "add_comb" and f:
                retry(f, lambda: lv.add_comb(op["u"], t.combs[op["u"]]), "add", lambda: fr.add(lv.o[op["u"]]) if op["u"] in lv.o else lv.add_comb(op["u"], t.combs[op["u"]]))
            else:
                R.apply_live(lv, s, t, op)
            s = t
            if k in R.LOADCHANGE:
                stale = set(s.combs)
                touched += 1
            dirty = dirty or k in R.REGEN
            SIM.probe("op:" + k)
            check_originals(lv, s, k)
            continue
        cases = s.cases()
        if not cases:
            continue
        for u in sorted(stale):
            lv.o[u].combine_loads()
            R.rebuilt(s, u)
            dirty = True
        stale = set()
        check_originals(lv, s, "rebuilding")
        if dirty or op["regen"]:
            fr.generate_fem()
            dirty = False

        def go():
            fr.structural_analysis("ALL", support_method=op["m"], design=False)
        retry(f, go, "structural_analysis", go)
        check_model(lv, s)
        res = {i: lv.results(s, i) for i in s.all_ids()}
        for c in s.combs.values():
            if c["id"] in res:
                superpose(res, s, c)
                n += bool(touched)
                SIM.probe(f"comb:{len(c['cases'])} cases")
        for i in s.all_ids():
            R.log_results(res[i], i)
    return {"nontrivial": n > 0, "combinations_compared": n}


def check_originals(lv, s, after):
    """The loads the user defined are what the user made them."""
    for u, l in s.loads.items():
        o = lv.o[u]
        if o.load_id != l["lc"]:
            raise Violation("load-altered", f"after {after}: load {u} of case {l['lc']} now has load_id {o.load_id}")
        if not abs(o.f - l["f"]) <= 1e-12 * max(1, abs(l["f"])):
            raise Violation("load-altered", f"after {after}: load {u} has scale {o.f!r}, the user set {l['f']!r}")
        v = o.v if l["k"] == "pt" else o.values
        w = l["v"] if l["k"] == "pt" else l["q"]
        if not np.allclose(np.asarray(v, float), np.asarray(w, float), rtol=1e-12, atol=0):
            raise Violation("load-altered", f"after {after}: load {u} has values {list(v)}, the user set {w}")


def check_model(lv, s):
    """What acts in the calculation model under each id is exactly what is defined."""
    num = {id(e): (u, i) for u in s.mems for i, e in enumerate(el_list(lv.o[u]))}
    joint = {id(lv.o[u].fem_node): u for u in s.nodes}
    got = {}
    for L in lv.frame.fem.loads:
        if hasattr(L, "qval"):
            eid = L.elem
            key = (L.sid, "ll") + num[id(eid)] + (str(L.dir), str(L.coords))
            val = np.array([float(x) for x in L.qval]) * getattr(L, "f", 1.0)
        else:
            key = (L.sid, "pt", joint[id(L.node)])
            val = np.array([float(x) for x in L.v]) * L.f
        got[key] = got.get(key, 0) + val
    want = {}
    for i in s.all_ids():
        for l in s.ref_loads(i):
            if l["k"] == "pt":
                key, val = (i, "pt", l["n"][1]), np.array(l["v"]) * l["f"]
            else:
                key, val = (i, "ll") + tuple(l["e"]) + (l["dir"], l["co"]), np.array(l["q"], float) * l["f"]
            want[key] = want.get(key, 0) + val
    for key in sorted(set(got) | set(want), key=repr):
        a, b = np.asarray(got.get(key, 0.0)), np.asarray(want.get(key, 0.0))
        scale = max([float(np.max(np.abs(v))) for v in want.values()] + [1.0])
        if not np.all(np.abs(a - b) <= 1e-9 * scale):
            raise Violation("content", f"load id {key[0]}: on {key[1:]} the model carries {a.tolist()}, defined is {b.tolist()}")


def el_list(m):
    return list(m.fem_elements)


def superpose(res, s, c):
    a = res[c["id"]]
    fac = {}
    for lc in c["cases"]:
        lt = R.case_type(s, lc) or "dead"
        if lc in res:
            fac[lc] = R.comb_factor(c["type"], lt, lc == c["lead"])

    def chk(q, got, parts, floor):
        want = sum(fac[i] * p for i, p in parts)
        scale = sum(abs(fac[i]) * sc for i, sc in floor)
        if not abs(got - want) <= 1e-6 * scale + 1e-9:
            raise Violation("superposition", f"combination {c['id']} of cases {c['cases']}: {q} = {got!r}, the factored sum is {want!r}")
    us = [(i, max(abs(x) for v in res[i]["u"].values() for x in v[:2])) for i in fac]
    rs = [(i, max(abs(v[2]) for v in res[i]["u"].values())) for i in fac]
    for n in s.nodes:
        for j in range(3):
            chk(f"displacement {j} of joint {n}", a["u"][n][j], [(i, res[i]["u"][n][j]) for i in fac], us if j < 2 else rs)
    fs = [(i, max(abs(x) for f in res[i]["f"].values() for q in ("N", "Vz") for x in f[q])) for i in fac]
    ms = [(i, max([abs(x) for f in res[i]["f"].values() for x in f["My"]] + [1000 * dict(fs)[i]])) for i in fac]
    for m in s.mems:
        for q in ("N", "Vz", "My"):
            for j, x in enumerate(a["f"][m][q]):
                chk(f"{q}[{j}] of member {m}", x, [(i, res[i]["f"][m][q][j]) for i in fac], ms if q == "My" else fs)
