"""F02: every completed static analysis is in equilibrium and obeys the stiffness laws."""
import copy
from . import femlib as L
from sim.core import SIM, Violation

RUNS = {"quick": 2200, "thorough": 26000}
RULE = ("A run draws a plane structure and a short history of edits and analyses (some preceded by a failed or interrupted analysis); every completed analysis is done with both "
        "support methods and compared, displacement by displacement and end force by end force, with an independent stiffness-method "
        "reference that gives each released end force its own degree of freedom. Non-trivial: at least two load cases or states compared, "
        "with a member load, a release, a factor other than 1 or several loads on one element.")
REAL = ["metku.framefem (FrameFEM, EBBeam, Rod, PointLoad, LineLoad)", "numpy linear algebra"]
STUB = ["interruption and memory faults injected at chosen statements", "reference solver sim/reffem.py (oracle)"]
ASSUMPTIONS = ["distributed loads act over the whole element", "tolerances: 1e-5 of the largest value plus 30 times the effect of rounding element lengths to 1/1000 mm",
               "area and second moment of steel sections are taken from the section object (see C01)"]


def gen(r, i, tier):
    n = r.randint(1, 8)
    plan, cur = L.gen_history(r, n, p_edit=0.75, p_fault=r.choice([0, 0, 0.5]), kind=r.choice([None, None, "frame"]), broken=r.choice([0, 0.2]))
    # pile up loads on one element and one joint
    for _ in range(r.randint(0, 3)):
        g = L.gen_edit(r, cur, [("add_load", 4), ("release", 2), ("edit_load", 1)])
        if g:
            op = g[0]
            if op["op"] == "add_load" and r.random() < 0.6:
                prev = [l for l in cur.loads.values() if l["k"] == "ll"]
                if prev and op["load"]["k"] == "ll":
                    p = r.choice(prev)
                    op["load"]["e"], op["load"]["sid"] = p["e"], p["sid"]
                    t = copy.deepcopy(cur)
                    if not L.apply_spec(t, op):
                        continue
                    g = (op, t)
            plan["ops"].append(op)
            cur = g[1]
    lcs = list(cur.cases)
    for m in r.sample(["REM", "ZERO"], 2):
        sid = r.choice(list(cur.cases.values()))
        plan["ops"].append({"op": "analyse", "lcs": [l for l in lcs if cur.cases[l] == sid], "m": m})
    return plan


def interesting(s, lc):
    ls = [l for l in s.loads.values() if l["sid"] == lc]
    return any(e["rel"] for e in s.els.values()) or any(l["k"] == "ll" or l["f"] != 1.0 for l in ls) or len(ls) > 1


def run(plan):
    s = L.spec_from_json(plan["init"])
    lv = L.Live(s)
    n, good = 0, 0
    for op in plan["ops"]:
        if op["op"] == "analyse":
            lcs = [x for x in L.lc_list(op) if x in s.cases]
            if not lcs or len(lcs) != len(L.lc_list(op)) or len({s.cases[x] for x in lcs}) > 1 or not s.stable(lcs):
                continue
            if op.get("fault"):
                if L.with_fault(op["fault"], lambda: L.do_analyse(lv, op), "linear_statics"):
                    continue
            else:
                L.do_analyse(lv, op)
            for lc in lcs:
                res = lv.results(s, lc)
                if L.against_ref(res, s, lc, f"case {lc}, supports {op['m']}"):
                    n += 1
                    good += interesting(s, lc)
                released(res, s)
                L.log_results(res, f"lc{lc}{op['m']}")
        elif op["op"] == "broken":
            L.do_broken(lv, s, op)
        elif op["op"] != "buckle":
            t = copy.deepcopy(s)
            if not L.apply_spec(t, op):
                continue
            L.apply_live(lv, s, t, op)
            s = t
            SIM.log("edit", op["op"])
    return {"nontrivial": good >= 2, "comparisons": n}


def released(res, s):
    for u, e in s.els.items():
        for d in e["rel"]:
            m = res["f"][u]["my"][0 if d == 2 else 1]
            if abs(m) > 1e-6:
                raise Violation("mechanics:release", f"released end of element {u} carries a moment of {m!r}")
            SIM.probe("released-end-checked")
