"""F01: analysis of an edited model equals analysis of that model built from scratch."""
import copy
from . import femlib as L
from . import f04
from sim.core import SIM, Violation

RUNS = {"quick": 1200, "thorough": 16000}
RULE = ("A run draws a plane structure (beam, sway frame or truss; beams with end releases, rods, 1-3 load cases) and 4-18 operations: "
        "edits (16 kinds), analyses of one or several cases with either support method, some of them interrupted, out of memory or failing "
        "inside the solver, buckling analyses and analyses of a temporarily broken model. After every completed analysis the results are compared with the current model built "
        "afresh and analysed once. Non-trivial: at least one edit took effect after an analysis and a later analysis was compared.")
REAL = ["metku.framefem (all of FrameFEM, EBBeam, Rod)", "metku steel sections used as element sections", "numpy/scipy linear algebra"]
STUB = ["interruption and memory faults injected at chosen statements", "failing equation solver", "clock and entropy"]
ASSUMPTIONS = ["structures whose scaled stiffness matrix is nearly singular (smallest eigenvalue < 1e-6) are not generated",
               "load cases analysed in one call share their supports, as linear_statics documents"]


def gen(r, i, tier):
    n = r.randint(4, 18 if tier == "quick" else 30)
    plan, cur = L.gen_history(r, n, p_edit=r.choice([0.5, 0.65, 0.8]), p_fault=r.choice([0, 0, 0.3]), buckle=r.choice([0, 0, 0.2]),
                              broken=r.choice([0, 0.2]))
    plan["ops"].append(L.gen_analyse(r, cur, 0))
    return plan


def run(plan):
    s = L.spec_from_json(plan["init"])
    lv = L.Live(s)
    edits_since, ever, compared, after_edit = 0, False, 0, 0
    for op in plan["ops"]:
        k = op["op"]
        if k == "analyse":
            lcs = [x for x in L.lc_list(op) if x in s.cases]
            if not lcs or (len(lcs) != len(L.lc_list(op))) or len({s.cases[x] for x in lcs}) > 1 or not s.stable(lcs):
                continue
            if op.get("fault"):
                if L.with_fault(op["fault"], lambda: L.do_analyse(lv, op), "linear_statics"):
                    ever = True
                    continue
            else:
                L.do_analyse(lv, op)
            m = "ZERO" if op["m"] == "DEF" else op["m"]
            for lc in lcs:
                res = lv.results(s, lc)
                fresh = L.fresh_results(s, lc, m)
                L.compare(res, fresh, s, f"case {lc} after {len(plan['ops'])} operations", "stale")
                L.log_results(res, f"lc{lc}")
                compared += 1
            if ever and edits_since:
                after_edit += 1
                SIM.probe("compared-after-edit-after-analysis")
            ever, edits_since = True, 0
        elif k == "buckle":
            buckle(lv, s, op)
        elif k == "broken":
            L.do_broken(lv, s, op)
        else:
            t = copy.deepcopy(s)
            if not L.apply_spec(t, op):
                continue
            L.apply_live(lv, s, t, op)
            SIM.log("edit", k)
            SIM.probe("edit:" + k)
            s = t
            edits_since += 1
    return {"nontrivial": after_edit > 0, "comparisons": compared, "operations": len(plan["ops"])}


def buckle(lv, s, op):
    if op["lc"] not in s.cases or not s.stable([op["lc"]]):
        return
    out = f04.attempt(lv.fem, op["lc"], op["k"])
    if out[0] != "ok":
        SIM.log("buckle-refused")       # no compression or too few free dofs
        return
    # the static analysis underneath and the modes belong to the current model
    L.compare(lv.results(s, op["lc"]), L.fresh_results(s, op["lc"], "REM"), s, f"static results of buckling analysis of case {op['lc']}", "stale")
    f04.eig_ok(lv, s, op["lc"], out[1][0], f"buckling of case {op['lc']}")
    SIM.probe("buckling-compared")
