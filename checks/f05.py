"""F05: a failed or interrupted analysis does not corrupt later results."""
import copy
from . import femlib as L
from sim.core import SIM, Violation

RUNS = {"quick": 500, "thorough": 6000}
RULE = ("A run draws a structure, then rounds of: a failing analysis (interruption or memory fault at a chosen statement - spread over the whole call and biased to its end - a "
        "failing equation solver, missing supports, a broken element or load), optionally edits, then a clean analysis that must equal a model that never saw "
        "the failure; cases not being analysed keep their stored results bit for bit. Non-trivial: at least three faults fired and were followed by a comparison.")
REAL = ["metku.framefem", "numpy linear algebra"]
STUB = ["KeyboardInterrupt / MemoryError at chosen statements of the code under test", "failing numpy.linalg.solve"]
ASSUMPTIONS = ["interruptions are delivered between statements of the code under test, not inside library calls"]


def gen(r, i, tier):
    s = L.gen_frame(r)
    while not s.stable(list(s.cases)):
        s = L.gen_frame(r)
    plan = {"init": L.spec_to_json(s), "ops": []}
    if r.random() < 0.6:
        plan["ops"].append(L.gen_analyse(r, s))
    for _ in range(r.randint(3, 10 if tier == "quick" else 25)):
        x = r.random()
        if x < 0.7:
            o = L.gen_analyse(r, s)
            o["fault"] = {"kind": r.pick(L.FAULTS), "at": r.random() if r.random() < 0.5 else 1 - 0.4 * r.random() ** 2}
            if r.random() < 0.1:
                o = {"op": "buckle", "lc": r.choice(list(s.cases)), "k": 2, "fault": {"kind": "interrupt", "at": r.random()}}
            plan["ops"].append(o)
        else:
            plan["ops"].append({"op": "broken", "how": r.choice(["no-supports", "section-none", "short-load", "bad-case", "loose-node"]),
                                "lc": r.choice(list(s.cases)), "m": r.choice(["REM", "ZERO"]), "pick": r.random()})
        for _ in range(r.pick([(0, 2), (1, 2), (3, 1)])):
            g = L.gen_edit(r, s)
            if g:
                plan["ops"].append(g[0])
                s = g[1]
        plan["ops"].append(L.gen_analyse(r, s))
    return plan


def run(plan):
    s = L.spec_from_json(plan["init"])
    lv = L.Live(s)
    pend = n = 0
    stored = {}
    for op in plan["ops"]:
        k = op["op"]
        if k in ("analyse", "buckle"):
            lcs = [x for x in (L.lc_list(op) if k == "analyse" else [op["lc"]]) if x in s.cases]
            if not lcs or len({s.cases[x] for x in lcs}) > 1 or (k == "analyse" and len(lcs) != len(L.lc_list(op))) or not s.stable(lcs):
                continue
            if k == "buckle":
                try:
                    fired = L.with_fault(op["fault"], lambda: lv.fem.linear_buckling(lcase=op["lc"], k=2), "linear_buckling") if op.get("fault") else False
                except (Violation, L.HarnessError):
                    raise
                except Exception:
                    SIM.probe("buckling-refused")
                    fired = True
            elif op.get("fault"):
                fired = L.with_fault(op["fault"], lambda: L.do_analyse(lv, op), "linear_statics")
            else:
                L.do_analyse(lv, op)
                fired = False
            for lc in lcs:
                stored.pop(lc, None)
            untouched(lv, s, stored, f"{k} of {lcs} {'with fault' if fired else ''}")
            if fired or k == "buckle":
                pend += 1
                continue
            m = "ZERO" if op["m"] == "DEF" else op["m"]
            for lc in lcs:
                res = lv.results(s, lc)
                L.compare(res, L.fresh_results(s, lc, m), s, f"case {lc} after {pend} failed analyses", "corrupted")
                stored[lc] = L.snapshot(res)
                L.log_results(res, f"lc{lc}")
            n += pend
            pend = 0
        elif k == "broken":
            if L.do_broken(lv, s, op):
                stored.pop(op["lc"], None)
                pend += 1
            untouched(lv, s, stored, "analysis of a broken model")
        else:
            t = copy.deepcopy(s)
            if not L.apply_spec(t, op):
                continue
            L.apply_live(lv, s, t, op)
            for lc in t.cases:
                if lc not in s.cases:
                    stored.pop(lc, None)
            stored = {}
            s = t
            SIM.log("edit", k)
    return {"nontrivial": n >= 3, "faults_followed_by_comparison": n}


def untouched(lv, s, stored, what):
    for lc, snap in stored.items():
        if L.snapshot(lv.results(s, lc)) != snap:
            raise Violation("corrupted:other-case", f"{what} changed the stored results of case {lc}")
